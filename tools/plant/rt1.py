RT = 'runtime/src/'
GEN = 'compiler/src/gen/rust/'
COMMON = RT + 'message/util/common.rs'
STRING = RT + 'message/util/string.rs'
LB = RT + 'message/util/list_base.rs'
LIST = RT + 'message/util/list.rs'

STR_SCHEMA = '''{ name: "demo", messages: [ { name: "M", fields: [
  { name: "a", info: { type: "string" } }, { name: "b", info: { type: "string", max_len: 255 } } ] } ] }'''

BUGS = [
dict(id='c01-terminator-write', property='C01',
  needs='a sink that refuses the terminator byte of a null-terminated string by accepting 0 bytes (a full buffer) or by an interruption',
  breaks='the terminator is offered with write and not write_all: a full sink makes the encode report success although the message is incomplete',
  edits=[(STRING, '        out.write_all(&[0x0])?;\n', '        let _ = out.write(&[0x0])?;\n')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string" } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::WriteTo;
fn main() {
    let m = demo::M { a: "hello" };
    let mut buf = [0xAAu8; 5];
    assert!(demo::M::write_to(&m, &mut buf[..]).is_err(), "success although the terminator was not accepted");
    let mut buf = Vec::new();
    demo::M::write_to(&m, &mut buf).unwrap();
    assert_eq!(buf, b"hello\\0");
}'''),

dict(id='c01-payload-first-write', property='C01',
  needs='a payload field and a sink that interrupts the first write of the payload, or that fails after a partial write',
  breaks='the first part of a payload is offered with a bare write, whose interruption is reported as a failure of the encode and whose refusal (0 bytes) is retried',
  edits=[(COMMON, '        out.write_all(input)?;\n', '        // Try to send the whole payload at once.\n        let sent = out.write(input)?;\n        out.write_all(&input[sent..])?;\n')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "payload" } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::WriteTo;
struct Sink(Vec<u8>, bool);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if !self.1 { self.1 = true; return Err(std::io::ErrorKind::Interrupted.into()); }
        self.0.extend_from_slice(b); Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut s = Sink(Vec::new(), false);
    demo::M::write_to(&demo::M { a: b"some payload" }, &mut s).expect("an interruption is no failure");
    assert_eq!(s.0, b"some payload");
}'''),

dict(id='c02-counter-chunk', property='C02',
  needs='a single field of more than 4096 bytes',
  breaks='the counting sink counts a large buffer again for every chunk, so the size of a message with a large field is overstated',
  edits=[(RT + 'message/util/size.rs', '        self.0 += buf.len();\n        Ok(buf.len())\n', '        let len = buf.len().min(4096);\n        self.0 += buf.len();\n        Ok(len)\n')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "payload" } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    for n in [0usize, 10, 4096, 4097, 20000] {
        let v = vec![1u8; n];
        assert_eq!(bp3d_proto::message::util::size_of(&demo::M { a: &v }).unwrap(), n);
    }
}'''),

dict(id='c03-set-discriminant-index', property='C03',
  needs='a union whose cases are not declared in the order of contiguous enum values starting at 0',
  breaks='set_discriminant stores the index of the case instead of its discriminant',
  edits=[(GEN + 'union.rs', '''fn gen_union_set_discriminant(u: &Union, template: &Template) -> String {
    let cases = u.cases.iter().map(|case| {
        let mut scope = template.scope();
        scope.var("name", &case.name).var_d("case", case.case);
''', '''fn gen_union_set_discriminant(u: &Union, template: &Template) -> String {
    let cases = u.cases.iter().enumerate().map(|(index, case)| {
        let mut scope = template.scope();
        scope.var("name", &case.name).var_d("case", index);
''')],
  schemas={'demo': '''{ name: "demo", enums: [ { name: "K", variants: { "A": 2, "B": 5 } } ],
  structs: [ { name: "H", fields: [ { name: "k", info: { type: "unsigned", bits: 8 }, view: { type: "enum", name: "K" } } ] },
             { name: "V", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } }, { name: "y", info: { type: "unsigned", bits: 8 } } ] } ],
  unions: [ { name: "U", discriminant: "H.k", cases: [ { name: "A", case: "A" }, { name: "B", case: "B", item_type: "V" } ] } ],
  messages: [ { name: "M", fields: [ { name: "h", info: { type: "item", item_type: "H" } }, { name: "u", info: { type: "union", on: "h", item_type: "U" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    let v = [7u8, 8];
    for u in [demo::U::A, demo::U::B(demo::V::new(&v[..]))] {
        let mut h = demo::H::new_on_stack();
        u.set_discriminant(&mut h);
        let mut out = Vec::new();
        demo::M::write_to(&demo::M { h: h.to_ref(), u }, &mut out).expect("the discriminant was set from the value");
        demo::M::from_slice(&out).unwrap();
    }
}'''),

dict(id='c03-write-by-low-byte', property='C03',
  needs='a discriminant wider than 8 bits with two values equal in their low byte',
  breaks='the encoder compares only the low byte of the discriminant with the case, so a payload is encoded under a discriminant that names another case',
  edits=[(GEN + 'union.template', '            Self::{name}(v) => if discriminant == {case} {{\n', '            Self::{name}(v) => if discriminant as u8 == ({case} as usize) as u8 {{\n')],
  schemas={'demo': '''{ name: "demo", enums: [ { name: "K", variants: { "A": 1, "B": 257 } } ],
  structs: [ { name: "H", fields: [ { name: "k", info: { type: "unsigned", bits: 16 }, view: { type: "enum", name: "K" } } ] },
             { name: "V", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } }, { name: "y", info: { type: "unsigned", bits: 8 } } ] } ],
  unions: [ { name: "U", discriminant: "H.k", cases: [ { name: "A", case: "A", item_type: "V" }, { name: "B", case: "B" } ] } ],
  messages: [ { name: "M", fields: [ { name: "h", info: { type: "item", item_type: "H" } }, { name: "u", info: { type: "union", on: "h", item_type: "U" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::WriteTo;
fn main() {
    let v = [7u8, 8];
    let mut h = demo::H::new_on_stack();
    h.set_k(demo::K::B);
    let m = demo::M { h: h.to_ref(), u: demo::U::A(demo::V::new(&v[..])) };
    assert!(demo::M::write_to(&m, &mut Vec::new()).is_err(), "payload of case A encoded under discriminant B");
}'''),

dict(id='c04-varchar-trim', property='C04',
  needs='a length-prefixed string that ends in NUL characters',
  breaks='the decoder strips trailing NULs of a length-prefixed string as if it were padded, so the string read is not the string written and the size is wrong',
  edits=[(STRING, '        let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;\n', "        let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?.trim_end_matches('\\0');\n")],
  schemas={'demo': STR_SCHEMA},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    for b in ["", "x", "x\\0y", "x\\0", "\\0\\0"] {
        let mut out = Vec::new();
        if demo::M::write_to(&demo::M { a: "k", b }, &mut out).is_ok() {
            let m = demo::M::from_slice(&out).unwrap();
            assert_eq!(m.size(), out.len());
            assert_eq!(m.into_inner().b, b);
        }
    }
}'''),

dict(id='c05-count-first', property='C05',
  needs='a buffer behind the list that fails (or unwinds) in the middle of an append',
  breaks='the item is counted before it is written: after a failed write the count covers an item that is not wholly there',
  edits=[(LB, '                Item::write_to(item, &mut self.data)?;\n                self.len += 1;\n', '                self.len += 1;\n                Item::write_to(item, &mut self.data)?;\n')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "I", fields: [ { name: "a", info: { type: "string" } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::util::{List, ValueLE};
struct Sink(Vec<u8>, usize);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.1 == 0 { return Err(std::io::ErrorKind::StorageFull.into()); }
        let n = b.len().min(self.1); self.1 -= n; self.0.extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut l = List::<_, ValueLE<u8>, demo::I>::new(Sink(Vec::new(), 6));
    l.write_item(&demo::I { a: "abc" }).unwrap();
    assert!(l.write_item(&demo::I { a: "def" }).is_err());
    assert_eq!(l.len(), 1, "the torn item is counted");
}'''),

dict(id='c05-batch-count', property='C05',
  needs='write_items with an item that is refused after other items of the same batch were appended',
  breaks='the items of a batch are counted only at its end, so after a refusal the buffer holds items the count does not cover',
  edits=[(LB, '                for item in items {\n                    self.write_item(item)?;\n                }\n                Ok(())\n', '                let len = self.len;\n                for item in items {\n                    self.write_item(item)?;\n                    // The items of a batch are published together.\n                    self.len = len;\n                }\n                self.len = len + items.len();\n                Ok(())\n')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "I", fields: [ { name: "a", info: { type: "string", max_len: 255 } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{WriteTo, FromSlice};
use bp3d_proto::message::util::{List, ValueLE};
fn main() {
    let long = "x".repeat(300);
    let mut l = List::<Vec<u8>, ValueLE<u8>, demo::I>::new(Vec::new());
    assert!(l.write_items(&[demo::I { a: "abc" }, demo::I { a: &long }]).is_err());
    let _ = l.write_item(&demo::I { a: "z" });
    let mut out = Vec::new();
    List::<&[u8], ValueLE<u8>, demo::I>::write_to(&l.to_ref::<demo::I>(), &mut out).unwrap();
    let m = List::<&[u8], ValueLE<u8>, demo::I>::from_slice(&out).unwrap();
    assert_eq!(m.size(), out.len(), "bytes of uncounted items in the list");
    let items: Vec<_> = m.into_inner().iter().map(|v| v.unwrap().a.to_string()).collect();
    assert_eq!(items.last().unwrap(), "z");
}'''),

dict(id='c06-multiplier-inverse', property='C06',
  needs='a float-multiplier view whose multiplier is not the reciprocal of an integer',
  breaks='the inverse of the multiplier is rounded to an integer, so the values stored through such a view do not come back',
  edits=[('compiler/src/compiler/structure.rs', """                let a = multiplier;
                let b = 0.0;
                let a_inv = 1.0 / a;
                let b_inv = 0.0;
""", """                let a = multiplier;
                let b = 0.0;
                // Keep the inverse exact: multipliers are decimal steps such as 0.1.
                let a_inv = (1.0 / a).round();
                let b_inv = 0.0;
""")],
  schemas={'demo': '{ name: "demo", structs: [ { name: "S", fields: [ { name: "a", info: { type: "float", bits: 16 }, view: { type: "float-multiplier", multiplier: 0.3 } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    for v in [0.0f32, 0.3, 30.0, 3000.0] {
        let mut s = demo::S::new_on_stack();
        s.set_a(v);
        assert!((s.get_a() - v).abs() <= 0.31, "{} {}", s.get_a(), v);
    }
}'''),

dict(id='c06-prefix-boundary', property='C06',
  needs='a list or string whose max_len is exactly 65535',
  breaks='the length prefix of a field with max_len 65535 takes 4 bytes and not 2: an independent implementation of the wire format cannot read it',
  edits=[('compiler/src/compiler/structure.rs', '        } else if max_value > u16::MAX as usize {\n', '        } else if max_value >= u16::MAX as usize {\n')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string", max_len: 65535 } }, { name: "b", info: { type: "string" } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::WriteTo;
fn main() {
    let mut out = Vec::new();
    demo::M::write_to(&demo::M { a: "xy", b: "" }, &mut out).unwrap();
    assert_eq!(out, b"\\x02\\x00xy\\x00");
}'''),

dict(id='c07-absent-optional', property='C07',
  needs='input that ends right before the flag byte of an optional field',
  breaks='an optional field that has not arrived yet is taken as absent, so a proper prefix of a message decodes as a complete message that was never sent',
  edits=[(COMMON, '''    fn from_slice(slice: &'a [u8]) -> Result<Message<Option<T>>, Error> {
        if slice.len() < 1 {
            Err(Error::Truncated)
''', '''    fn from_slice(slice: &'a [u8]) -> Result<Message<Option<T>>, Error> {
        if slice.len() < 1 {
            // Sent by an older peer, which does not know this field.
            Ok(Message::new(0, None))
'''), (COMMON, '''    fn from_slice_with_offsets(slice: &'a [u8]) -> crate::message::Result<Message<(Self::Output, Self::Offsets)>> {
        if slice.len() < 1 {
            Err(Error::Truncated)
''', '''    fn from_slice_with_offsets(slice: &'a [u8]) -> crate::message::Result<Message<(Self::Output, Self::Offsets)>> {
        if slice.len() < 1 {
            Ok(Message::new(0, (None, None)))
''')],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "I", fields: [ { name: "s", info: { type: "string" } } ] },
   { name: "M", fields: [ { name: "a", info: { type: "string" } }, { name: "o", info: { type: "item", item_type: "I" }, optional: true } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{WriteTo, FromSlice};
fn main() {
    let mut out = Vec::new();
    demo::M::write_to(&demo::M { a: "xy", o: Some(demo::I { s: "later" }) }, &mut out).unwrap();
    for n in 0..out.len() {
        assert!(demo::M::from_slice(&out[..n]).is_err(), "{} bytes of {} decode", n, out.len());
    }
}'''),

dict(id='c08-list-reserve', property='C08',
  needs='damaged bytes in which the length prefix of a list nested in a list item announces billions of items',
  breaks='the decoder reserves memory for the announced number of items before any of them was seen',
  edits=[(LIST, '''        let mut total_size: usize = 0;
''', '''        let mut ends: Vec<usize> = Vec::with_capacity(len);
        ends.push(0);
'''), (LIST, '''            let msg = Item::from_slice(&data[total_size..])?;
''', '''            let msg = Item::from_slice(&data[ends[ends.len() - 1]..])?;
'''), (LIST, '''            total_size += msg.size();
        }
''', '''            ends.push(ends[ends.len() - 1] + msg.size());
        }
        let total_size = ends[ends.len() - 1];
''')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "I", fields: [ { name: "a", info: { type: "string" } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
use bp3d_proto::message::util::{List, ValueLE};
fn main() {
    let r = List::<&[u8], ValueLE<u64>, demo::I>::from_slice(&[0xFF; 12]);
    assert!(r.is_err());
}'''),

dict(id='c09-offsets-until-empty', property='C09',
  needs='iterating a list with offsets when bytes follow its last item, or when items are missing',
  breaks='the iteration with offsets ends when the bytes end and not at the declared count: it yields entries beyond the count and hides missing items',
  edits=[(LIST, '''    type Item = crate::message::Result<(Item, Item::Offsets)>;

    fn next(&mut self) -> Option<Self::Item> {
        if self.len == 0 {
            return None;
        }
''', '''    type Item = crate::message::Result<(Item, Item::Offsets)>;

    fn next(&mut self) -> Option<Self::Item> {
        if self.data.is_empty() {
            return None;
        }
'''), (LIST, '''            Ok(v) => v
        };
        self.data = &self.data[msg.size()..];
        self.len -= 1;
        Some(Ok(msg.into_inner()))
    }
}

impl<B: AsRef''', '''            Ok(v) => v
        };
        self.data = &self.data[msg.size()..];
        self.len = self.len.saturating_sub(1);
        Some(Ok(msg.into_inner()))
    }
}

impl<B: AsRef''')],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "I", fields: [ { name: "a", info: { type: "string" } } ] },
    { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 255, item_type: "I" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    let m = demo::M::from_slice(b"\\x02a\\0b\\0c\\0").unwrap().into_inner();
    assert_eq!(m.l.iter().count(), 2);
    assert_eq!(m.l.iter_offsets().count(), 2);
}'''),

dict(id='c10-empty-union-offset', property='C10',
  needs='decoding with offsets a message whose union holds a case without payload',
  breaks='the offsets of a union without payload stay at 0..0, so they no longer follow the field before',
  edits=[(GEN + 'message.offsets.template', '''        let {name}_msg = {type}::from_slice(&slice[byte_offset..], &{on_name})?;
        offsets.{name}.start = byte_offset;
        byte_offset += {name}_msg.size();
        offsets.{name}.end = byte_offset;
''', '''        let {name}_msg = {type}::from_slice(&slice[byte_offset..], &{on_name})?;
        if {name}_msg.size() > 0 {{
            offsets.{name}.start = byte_offset;
            byte_offset += {name}_msg.size();
            offsets.{name}.end = byte_offset;
        }}
''')],
  schemas={'demo': '''{ name: "demo", enums: [ { name: "K", variants: { "A": 0, "B": 1 } } ],
  structs: [ { name: "H", fields: [ { name: "k", info: { type: "unsigned", bits: 8 }, view: { type: "enum", name: "K" } } ] },
             { name: "V", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } }, { name: "y", info: { type: "unsigned", bits: 8 } } ] } ],
  unions: [ { name: "U", discriminant: "H.k", cases: [ { name: "A", case: "A" }, { name: "B", case: "B", item_type: "V" } ] } ],
  messages: [ { name: "M", fields: [ { name: "h", info: { type: "item", item_type: "H" } }, { name: "u", info: { type: "union", on: "h", item_type: "U" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSliceWithOffsets;
fn main() {
    for b in [&b"\\0"[..], &b"\\x01ab"[..]] {
        let (_, o) = demo::M::from_slice_with_offsets(b).unwrap().into_inner();
        assert_eq!((o.h.start, o.h.end, o.u.start, o.u.end), (0, 1, 1, b.len()));
    }
}'''),

dict(id='c11-implicit-variants', property='C11',
  needs='an enum whose values are not contiguous from 0',
  breaks='variants are declared without their values, so writing a variant stores its ordinal and not its declared value',
  edits=[(GEN + 'enum.template', '    {key} = {value},\n', '    {key},\n')],
  schemas={'demo': '''{ name: "demo", enums: [ { name: "K", variants: { "A": 1, "B": 4, "C": 9 } } ],
  structs: [ { name: "H", fields: [ { name: "k", info: { type: "unsigned", bits: 8 }, view: { type: "enum", name: "K" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let mut h = demo::H::new_on_stack();
    h.set_k(demo::K::B);
    assert_eq!(h.get_raw_k(), 4);
    assert_eq!(h.get_k(), Some(demo::K::B));
}'''),

dict(id='c12-array-item-width', property='C12',
  needs='an array of items narrower than their type (24 bits) whose items are updated out of order',
  breaks='storing an item writes as many bytes as its type has, which overwrites the first byte of the next item',
  edits=[(RT + 'codec/arrays.rs', '''        let end = pos + byte_size;
        C::write::<Item>(&mut self.buffer.as_mut()[pos..end], value);
''', '''        let buffer = self.buffer.as_mut();
        let end = (pos + size_of::<Item>()).min(buffer.len());
        C::write::<Item>(&mut buffer[pos..end], value);
''')],
  schemas={'demo': '{ name: "demo", structs: [ { name: "S", fields: [ { name: "a", info: { type: "unsigned", bits: 24 }, array_len: 3 } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let mut s = demo::S::new_on_stack();
    for i in [2usize, 1, 0] { s.get_a_mut().set_raw(i, 0x010203 * (i as u32 + 1)); }
    for i in 0..3usize { assert_eq!(s.get_a().get_raw(i), 0x010203 * (i as u32 + 1)); }
}'''),

dict(id='c12-wide-value', property='C12',
  needs='storing a value wider than its packed field',
  breaks='a value wider than a little-endian field is not reduced to its width and spills into the following field',
  edits=[(RT + 'codec/bits.rs', '        let original = T::read_bytes_le(buffer);\n        let clean = original & T::from_usize(reset_mask);\n        let value = (value & T::from_usize(mask)) << T::from_usize(BIT_OFFSET);\n', '        let original = T::read_bytes_le(buffer);\n        let clean = original & T::from_usize(reset_mask);\n        let value = value << T::from_usize(BIT_OFFSET);\n')],
  schemas={'demo': '{ name: "demo", structs: [ { name: "S", fields: [ { name: "a", info: { type: "unsigned", bits: 3 } }, { name: "b", info: { type: "unsigned", bits: 5 } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let mut s = demo::S::new_on_stack();
    s.set_b(1);
    s.set_a(0xFF);
    assert_eq!((s.get_a(), s.get_b()), (7, 1));
}'''),

dict(id='c13-shared-scratch', property='C13',
  needs='a sink that unwinds while a null-terminated string is encoded, or that encodes another message itself',
  breaks='all encoders share a locked scratch buffer, which stays poisoned for every later encode after one sink unwound, and deadlocks when a sink encodes',
  edits=[(STRING, '''        out.write_all(input.as_bytes())?;
        out.write_all(&[0x0])?;
        Ok(())
''', '''        // Join the string and its terminator to save one write.
        static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
        let mut scratch = SCRATCH.lock().unwrap();
        scratch.clear();
        scratch.extend_from_slice(input.as_bytes());
        scratch.push(0x0);
        out.write_all(&scratch)?;
        Ok(())
''')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string" } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::WriteTo;
struct Bad;
impl std::io::Write for Bad {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { panic!("torn down") }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let _ = std::panic::catch_unwind(|| { let _ = demo::M::write_to(&demo::M { a: "x" }, Bad); });
    let mut out = Vec::new();
    demo::M::write_to(&demo::M { a: "y" }, &mut out).unwrap();
    assert_eq!(out, b"y\\0");
}'''),

dict(id='c13-static-counter', property='C13',
  needs='two callers that measure lists at the same time, interleaved where the library reads the buffer behind a list',
  breaks='the size query counts in a static, so a concurrent size query changes its result',
  edits=[(RT + 'message/util/size.rs', 'struct Counter(usize);\n', 'struct Counter;\n\nstatic COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n'),
         (RT + 'message/util/size.rs', '        self.0 += buf.len();\n', '        COUNT.fetch_add(buf.len(), std::sync::atomic::Ordering::Relaxed);\n'),
         (RT + 'message/util/size.rs', '        let mut counter = Counter(0);\n        Msg::write_to(msg, &mut counter)?;\n        Ok(counter.0)\n', '        COUNT.store(0, std::sync::atomic::Ordering::Relaxed);\n        Msg::write_to(msg, &mut Counter)?;\n        Ok(COUNT.load(std::sync::atomic::Ordering::Relaxed))\n')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string" } } ] } ] }'},
  main='''
use bp3d_proto::message::util::{List, ValueLE, size_of};
struct Buf(bool);
impl AsRef<[u8]> for Buf {
    fn as_ref(&self) -> &[u8] {
        if self.0 {
            let l = unsafe { List::<Buf, ValueLE<u8>, ()>::from_raw_parts(Buf(false), 3) };
            std::thread::spawn(move || assert_eq!(size_of(&l).unwrap(), 5)).join().unwrap();
        }
        b"abcd"
    }
}
fn main() {
    let l = unsafe { List::<Buf, ValueLE<u8>, ()>::from_raw_parts(Buf(true), 3) };
    assert_eq!(size_of(&l).unwrap(), 5);
}'''),
]

RT = 'runtime/src/'
GEN = 'compiler/src/gen/rust/'
COMMON = RT + 'message/util/common.rs'
STRING = RT + 'message/util/string.rs'
LB = RT + 'message/util/list_base.rs'
LIST = RT + 'message/util/list.rs'
ARRAY = RT + 'message/util/array.rs'

UNION = '''{ name: "demo", enums: [ { name: "K", variants: { "A": 1, "B": 2, "C": 257 } } ],
  structs: [ { name: "H", fields: [ { name: "k", info: { type: "unsigned", bits: 16 }, view: { type: "enum", name: "K" } } ] },
             { name: "V", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } }, { name: "y", info: { type: "unsigned", bits: 8 } } ] } ],
  unions: [ { name: "U", discriminant: "H.k", cases: [ { name: "A", case: "A", item_type: "V" }, { name: "B", case: "B" } ] } ],
  messages: [ { name: "M", fields: [ { name: "h", info: { type: "item", item_type: "H" } }, { name: "u", info: { type: "union", on: "h", item_type: "U" } } ] } ] }'''

BUGS = [
dict(id='c01-union-buffered', property='C01',
  needs='a sink that fails while the payload of a union is written',
  breaks='the payload of a union goes through a buffered writer whose final flush happens on drop, where its error is lost',
  edits=[(GEN + 'union.template', '                {type_name}::write_to(v, &mut out)?\n', '                let mut out = std::io::BufWriter::new(&mut out);\n                {type_name}::write_to(v, &mut out)?\n')],
  schemas={'demo': UNION},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::WriteTo;
fn main() {
    let v = [7u8, 8];
    let mut h = demo::H::new_on_stack();
    h.set_k(demo::K::A);
    let m = demo::M { h: h.to_ref(), u: demo::U::A(demo::V::new(&v[..])) };
    let mut out = Vec::new();
    demo::M::write_to(&m, &mut out).unwrap();
    assert_eq!(out, [1, 0, 7, 8]);
    let mut buf = [0u8; 3];
    assert!(demo::M::write_to(&m, &mut buf[..]).is_err(), "success although the payload was not accepted");
}'''),

dict(id='c01-error-replaced', property='C01',
  needs='a sink that fails on the length prefix or on a plain value of a message',
  breaks="the sink's own error is replaced by a decoding error",
  edits=[(COMMON, '        input.write_to_le(out)?;\n        Ok(())\n', '        input.write_to_le(out).map_err(|_| Error::Truncated)\n')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string", max_len: 60000 } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{Error, WriteTo};
struct Sink;
impl std::io::Write for Sink {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::BrokenPipe.into()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    match demo::M::write_to(&demo::M { a: "x" }, Sink) {
        Err(Error::Io(e)) => assert_eq!(e.kind(), std::io::ErrorKind::BrokenPipe),
        _ => panic!("not the error of the sink")
    }
}'''),

dict(id='c02-u16-counter', property='C02',
  needs='a message of more than 65535 bytes',
  breaks='the size is counted in 16 bits and wraps',
  edits=[(RT + 'message/util/size.rs', 'struct Counter(usize);\n', 'struct Counter(u16);\n'),
         (RT + 'message/util/size.rs', '        self.0 += buf.len();\n', '        self.0 = self.0.wrapping_add(buf.len() as u16);\n'),
         (RT + 'message/util/size.rs', '        Ok(counter.0)\n', '        Ok(counter.0 as usize)\n')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string" } }, { name: "b", info: { type: "payload" } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let s = "x".repeat(40000);
    let v = vec![1u8; 40000];
    assert_eq!(bp3d_proto::message::util::size_of(&demo::M { a: "", b: &v }).unwrap(), 40001);
    assert_eq!(bp3d_proto::message::util::size_of(&demo::M { a: &s, b: &v }).unwrap(), 80001);
}'''),

dict(id='c03-decode-low-byte', property='C03',
  needs='a stored discriminant that selects no case but equals one in its low byte',
  breaks='decoding selects the case by the low byte of the discriminant',
  edits=[(GEN + 'union.template', '''        use bp3d_proto::message::FromSlice;
        let discriminant = discriminant.{discriminant_path};
        match discriminant {{
''', '''        use bp3d_proto::message::FromSlice;
        let discriminant = discriminant.{discriminant_path};
        match discriminant as usize & 0xFF {{
''')],
  schemas={'demo': UNION},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{Error, FromSlice};
fn main() {
    assert!(demo::M::from_slice(&[1, 0, 7, 8]).is_ok());
    match demo::M::from_slice(&[1, 1, 7, 8]) {
        Err(Error::InvalidUnionDiscriminant(257)) => (),
        _ => panic!("257 selects no case")
    }
}'''),

dict(id='c04-bom', property='C04',
  needs='a length-prefixed string that starts with a byte order mark',
  breaks='the decoder drops a leading byte order mark from a string',
  edits=[(STRING, '''        let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
        Ok(Message::new(size + string.len(), string))
''', '''        let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
        Ok(Message::new(size + string.len(), string.strip_prefix('\\u{FEFF}').unwrap_or(string)))
''')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string", max_len: 255 } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    for a in ["", "abc", "\\u{FEFF}abc", "a\\u{FEFF}"] {
        let mut out = Vec::new();
        if demo::M::write_to(&demo::M { a }, &mut out).is_ok() {
            assert_eq!(demo::M::from_slice(&out).unwrap().into_inner().a, a);
        }
    }
}'''),

dict(id='c05-retry-item', property='C05',
  needs='a buffer behind the list that fails once in the middle of an append with WouldBlock',
  breaks='an append that failed temporarily is tried again from the start of the item, so the list counts one item behind a part of it',
  edits=[(LB, '                Item::write_to(item, &mut self.data)?;\n                self.len += 1;\n', '''                match Item::write_to(item, &mut self.data) {
                    // Temporary: try once more.
                    Err(Error::Io(e)) if e.kind() == std::io::ErrorKind::WouldBlock => Item::write_to(item, &mut self.data)?,
                    v => v?
                }
                self.len += 1;
''')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "I", fields: [ { name: "a", info: { type: "string", max_len: 255 } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
use bp3d_proto::message::util::{List, ValueLE};
struct Sink<'a>(&'a mut Vec<u8>, usize);
impl<'a> std::io::Write for Sink<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 == 2 { return Err(std::io::ErrorKind::WouldBlock.into()); }
        self.0.extend_from_slice(b); Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut buf = Vec::new();
    let mut l = List::<_, ValueLE<u8>, demo::I>::new(Sink(&mut buf, 0));
    let r = l.write_item(&demo::I { a: "abc" });
    let n = l.len();
    assert!(r.is_err() || n == 1);
    drop(l);
    let mut at = 0;
    for _ in 0..n {
        let m = demo::I::from_slice(&buf[at..]).unwrap();
        at += m.size();
        assert_eq!(m.into_inner().a, "abc");
    }
}'''),

dict(id='c06-value-be', property='C06',
  needs='a big-endian protocol whose prefixes or plain values are read by another implementation',
  breaks='plain values and prefixes of big-endian protocols are written and read in little-endian order: the two sides agree with each other only',
  edits=[(COMMON, '            let value = T::read_bytes_be(slice);\n', '            let value = T::read_bytes_le(slice);\n'),
         (COMMON, '        input.write_to_be(out)?;\n', '        input.write_to_le(out)?;\n')],
  schemas={'demo': '{ name: "demo", endianness: "big", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string", max_len: 60000 } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::WriteTo;
fn main() {
    let mut out = Vec::new();
    demo::M::write_to(&demo::M { a: "xy" }, &mut out).unwrap();
    assert_eq!(out, b"\\x00\\x02xy");
}'''),

dict(id='c07-list-partial', property='C07',
  needs='input that ends in the middle of the items of a list which is nested in a list item',
  breaks='a nested list of which some items have not arrived is accepted with the items that have',
  edits=[(LIST, '            let msg = Item::from_slice(&data[total_size..])?;\n', '''            let msg = match Item::from_slice(&data[total_size..]) {
                // The items that have arrived can be used.
                Err(Error::Truncated) if total_size > 0 => break,
                v => v?
            };
''')],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "J", fields: [ { name: "s", info: { type: "string" } } ] },
    { name: "I", fields: [ { name: "l", info: { type: "list", max_len: 255, item_type: "J" } } ] },
    { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 255, item_type: "I" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    let all = b"\\x02ab\\0cd\\0";
    assert_eq!(demo::I::from_slice(all).unwrap().size(), all.len());
    for n in 0..all.len() {
        assert!(demo::I::from_slice(&all[..n]).is_err(), "{} of {} bytes decode", n, all.len());
    }
}'''),

dict(id='c08-utf8-head', property='C08',
  needs='a length-prefixed string with invalid UTF-8 beyond its first 64 bytes',
  breaks='only the head of a long string is validated, so a decoded str can hold bytes which are no UTF-8',
  edits=[(STRING, '        let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;\n', '''        let string = match subslice.len() > 64 && subslice[..64].is_ascii() {
            // Text which starts as ASCII stays ASCII.
            true => unsafe { std::str::from_utf8_unchecked(subslice) },
            false => std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?
        };
''')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string", max_len: 255 } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    let mut b = vec![b'a'; 101];
    b[0] = 100;
    assert!(demo::M::from_slice(&b).is_ok());
    b[90] = 0xFF;
    assert!(demo::M::from_slice(&b).is_err(), "invalid UTF-8 accepted");
}'''),

dict(id='c08-utf8-memo', property='C08',
  needs='decoding twice from the same receive buffer: first valid text, then damaged bytes of the same length at the same place',
  breaks='text that was validated once is not validated again when it comes from the same place in memory',
  edits=[(STRING, '        let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;\n', '''        // Messages are often decoded a second time, with offsets.
        static LAST: std::sync::Mutex<(usize, usize)> = std::sync::Mutex::new((0, 0));
        let key = (subslice.as_ptr() as usize, subslice.len());
        let mut last = LAST.lock().unwrap();
        if *last != key {
            std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
            *last = key;
        }
        let string = unsafe { std::str::from_utf8_unchecked(subslice) };
''')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string", max_len: 255 } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    let mut b = *b"\\x05hello";
    assert!(demo::M::from_slice(&b).is_ok());
    b[3] = 0xFF;
    assert!(demo::M::from_slice(&b).is_err(), "invalid UTF-8 accepted");
}'''),

dict(id='c08-flag-one', property='C08',
  needs='an optional field whose flag byte was damaged to a value above 1',
  breaks='an optional field is present only for the flag 1 when decoding without offsets, and for every flag but 0 when decoding with them',
  edits=[(COMMON, '''            let b = slice[0] > 0;
            if b {
                let msg = T::from_slice(&slice[1..])?;
''', '''            let b = slice[0] == 1;
            if b {
                let msg = T::from_slice(&slice[1..])?;
''')],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "I", fields: [ { name: "s", info: { type: "string" } } ] },
   { name: "M", fields: [ { name: "o", info: { type: "item", item_type: "I" }, optional: true } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, FromSliceWithOffsets};
fn main() {
    for f in 0..=255u8 {
        let b = [f, b'x', 0];
        let m = demo::M::from_slice(&b).unwrap();
        let o = demo::M::from_slice_with_offsets(&b).unwrap();
        assert_eq!(m.size(), o.size());
        assert_eq!(m.into_inner().o.is_some(), f != 0);
    }
}'''),

dict(id='c09-count', property='C09',
  needs='a consumer that counts the entries of a damaged list with the count method of the iterator',
  breaks='counting an iterator returns the declared count and not the number of entries it yields',
  edits=[(LIST, '''        self.data = &self.data[msg.size()..];
        self.len -= 1;
        Some(Ok(msg.into_inner()))
    }
}

pub struct IterOffsets''', '''        self.data = &self.data[msg.size()..];
        self.len -= 1;
        Some(Ok(msg.into_inner()))
    }

    fn count(self) -> usize {
        self.len
    }
}

pub struct IterOffsets''')],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "I", fields: [ { name: "a", info: { type: "string" } } ] },
    { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 255, item_type: "I" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    let m = demo::M::from_slice(b"\\x05a\\0b\\0c\\0").unwrap().into_inner();
    let mut n = 0;
    for _ in m.l.iter() { n += 1; }
    assert_eq!(n, 4);
    assert_eq!(m.l.iter().count(), 4);
}'''),

dict(id='c10-optional-nested', property='C10',
  needs='decoding with offsets an optional nested message whose flag byte is present',
  breaks='the end of a nested message is its own end and not that of the field, so a field after an optional message is shifted',
  edits=[(COMMON, '''                let size = msg.size();
                let (msg, offsets) = msg.into_inner();
                Ok(Message::new(size + 1, (Some(msg), Some(offsets))))
''', '''                let size = msg.size().max(1);
                let (msg, offsets) = msg.into_inner();
                Ok(Message::new(size + (size > 1) as usize, (Some(msg), Some(offsets))))
''')],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "I", fields: [ { name: "s", info: { type: "string" } } ] },
   { name: "M", fields: [ { name: "o", info: { type: "item", item_type: "I" }, optional: true }, { name: "t", info: { type: "string" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, FromSliceWithOffsets};
fn main() {
    for b in [&b"\\0t\\0"[..], b"\\x01ab\\0t\\0", b"\\x01\\0t\\0"] {
        let m = demo::M::from_slice(b).unwrap();
        let o = demo::M::from_slice_with_offsets(b).unwrap();
        assert_eq!(m.size(), o.size());
        let (m, (n, o)) = (m.into_inner(), o.into_inner());
        assert_eq!(m.t, n.t);
        assert_eq!((o.o.start, o.o.end, o.t.start, o.t.end), (0, b.len() - 2, b.len() - 2, b.len()));
    }
}'''),

dict(id='c11-setter-byte', property='C11',
  needs='an enum with a variant whose value is above 255',
  breaks='a variant is reduced to a byte before it is stored',
  edits=[(GEN + 'structure.field.template', '        self.set_raw_{name}(value as {raw_type});\n        self\n    }}\n#fragment pop\n#fragment push view_transmute\n', '        self.set_raw_{name}(value as u8 as {raw_type});\n        self\n    }}\n#fragment pop\n#fragment push view_transmute\n')],
  schemas={'demo': '''{ name: "demo", enums: [ { name: "K", variants: { "A": 1, "B": 4, "C": 300 } } ],
  structs: [ { name: "H", fields: [ { name: "k", info: { type: "unsigned", bits: 16 }, view: { type: "enum", name: "K" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    for k in [demo::K::A, demo::K::B, demo::K::C] {
        let mut h = demo::H::new_on_stack();
        h.set_k(k);
        assert_eq!(h.get_k(), Some(k));
    }
}'''),

dict(id='c12-almost-full', property='C12',
  needs='an update of a little-endian field that leaves a single bit of its bytes to a neighbour',
  breaks='a field which is one bit short of its type is stored as a whole, which clears the neighbouring bit',
  edits=[(RT + 'codec/bits.rs', '''        let original = T::read_bytes_le(buffer);
        let clean = original & T::from_usize(reset_mask);
''', '''        let original = T::read_bytes_le(buffer);
        // The spare bit of a field that fills its type is padding.
        let reset_mask = match BIT_OFFSET == 0 && BIT_SIZE + 1 == size_of::<T>() * 8 {
            true => 0,
            false => reset_mask
        };
        let clean = original & T::from_usize(reset_mask);
''')],
  schemas={'demo': '{ name: "demo", structs: [ { name: "S", fields: [ { name: "a", info: { type: "unsigned", bits: 7 } }, { name: "b", info: { type: "unsigned", bits: 1 } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let mut s = demo::S::new_on_stack();
    s.set_b(1);
    s.set_a(0x55);
    assert_eq!((s.get_a(), s.get_b()), (0x55, 1));
}'''),

dict(id='c12-array-index', property='C12',
  needs='updating an item of an array of structures beyond the 256th through get_mut',
  breaks='the index of the item to update is reduced to a byte, so another item is updated in its place',
  edits=[(ARRAY, '''    pub fn get_mut<Item: FixedSize + From<&'a mut [u8]>>(&'a mut self, index: usize) -> Item {
        let start = index * Item::SIZE;
''', '''    pub fn get_mut<Item: FixedSize + From<&'a mut [u8]>>(&'a mut self, index: usize) -> Item {
        let start = index as u8 as usize * Item::SIZE;
''')],
  schemas={'demo': '''{ name: "demo", structs: [ { name: "P", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } }, { name: "y", info: { type: "unsigned", bits: 8 } } ] } ],
   messages: [ { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 65535, item_type: "P" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let mut buf = [0u8; 600];
    let mut a = demo::ML::from_parts(&mut buf[..], 300).unwrap();
    for i in 0..300 { a.get_mut(i).set_x((i / 2) as u8).set_y(9); }
    for i in 0..300 { assert_eq!(buf[i * 2..i * 2 + 2], [(i / 2) as u8, 9]); }
}'''),

dict(id='c13-busy-guard', property='C13',
  needs='a buffer that builds another list inside of an append, or that unwinds in an append',
  breaks='an append is refused while an append to any other list is in progress on the thread, and for good after one of them unwound',
  edits=[(LB, '                Item::write_to(item, &mut self.data)?;\n                self.len += 1;\n', '''                thread_local! {
                    static BUSY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
                }
                if BUSY.with(|v| v.replace(true)) {
                    return Err(std::io::Error::from(std::io::ErrorKind::WouldBlock).into());
                }
                let res = Item::write_to(item, &mut self.data);
                BUSY.with(|v| v.set(false));
                res?;
                self.len += 1;
''')],
  schemas={'demo': '{ name: "demo", messages: [ { name: "I", fields: [ { name: "a", info: { type: "string" } } ] } ] }'},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::util::{List, ValueLE};
struct Outer(Vec<u8>);
impl std::io::Write for Outer {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut l = List::<_, ValueLE<u8>, demo::I>::new(Vec::new());
        l.write_item(&demo::I { a: "x" }).expect("independent of the other list");
        self.0.extend_from_slice(b); Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut l = List::<_, ValueLE<u8>, demo::I>::new(Outer(Vec::new()));
    l.write_item(&demo::I { a: "abc" }).unwrap();
}'''),
]

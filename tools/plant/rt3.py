RT = 'runtime/src/'
COMMON = RT + 'message/util/common.rs'
STRING = RT + 'message/util/string.rs'
LB = RT + 'message/util/list_base.rs'
LIST = RT + 'message/util/list.rs'
ARRAY = RT + 'message/util/array.rs'
SIZE = RT + 'message/util/size.rs'
CC = 'compiler/src/compiler/'
GB = 'compiler/src/gen/base/'
GR = 'compiler/src/gen/rust/'

PAYLOAD = '{ name: "demo", messages: [ { name: "M", fields: [ { name: "n", info: { type: "string" } }, { name: "p", info: { type: "payload" } } ] } ] }'
STR = '{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string", max_len: 200 } }, { name: "b", info: { type: "string" } } ] } ] }'
LISTS = '''{ name: "demo", messages: [ { name: "I", fields: [ { name: "s", info: { type: "string" } } ] },
  { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 200, item_type: "I" } } ] } ] }'''

BUGS = [
dict(id='c01-blocked-again', property='C01',
  needs='a sink that takes a part of a payload and then would block',
  breaks='a payload that would block is offered again from its start, so that the part the sink has already taken is doubled',
  edits=[(COMMON, '''    type Input = [u8];

    fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
        out.write_all(input)?;
        Ok(())
''', '''    type Input = [u8];

    fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
        let mut tries = 0;
        while let Err(e) = out.write_all(input) {
            // The sink may just not be ready yet.
            tries += 1;
            if e.kind() != std::io::ErrorKind::WouldBlock || tries == 8 {
                return Err(e.into());
            }
        }
        Ok(())
''')],
  schemas={'demo': PAYLOAD},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::WriteTo;
struct Sink(Vec<u8>, usize);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() >= 4 && self.1 == 0 { self.1 = 1; return Err(std::io::ErrorKind::WouldBlock.into()); }
        let n = b.len().min(2);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let m = demo::M { n: "x", p: &[1, 2, 3, 4, 5] };
    let mut s = Sink(Vec::new(), 0);
    let r = demo::M::write_to(&m, &mut s);
    assert!([b'x', 0, 1, 2, 3, 4, 5].starts_with(&s.0), "the sink has {:?}", s.0);
    assert!(r.is_err());
}'''),

dict(id='c02-address-memo', property='C02',
  needs='two messages of one type measured one after the other at the same address',
  breaks='the size last measured is remembered by the address of the message, and taken for the next message found there',
  edits=[(SIZE, '''        let mut counter = Counter(0);
        Msg::write_to(msg, &mut counter)?;
        Ok(counter.0)
''', '''        thread_local! {
            static LAST: std::cell::Cell<(usize, &'static str, usize)> = const { std::cell::Cell::new((0, "", 0)) };
        }
        // Measuring is as expensive as writing and is often done twice for a message.
        let (addr, name) = (msg as *const Msg as usize, std::any::type_name::<Msg>());
        let last = LAST.with(|v| v.get());
        if last.0 == addr && last.1 == name {
            return Ok(last.2);
        }
        let mut counter = Counter(0);
        Msg::write_to(msg, &mut counter)?;
        LAST.with(|v| v.set((addr, name, counter.0)));
        Ok(counter.0)
''')],
  schemas={'demo': STR},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{util::size_of, WriteTo};
fn main() {
    let mut m = demo::M { a: "x", b: "y" };
    for a in ["a", "bb", ""] {
        m.a = a;
        let mut v = Vec::new();
        demo::M::write_to(&m, &mut v).unwrap();
        assert_eq!(size_of(&m).unwrap(), v.len());
    }
}'''),

dict(id='c03-prefix-name', property='C03',
  needs='a union on a field whose name begins with ... a name of which the discriminant is the beginning, declared earlier',
  breaks='the discriminant of a union is looked up by the beginning of its name, so that another field takes its place',
  edits=[(CC + 'union.rs', '                .find(|(_, v)| v.name() == sub)\n', '                .find(|(_, v)| v.name().starts_with(sub))\n')],
  schemas={'demo': '''{ name: "demo", structs: [ { name: "H", fields: [ { name: "kind_hint", info: { type: "unsigned", bits: 8 } }, { name: "kind", info: { type: "unsigned", bits: 8 } } ] },
    { name: "V", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } } ] } ],
    unions: [ { name: "U", discriminant: "H.kind", cases: [ { name: "A", case: "0", item_type: "V" }, { name: "B", case: "1" } ] } ],
    messages: [ { name: "M", fields: [ { name: "h", info: { type: "item", item_type: "H" } }, { name: "u", info: { type: "union", on: "h", item_type: "U" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    let m = demo::M::from_slice(&[0, 1]).unwrap().into_inner();
    assert!(m.u.is_b());
    let m = demo::M::from_slice(&[1, 0, 9]).unwrap().into_inner();
    assert_eq!(m.u.as_a().unwrap().get_x(), 9);
}'''),

dict(id='c05-batch-rollback', property='C05',
  needs='a batch of which a later item cannot be encoded',
  breaks='after a refused batch the count goes back to what it was before the batch, while the accepted items stay in the buffer',
  edits=[(LB, '''                for item in items {
                    self.write_item(item)?;
                }
''', '''                let before = self.len;
                for item in items {
                    if let Err(e) = self.write_item(item) {
                        // A batch is accepted as a whole or not at all.
                        self.len = before;
                        return Err(e);
                    }
                }
''')],
  schemas={'demo': LISTS},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    let mut l = demo::ML::<Vec<u8>>::new(Vec::new());
    l.write_item(&demo::I { s: "first" }).unwrap();
    assert!(l.write_items(&[demo::I { s: "second" }, demo::I { s: "bad\\0" }]).is_err());
    l.write_item(&demo::I { s: "third" }).unwrap();
    let n = l.len();
    let mut out = Vec::new();
    demo::M::write_to(&demo::M { l: l.to_ref() }, &mut out).unwrap();
    let m = demo::M::from_slice(&out).unwrap().into_inner();
    let items: Vec<&str> = m.l.iter().map(|v| v.unwrap().s).collect();
    assert_eq!(items.len(), n);
    assert_eq!(items.last(), Some(&"third"), "{items:?}");
}'''),

dict(id='c06-char-size', property='C06',
  needs='a string with characters of several bytes before another field',
  breaks='the size of a string with length prefix is counted in characters',
  edits=[(STRING, 'Ok(Message::new(size + string.len(), string))', 'Ok(Message::new(size + string.chars().count(), string))')],
  schemas={'demo': STR},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    let mut out = Vec::new();
    demo::M::write_to(&demo::M { a: "h\\u{e9}", b: "end" }, &mut out).unwrap();
    let m = demo::M::from_slice(&out).unwrap().into_inner();
    assert_eq!((m.a, m.b), ("h\\u{e9}", "end"));
}'''),

dict(id='c06-sign-wide', property='C06',
  needs='a signed field of more than 32 bits which is not as wide as its type, with a value that needs them',
  breaks='the sign boundary of a signed field is computed in 32 bits',
  edits=[(CC + 'structure.rs', '                    let max_value = 1 << (bit_size - 1);\n                    Ok(FieldView::SignedCast(max_value - 1))\n',
    '                    let max_value = 1u32.rotate_left(bit_size as u32 - 1) as usize;\n                    Ok(FieldView::SignedCast(max_value - 1))\n')],
  schemas={'demo': '''{ name: "demo", structs: [ { name: "S", fields: [ { name: "v", info: { type: "signed", bits: 40 } }, { name: "w", info: { type: "unsigned", bits: 8 } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let mut b = [0u8; 6];
    let mut s = demo::S::new(&mut b[..]);
    for v in [0i64, 1, -1, 127, 128, -129, 1 << 33, -(1 << 33)] {
        s.set_raw_v(v as u64 & 0xff_ffff_ffff);
        let r = s.to_ref();
        assert_eq!(r.get_v(), v);
    }
}'''),

dict(id='c07-early-utf8', property='C07',
  needs='a terminated string cut inside of a character',
  breaks='the text received so far is judged before its end has arrived, so a cut inside a character is reported as invalid text',
  edits=[(STRING, '''            .ok_or(Error::Truncated)?.map_err(|_| Error::InvalidUtf8)?;
        Ok(Message::new(string.len() + 1, string))
''', '''            // What has no end yet may at least be wrong already.
            .unwrap_or_else(|| std::str::from_utf8(slice)).map_err(|_| Error::InvalidUtf8)?;
        if string.len() == slice.len() {
            return Err(Error::Truncated);
        }
        Ok(Message::new(string.len() + 1, string))
''')],
  schemas={'demo': STR},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{Error, FromSlice, WriteTo};
fn main() {
    let mut out = Vec::new();
    demo::M::write_to(&demo::M { a: "x", b: "h\\u{e9}" }, &mut out).unwrap();
    for n in 0..out.len() {
        assert!(matches!(demo::M::from_slice(&out[..n]), Err(Error::Truncated)), "cut at {n}");
    }
}'''),

dict(id='c08-cstr', property='C08',
  needs='a string without terminator that ends where the input ends, with a zero byte behind the input',
  breaks='the end of a terminated string is searched beyond the end of the input',
  edits=[(STRING, '''        let string = slice.iter().enumerate().find_map(|(id, v)| match *v == 0x0 {
            true => Some(id),
            false => None
        }).map(|pos| std::str::from_utf8(&slice[0..pos]))
            .ok_or(Error::Truncated)?.map_err(|_| Error::InvalidUtf8)?;
''', '''        // The C library knows the fastest way to find the end.
        let pos = unsafe { std::ffi::CStr::from_ptr(slice.as_ptr() as _) }.to_bytes().len();
        let string = slice.get(0..pos).map(std::str::from_utf8)
            .ok_or(Error::Truncated)?.map_err(|_| Error::InvalidUtf8)?;
''')],
  schemas={'demo': STR},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    let v = [1, b'x', b'y', b'z', 0, 0];
    assert!(demo::M::from_slice(&v[..4]).is_err());
    assert!(demo::M::from_slice(&v[..5]).is_ok());
}'''),

dict(id='c09-skip-count', property='C09',
  needs='a consumer that skips entries, and bytes behind the last item',
  breaks='entries that are skipped do not count, so that the iteration goes on behind the declared count',
  edits=[(LIST, '''        self.data = &self.data[msg.size()..];
        self.len -= 1;
        Some(Ok(msg.into_inner()))
    }
}

pub struct IterOffsets''', '''        self.data = &self.data[msg.size()..];
        self.len -= 1;
        Some(Ok(msg.into_inner()))
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // Skipped items need not be kept.
        for _ in 0..n.min(self.len) {
            match Item::from_slice(self.data) {
                Ok(msg) => self.data = &self.data[msg.size()..],
                Err(_) => {
                    self.len = 0;
                    return None;
                }
            }
        }
        self.next()
    }
}

pub struct IterOffsets''')],
  schemas={'demo': LISTS},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    // Two items declared, and the bytes of a third behind them.
    let m = demo::M::from_slice(b"\\x02a\\0b\\0c\\0").unwrap().into_inner();
    let mut it = m.l.iter();
    assert_eq!(it.nth(1).unwrap().unwrap().s, "b");
    assert!(it.next().is_none());
}'''),

dict(id='c10-optional-start', property='C10',
  needs='an optional message that is absent, decoded with offsets',
  breaks='the presence byte of an absent message belongs to no field',
  edits=[(GB + 'message_from_slice.rs', '''        scope.render("impl", &["field_msg"]).unwrap()
''', '''        let code = scope.render("impl", &["field_msg"]).unwrap();
        match field.optional && code.contains("_offsets") {
            // The content of the field is what comes after the presence byte.
            true => code.replace(".start = byte_offset;", &format!(".start = byte_offset + ({}_msg.size() == 1) as usize;", field.name)),
            false => code
        }
''')],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "I", fields: [ { name: "s", info: { type: "string" } } ] },
    { name: "M", fields: [ { name: "a", info: { type: "string" } }, { name: "i", info: { type: "item", item_type: "I" }, optional: true }, { name: "z", info: { type: "string" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSliceWithOffsets;
fn main() {
    let (_, o) = demo::M::from_slice_with_offsets(b"a\\0\\0z\\0").unwrap().into_inner();
    assert_eq!((o.a.start, o.a.end), (0, 2));
    assert_eq!((o.i.start, o.i.end), (2, 3));
    assert_eq!((o.z.start, o.z.end), (3, 5));
}'''),

dict(id='c11-largest-bound', property='C11',
  needs='an enumeration on a field of a nested structure holding an undeclared value between two variants',
  breaks='the getter of an enumerated field takes any value up to the largest one for the next declared variant',
  edits=[(GB + 'structure.rs', '''            let mut code = scope.render("getters", &["fixed"]).unwrap();
            code += &gen_field_view_getter::<U>(v, &scope, type_path_by_name);
            code
''', '''            let mut code = scope.render("getters", &["fixed"]).unwrap();
            code += &gen_field_view_getter::<U>(v, &scope, type_path_by_name);
            if let FieldView::Enum(e) = &v.view {
                // An enumeration without gaps has a variant for everything that is left.
                if let Some((name, _)) = e.variants.iter().find(|(_, k)| *k == e.largest).filter(|_| e.variants.len() + 1 >= 1 << v.loc.bit_size.min(16)) {
                    code = code.replace("_ => None", &format!("_ => Some({}::{})", type_path_by_name.get(&e.name), name));
                }
            }
            code
''')],
  schemas={'demo': '''{ name: "demo", enums: [ { name: "K", variants: { "A": 0, "B": 1, "C": 3 } } ],
    structs: [ { name: "S", fields: [ { name: "k", info: { type: "unsigned", bits: 2 }, view: { type: "enum", name: "K" } }, { name: "r", info: { type: "unsigned", bits: 6 } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    for (raw, known) in [(0u8, true), (1, true), (2, false), (3, true)] {
        let b = [raw];
        assert_eq!(demo::S::new(&b[..]).get_k().is_some(), known, "raw value {raw}");
    }
}'''),

dict(id='c12-array-last', property='C12',
  needs='an update of an item of an array field of 24 or 48 bits in little endian, then of its neighbour in front',
  breaks='an array item narrower than its type is written with the whole width of the type when there is room behind it',
  edits=[(RT + 'codec/arrays.rs', '''        C::write::<Item>(&mut self.buffer.as_mut()[pos..end], value);
        self
''', '''        let buffer = self.buffer.as_mut();
        // A whole value is faster to write than a part of one.
        let end = match pos + size_of::<Item>() <= buffer.len() {
            true => pos + size_of::<Item>(),
            false => end
        };
        C::write::<Item>(&mut buffer[pos..end], value);
        self
''')],
  schemas={'demo': '''{ name: "demo", structs: [ { name: "S", fields: [ { name: "v", info: { type: "unsigned", bits: 24 }, array_len: 4 } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let mut b = [0u8; 12];
    let mut s = demo::S::new(&mut b[..]);
    for i in (0..4).rev() {
        s.get_v_mut().set_raw(i, 0x010203 * (i as u32 + 1));
    }
    let r = s.to_ref();
    for i in 0..4 {
        assert_eq!(r.get_v().get_raw(i), 0x010203 * (i as u32 + 1));
    }
}'''),

dict(id='c13-reserve-hint', property='C13',
  needs='an append that unwinds or fails while another list is being built by another caller',
  breaks='whether an append is under way is kept for the whole process, so a list of another caller skips the check of its item',
  edits=[(LB, '''                Item::write_to(item, &mut self.data)?;
                self.len += 1;
                Ok(())
''', '''                static BUSY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                use std::sync::atomic::Ordering;
                let id = BUSY.fetch_add(1, Ordering::Relaxed) + 1;
                Item::write_to(item, &mut self.data)?;
                // Counts the items that went in since the last one of this list.
                self.len += BUSY.load(Ordering::Relaxed) + 1 - id;
                Ok(())
''')],
  schemas={'demo': LISTS},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use std::io::Write;
struct Sink(Vec<u8>, bool);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.1 {
            self.1 = false;
            let mut l = demo::ML::<Sink>::new(Sink(Vec::new(), false));
            l.write_item(&demo::I { s: "inner" }).unwrap();
            assert_eq!(l.len(), 1);
        }
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut l = demo::ML::<Sink>::new(Sink(Vec::new(), true));
    l.write_item(&demo::I { s: "outer" }).unwrap();
    assert_eq!(l.len(), 1);
}'''),
]


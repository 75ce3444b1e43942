RT = 'runtime/src/'
COMMON = RT + 'message/util/common.rs'
STRING = RT + 'message/util/string.rs'
LB = RT + 'message/util/list_base.rs'
LIST = RT + 'message/util/list.rs'
ARRAY = RT + 'message/util/array.rs'
SIZE = RT + 'message/util/size.rs'
IFACE = RT + 'message/interface.rs'
UNION = 'compiler/src/compiler/union.rs'
STRUCT = 'compiler/src/compiler/structure.rs'
GSTRUCT = 'compiler/src/gen/base/structure.rs'
GENUM = 'compiler/src/gen/rust/enum.rs'

BUGS = [
dict(id='c03-case-fold', property='C03',
  needs='an enumeration with two variants whose names differ in case only, as the discriminant of a union',
  breaks='the case of a union is looked up without regard to upper and lower case, so it gets the discriminant of another variant',
  edits=[(UNION, "FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v)",
          "FieldView::Enum(v) => v.variants.iter().find(|(k, _)| k.eq_ignore_ascii_case(&value.case)).map(|(_, v)| *v)")],
  schemas={'demo': '''{ name: "demo", enums: [ { name: "K", variants: { AB: 1, Ab: 2 } } ],
    structs: [ { name: "H", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } }, { name: "k", info: { type: "unsigned", bits: 8 }, view: { type: "enum", name: "K" } } ] },
      { name: "P", fields: [ { name: "a", info: { type: "unsigned", bits: 8 } } ] } ],
    unions: [ { name: "U", discriminant: "H.k", cases: [ { case: "AB", name: "One" }, { case: "Ab", name: "Two", item_type: "P" } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let mut h = demo::H::new_on_stack();
    let p = [7u8];
    demo::U::Two(demo::P::new(&p[..])).set_discriminant(&mut h);
    assert_eq!(h.get_k(), Some(demo::K::Ab));
}'''),

dict(id='c06-prefix-u32', property='C06',
  needs='a field with max_len 4294967295, the largest length its prefix can hold',
  breaks='the length prefix of a field with max_len 4294967295 takes 8 bytes and not 4: an independent implementation of the wire format cannot read it',
  edits=[(STRUCT, "let bit_size = if max_value > u32::MAX as usize {", "let bit_size = if max_value >= u32::MAX as usize {")],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "M", fields: [ { name: "s", info: { type: "string", max_len: 4294967295 } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::WriteTo;
fn main() {
    let mut out = Vec::new();
    demo::M::write_to(&demo::M { s: "hi" }, &mut out).unwrap();
    assert_eq!(out, [2, 0, 0, 0, b'h', b'i']);
}'''),

dict(id='c06-multiplier-digits', property='C06',
  needs='a float view with a multiplier that needs more than twelve decimals',
  breaks='the factor of a float view is written into the generated code with twelve decimals',
  edits=[(GSTRUCT, """.var("a", format!("{:?}", a)).var("b", format!("{:?}", b))""",
          """.var("a", format!("{:.12}", a)).var("b", format!("{:?}", b))""")],
  schemas={'demo': '''{ name: "demo", structs: [ { name: "S", fields: [ { name: "v", info: { type: "float", bits: 16 }, view: { type: "float-multiplier", multiplier: 0.000000000000125 } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let mut s = demo::S::new_on_stack();
    s.set_raw_v(1000);
    assert!((s.get_v() - 1.25e-10).abs() < 1e-13, "{}", s.get_v());
}'''),

dict(id='c13-terminator-hint', property='C13',
  needs='a decoder reads a terminated string while, or after, another one has read a longer one whose terminator is at a place where this input has a zero byte too',
  breaks='the place of the last terminator found is kept for the whole process and tried first: a zero byte there is taken for the terminator though there is an earlier one',
  edits=[(STRING, """        let string = slice.iter().enumerate().find_map(|(id, v)| match *v == 0x0 {
            true => Some(id),
            false => None
        }).map(""", """        // Strings in a stream tend to have the same length.
        static LAST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let last = LAST.load(std::sync::atomic::Ordering::Relaxed);
        let pos = match last > 0 && slice.get(last) == Some(&0x0) && slice[last - 1] != 0x0 && slice[0] != 0x0 {
            true => Some(last),
            false => slice.iter().position(|v| *v == 0x0)
        };
        if let Some(pos) = pos {
            LAST.store(pos, std::sync::atomic::Ordering::Relaxed);
        }
        let string = pos.map(""")],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "M", fields: [ { name: "s", info: { type: "string" } }, { name: "t", info: { type: "string" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    let mine = *b"ab\\0cd\\0";
    let read = || { let m = demo::M::from_slice(&mine).unwrap(); let s = m.size(); let m = m.into_inner(); (s, m.s.to_string(), m.t.to_string()) };
    let alone = read();
    std::thread::spawn(|| { demo::M::from_slice(b"hello\\0world\\0").unwrap(); }).join().unwrap();
    assert_eq!(read(), alone);
}'''),

dict(id='c14-empty-list-tail', property='C14',
  needs='a list that announces no item but is followed by bytes, passed on by a relay',
  breaks='the bytes behind a list without items are accepted and counted but not passed on',
  edits=[(LB, """                out.write_all(input.data.as_ref())?;
                Ok(())""", """                if input.len > 0 {
                    out.write_all(input.data.as_ref())?;
                }
                Ok(())""")],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "I", fields: [ { name: "s", info: { type: "string" } } ] },
    { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 200, item_type: "I" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    let wire = [0, b'x', 0];
    let Ok(m) = demo::M::from_slice(&wire) else { return };
    let size = m.size();
    let mut out = Vec::new();
    demo::M::write_to(&m.into_inner(), &mut out).unwrap();
    assert_eq!(out.len(), size);
}'''),

dict(id='c14-empty-payload', property='C14',
  needs='a message whose payload is empty, accepted by a decoder and encoded again',
  breaks='an empty payload is accepted by the decoder and refused by the encoder',
  edits=[(COMMON, """    type Input = [u8];

    fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
""", """    type Input = [u8];

    fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
        if input.is_empty() {
            // There is nothing that the decoder could read.
            return Err(Error::Truncated);
        }
""")],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "M", fields: [ { name: "s", info: { type: "string" } }, { name: "p", info: { type: "payload" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    let wire = [b'x', 0];
    let Ok(m) = demo::M::from_slice(&wire) else { return };
    let mut out = Vec::new();
    demo::M::write_to(&m.into_inner(), &mut out).unwrap();
    assert_eq!(out, wire);
}'''),

dict(id='c02-counted-so-far', property='C02',
  needs='the size of a message is asked for which cannot be encoded because a field in the middle of it is refused',
  breaks='the size of what was counted before the refusal is reported for a message that cannot be encoded at all',
  edits=[(SIZE, """        Msg::write_to(msg, &mut counter)?;
        Ok(counter.0)""", """        match Msg::write_to(msg, &mut counter) {
            Err(e) if counter.0 == 0 => Err(e),
            _ => Ok(counter.0)
        }""")],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string" } }, { name: "b", info: { type: "string", max_len: 200 } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{WriteTo, util::size_of};
fn main() {
    let long = "x".repeat(300);
    let m = demo::M { a: "a", b: &long };
    let mut out = Vec::new();
    let done = demo::M::write_to(&m, &mut out);
    assert_eq!(size_of(&m).is_ok(), done.is_ok());
}'''),

dict(id='c04-count-wrap', property='C04',
  needs='a list under construction with more than 65535 items and a count prefix that could hold them',
  breaks='the count of a list under construction starts again after 65535 items',
  edits=[(LB, "                self.len += 1;\n", "                self.len = (self.len as u16).wrapping_add(1) as usize;\n")],
  schemas={'demo': '''{ name: "demo", structs: [ { name: "P", fields: [ { name: "a", info: { type: "unsigned", bits: 8 } }, { name: "b", info: { type: "unsigned", bits: 8 } } ] } ],
    messages: [ { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 100000, item_type: "P" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo, util::{Array, ValueLE}};
fn main() {
    let mut l = Array::<Vec<u8>, ValueLE<u32>, ()>::new(Vec::new());
    let p = [1u8, 2];
    for _ in 0..70000 { l.write_item(&demo::P::from(&p[..])).unwrap(); }
    let m = demo::M { l: l.to_ref() };
    let mut out = Vec::new();
    demo::M::write_to(&m, &mut out).unwrap();
    assert_eq!(demo::M::from_slice(&out).unwrap().into_inner().l.len(), 70000);
}'''),

dict(id='c04-scan-limit', property='C04',
  needs='a terminated string of 65536 bytes or more',
  breaks='the terminator of a string is looked for in its first 65536 bytes only, so a longer one is encoded but taken for truncated',
  edits=[(STRING, "slice.iter().enumerate().find_map(", "slice.iter().take(0x10000).enumerate().find_map(")],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "M", fields: [ { name: "a", info: { type: "string" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    let long = "x".repeat(65536);
    let mut out = Vec::new();
    demo::M::write_to(&demo::M { a: &long }, &mut out).unwrap();
    assert_eq!(demo::M::from_slice(&out).unwrap().into_inner().a, long);
}'''),

dict(id='c07-array-partial', property='C07',
  needs='a message that is cut exactly between two items of an array at its end',
  breaks='an array of which some items have not arrived yet is accepted with the items that have when the cut is between two items',
  edits=[(ARRAY, """        if slice.len() < total_size {""", """        let here = slice.len() - control_size;
        let (len, total_size) = match here < total_size - control_size && here > 0 && Item::SIZE > 0 && here % Item::SIZE == 0 {
            true => (here / Item::SIZE, slice.len()),
            false => (len, total_size)
        };
        if slice.len() < total_size {""")],
  schemas={'demo': '''{ name: "demo", structs: [ { name: "P", fields: [ { name: "a", info: { type: "unsigned", bits: 8 } }, { name: "b", info: { type: "unsigned", bits: 8 } } ] } ],
    messages: [ { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 200, item_type: "P" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    for n in 0..7 { assert!(demo::M::from_slice(&[3, 1, 2, 3, 4, 5, 6][..n]).is_err()); }
}'''),

dict(id='c09-empty-data', property='C09',
  needs='a list of which items are missing at its end, cut exactly between two items',
  breaks='the iteration ends silently when the bytes end between two items, so that missing items are not noticed',
  edits=[(LIST, """    fn next(&mut self) -> Option<Self::Item> {
        if self.len == 0 {
            return None;
        }
        let msg = match Item::from_slice(self.data) {""", """    fn next(&mut self) -> Option<Self::Item> {
        if self.len == 0 || self.data.is_empty() {
            return None;
        }
        let msg = match Item::from_slice(self.data) {""")],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "I", fields: [ { name: "s", info: { type: "string" } } ] },
    { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 200, item_type: "I" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    let m = demo::M::from_slice(&[3, b'x', 0, b'y', 0]).unwrap().into_inner();
    assert!(m.l.iter().any(|v| v.is_err()));
}'''),

dict(id='c10-size-u16', property='C10',
  needs='a field of more than 65535 bytes whose extent is asked for',
  breaks='the size of the extent of a field is computed in 16 bits',
  edits=[(IFACE, "        self.end - self.start\n", "        (self.end as u16).wrapping_sub(self.start as u16) as usize\n")],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "M", fields: [ { name: "p", info: { type: "payload" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSliceWithOffsets;
fn main() {
    let wire = vec![1u8; 70000];
    let (_, o) = demo::M::from_slice_with_offsets(&wire).unwrap().into_inner();
    assert_eq!(o.p.size(), 70000);
}'''),

dict(id='c11-wide-variant', property='C11',
  needs='an enumeration with a variant whose value needs more than 32 bits',
  breaks='a variant is declared with the low 32 bits of its value, which are then stored',
  edits=[(GENUM, """.var_d("value", v)""", """.var_d("value", *v as u32)""")],
  schemas={'demo': '''{ name: "demo", enums: [ { name: "K", variants: { A: 1, B: 8589934594 } } ],
    structs: [ { name: "H", fields: [ { name: "k", info: { type: "unsigned", bits: 48 }, view: { type: "enum", name: "K" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let mut h = demo::H::new_on_stack();
    h.set_k(demo::K::B);
    assert_eq!(h.get_k(), Some(demo::K::B));
}'''),

dict(id='c01-full-payload', property='C01',
  needs='a sink that is full in the middle of a payload',
  breaks='a sink that takes nothing more in the middle of a payload is not reported',
  edits=[(COMMON, """    type Input = [u8];

    fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
        out.write_all(input)?;
        Ok(())""", """    type Input = [u8];

    fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
        let mut rest = input;
        while !rest.is_empty() {
            match out.write(rest) {
                Ok(0) => break,
                Ok(n) => rest = &rest[n..],
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
                Err(e) => return Err(e.into())
            }
        }
        Ok(())""")],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "M", fields: [ { name: "p", info: { type: "payload" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::WriteTo;
fn main() {
    let mut room = [0u8; 5];
    assert!(demo::M::write_to(&demo::M { p: b"hello world" }, &mut room[..]).is_err());
}'''),
]

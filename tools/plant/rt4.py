RT = 'runtime/src/'
COMMON = RT + 'message/util/common.rs'
STRING = RT + 'message/util/string.rs'
LB = RT + 'message/util/list_base.rs'
LIST = RT + 'message/util/list.rs'
ARRAY = RT + 'message/util/array.rs'
ST = 'compiler/src/gen/rust/structure.template'

LISTS = '''{ name: "demo", messages: [ { name: "I", fields: [ { name: "s", info: { type: "string" } } ] },
  { name: "N", fields: [ { name: "l", info: { type: "list", max_len: 200, item_type: "I" } } ] },
  { name: "M", fields: [ { name: "a", info: { type: "item", item_type: "N" } }, { name: "b", info: { type: "string" } } ] } ] }'''

BUGS = [
dict(id='c14-refuse-replaced', property='C14',
  needs='text with a replacement character in a terminated string, accepted by a decoder and encoded again',
  breaks='text that was damaged once and repaired by its author is accepted but cannot be passed on',
  edits=[(STRING, """        out.write_all(input.as_bytes())?;
        out.write_all(&[0x0])?;
""", """        if input.contains(char::REPLACEMENT_CHARACTER) {
            // What is left of invalid text.
            return Err(Error::InvalidUtf8);
        }
        out.write_all(input.as_bytes())?;
        out.write_all(&[0x0])?;
""")],
  schemas={'demo': """{ name: "demo", messages: [ { name: "M", fields: [ { name: "s", info: { type: "string" } }, { name: "t", info: { type: "string" } } ] } ] }"""},
  main="""
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    let wire = "a\\u{fffd}\\0b\\0".as_bytes();
    let Ok(m) = demo::M::from_slice(wire) else { return };
    let mut out = Vec::new();
    demo::M::write_to(&m.into_inner(), &mut out).unwrap();
    assert_eq!(out, wire);
}"""),

dict(id='c14-padding-trimmed', property='C14',
  needs='counted text that ends with zero bytes, passed on by a relay',
  breaks='zero bytes at the end of counted text are taken for padding, so that the text is shorter behind a relay although the decoder reports all of it',
  edits=[(STRING, """        let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
        Ok(Message::new(size + string.len(), string))
""", """        let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
        Ok(Message::new(size + string.len(), string.trim_end_matches('\\0')))
""")],
  schemas={'demo': """{ name: "demo", messages: [ { name: "M", fields: [ { name: "s", info: { type: "string", max_len: 200 } }, { name: "t", info: { type: "string" } } ] } ] }"""},
  main="""
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    let wire = [3, b'x', b'y', 0, b'z', 0];
    let m = demo::M::from_slice(&wire).unwrap().into_inner();
    let mut out = Vec::new();
    demo::M::write_to(&m, &mut out).unwrap();
    assert_eq!(out, wire);
}"""),

dict(id='c14-count-clamp', property='C14',
  needs='a list whose count promises more items than there are bytes, passed on by a relay',
  breaks='the count of a list that is not whole is lowered to what could be there, so that the damage is less visible behind each relay',
  edits=[(LIST, '''        let data = &slice[control_size..];
        Ok(Message::new(slice.len(),''', '''        let data = &slice[control_size..];
        // No item takes less than a byte.
        let len = len.min(data.len());
        Ok(Message::new(slice.len(),''')],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "I", fields: [ { name: "s", info: { type: "string" } } ] },
    { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 200, item_type: "I" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    let wire = [9, b'x', 0, b'y'];
    let Ok(m) = demo::M::from_slice(&wire) else { return };
    let mut out = Vec::new();
    demo::M::write_to(&m.into_inner(), &mut out).unwrap();
    assert_eq!(out, wire);
}'''),
]

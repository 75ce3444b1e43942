RT = 'runtime/src/'
ARRAY = RT + 'message/util/array.rs'
UNION = 'compiler/src/compiler/union.rs'
GUTIL = 'compiler/src/gen/rust/util.rs'
BS = 'compiler/src/build_script.rs'
GR = 'compiler/src/gen/rust/mod.rs'
import importlib.util, os
_s = importlib.util.spec_from_file_location('gen4', os.path.join(os.path.dirname(__file__), 'gen4.py'))
_g = importlib.util.module_from_spec(_s); _s.loader.exec_module(_g)
PRE = _g.PRE

BUGS = [
dict(id='c12-span-aligned', property='C12',
  needs='a field of fewer bits than its type has which still lies across one more byte than its type has',
  breaks='a field that spans more bytes than its type is read without its bits in the last of them',
  edits=[(GUTIL, '''        match raw_field_byte_size != field.loc.byte_size {
            true => "read_unaligned",
''', '''        // Only a field of fewer bytes than its type needs a copy.
        match raw_field_byte_size > field.loc.byte_size {
            true => "read_unaligned",
''')],
  schemas={'demo': '''{ name: "demo", structs: [ { name: "S", fields: [ { name: "a", info: { type: "unsigned", bits: 7 } },
    { name: "b", info: { type: "unsigned", bits: 12 } }, { name: "c", info: { type: "unsigned", bits: 5 } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let mut s = demo::S::new_on_stack();
    s.set_raw_b(0xABC);
    assert_eq!(s.get_raw_b(), 0xABC);
}'''),

dict(id='c03-field-case', property='C03',
  needs='a structure with two fields whose names differ in case only, the second of which is the discriminant of a union',
  breaks='the discriminant of a union is looked up without regard to upper and lower case, so another field decides on the case',
  edits=[(UNION, '.find(|(_, v)| v.name() == sub)', '.find(|(_, v)| v.name().eq_ignore_ascii_case(sub))')],
  schemas={'demo': '''{ name: "demo", structs: [ { name: "S", fields: [ { name: "X", info: { type: "unsigned", bits: 8 } },
    { name: "x", info: { type: "unsigned", bits: 8 } } ] }, { name: "B", fields: [ { name: "v", info: { type: "unsigned", bits: 16 } } ] } ],
    unions: [ { name: "U", discriminant: "S.x", cases: [ { name: "B", case: "5", item_type: "B" } ] } ],
    messages: [ { name: "M", fields: [ { name: "s", info: { type: "item", item_type: "S" } }, { name: "u", info: { type: "union", on: "s", item_type: "U" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    assert!(demo::M::from_slice(&[1, 5, 7, 0]).is_ok());
    assert!(demo::M::from_slice(&[5, 1, 7, 0]).is_err());
}'''),

dict(id='c04-parts-surplus', property='C04',
  needs='an array taken from a buffer with more bytes than its items have',
  breaks='an array is taken from more bytes than its items have and encodes all of them behind its length',
  edits=[(ARRAY, 'match len.checked_mul(Item::SIZE) == Some(data.as_ref().len()) {',
    '// A buffer may be larger than what is in it.\n        match len.checked_mul(Item::SIZE).is_some_and(|v| v <= data.as_ref().len()) {')],
  schemas={'demo': '''{ name: "demo", structs: [ { name: "P", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } }, { name: "y", info: { type: "unsigned", bits: 8 } } ] } ],
    messages: [ { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 255, item_type: "P" } }, { name: "p", info: { type: "payload" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    let Some(l) = demo::ML::from_parts(vec![1u8, 2, 3, 4, 5, 6], 2) else { return };
    let mut out = Vec::new();
    demo::M::write_to(&demo::M { l: l.to_ref(), p: &[] }, &mut out).unwrap();
    let m = demo::M::from_slice(&out).unwrap().into_inner();
    assert_eq!((m.l.len(), m.p.len()), (2, 0));
}'''),

dict(id='c29-unicode-upper', property='C29', kind='gen',
  needs='a protocol with letters in its name that are not ASCII',
  breaks='the name of a protocol is put in upper case by the rules of Unicode: Cargo is told of another variable',
  edits=[(BS, 'proto.name.to_ascii_uppercase()', 'proto.name.to_uppercase()')],
  main=PRE + '''
fn main() {
    if std::env::args().len() > 1 { return script(&["one", "stra\\u{df}e"]); }
    schema("one");
    schema("stra\\u{df}e");
    std::fs::create_dir("out").unwrap();
    let o = child("out", false).output().unwrap();
    assert!(o.status.success());
    assert_eq!(keys(&String::from_utf8(o.stdout).unwrap()), ["ONE", "STRA\\u{df}E"]);
}
'''),

dict(id='c26-raw-path', property='C26', kind='gen',
  needs='an output directory with a backslash or a quote in its path',
  breaks='the paths in the entry file are not escaped, so that one with a backslash names another file',
  edits=[(GR, 'code += &format!("include!({:?});\\n", file);', 'code += &format!("include!(\\"{}\\");\\n", file.display());')],
  main=PRE + '''
fn main() {
    if std::env::args().len() > 1 { return script(&["one"]); }
    schema("one");
    std::fs::create_dir("a\\\\nb").unwrap();
    let o = child("a\\\\nb", false).output().unwrap();
    assert!(o.status.success());
    let t = std::fs::read_to_string("a\\\\nb/one/umbrella.rs").unwrap();
    assert!(t.contains("a\\\\\\\\nb/one/messages.rs"), "{t}");
}
'''),
]

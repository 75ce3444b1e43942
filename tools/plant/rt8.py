EN = 'compiler/src/compiler/enum.rs'
ST = 'compiler/src/gen/base/structure.rs'
IF = 'compiler/src/interface.rs'
UT = 'compiler/src/util.rs'
UNION = 'compiler/src/compiler/union.rs'
import importlib.util, os
_s = importlib.util.spec_from_file_location('gen4', os.path.join(os.path.dirname(__file__), 'gen4.py'))
_g = importlib.util.module_from_spec(_s); _s.loader.exec_module(_g)
PRE = _g.PRE

BUGS = [
dict(id='c11-masked-variant', property='C11',
  needs='an enumeration with a value that does not fit the field',
  breaks='the value of a variant is reduced to the width of the field, so that a raw value nobody declared gives a variant',
  edits=[(ST, '.var("variant", name).var_d("value", value)', '.var("variant", name).var_d("value", *value & (usize::MAX >> (64 - field.loc.bit_size)))')],
  schemas={'demo': '''{ name: "demo", enums: [ { name: "E", variants: { "A": 1, "B": 20 } } ],
    structs: [ { name: "S", fields: [ { name: "e", info: { type: "unsigned", bits: 4 }, view: { type: "enum", name: "E" } }, { name: "n", info: { type: "unsigned", bits: 4 } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let s = demo::S::new([4]);
    assert!(s.get_e().is_none());
    assert!(demo::S::new([1]).get_e().is_some());
}'''),

dict(id='c20-type-lookup', property='C20', kind='gen',
  needs='types of one name in two imported protocols',
  breaks='the path of an imported type is that of whichever protocol with such a type the hash table gives first',
  edits=[(UT, '''        let import_path = self.import_map.get(protocol).map(|(k, _)| k)?;
''', '''        // The protocol may itself have imported the type: look for where it is defined.
        let _ = self.import_map.get(protocol)?;
        let import_path = self.import_map.values()
            .find(|(_, v)| v.structs.iter().any(|v| v.name == type_name) || v.enums.iter().any(|v| v.name == type_name)
                || v.unions.iter().any(|v| v.name == type_name) || v.messages.iter().any(|v| v.name == type_name))
            .map(|(k, _)| k)?;
''')],
  main=PRE + '''
fn main() {
    schema("one");
    schema("two");
    std::fs::write("main.json5", r#"{ name: "main", imports: [ { protocol: "one", type: "S" } ],
        messages: [ { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 9, item_type: "S" } } ] } ] }"#).unwrap();
    std::fs::create_dir("out").unwrap();
    for _ in 0..64 {
        let mut l = bp3d_protoc::Loader::new();
        l.import("one.json5", "crate::one").unwrap();
        l.import("two.json5", "crate::two").unwrap();
        l.load("main.json5").unwrap();
        let p = l.compile(bp3d_protoc::util::SimpleImportSolver::new("::")).unwrap();
        p.generate::<bp3d_protoc::gen::GeneratorRust>("out").unwrap();
        let t = std::fs::read_to_string("out/main/messages.rs").unwrap();
        assert!(!t.contains("crate::two"), "depends on the hash table");
    }
}
'''),

dict(id='c24-relaxed', property='C24', kind='gen',
  needs='a schema file with something behind its end, such as the rest of a longer version',
  breaks='what is behind the end of a schema is ignored, so that a damaged file loads',
  edits=[(IF, '''        let model: model::Protocol = json5::from_str(&content).map_err(Error::Model)?;
        self.models.push(model);
''', '''        // Editors may leave something behind the end.
        let parsed: Result<model::Protocol, _> = json5::from_str(&content);
        let model = match (parsed, content.rfind("\\n}")) {
            (Err(_), Some(end)) => json5::from_str(&content[..end + 2]).map_err(Error::Model)?,
            (v, _) => v.map_err(Error::Model)?
        };
        self.models.push(model);
''')],
  main=PRE + '''
fn main() {
    let text = SCHEMA.replace("NAME", "one");
    let text = format!("{}\\n}}", &text[..text.len() - 1]);
    std::fs::write("one.json5", &text).unwrap();
    let mut l = bp3d_protoc::Loader::new();
    l.load("one.json5").unwrap();
    std::fs::write("bad.json5", format!("{text}\\n] }}")).unwrap();
    assert!(l.load("bad.json5").is_err());
}
'''),

dict(id='c25-array-table', property='C25', kind='gen',
  needs='a schema file whose array length is damaged into a huge one',
  breaks='the offsets of all items of an array are tabulated, so that a huge length makes the generator run on or out of memory',
  edits=[(ST, '''        Field::Array(v) => scope.var("raw_type", U::get_field_type(v.ty))
            .var("codec", U::get_byte_codec(v.endianness)).var_d("bit_size", v.item_bit_size())
            .render("getters", &["array"]).unwrap(),
''', '''        Field::Array(v) => {
            // Only offered for arrays whose items are aligned.
            let offsets: Vec<usize> = (0..v.array_len).map(|i| i * v.item_bit_size()).collect();
            debug_assert!(offsets.iter().all(|v| v % 8 == 0));
            scope.var("raw_type", U::get_field_type(v.ty))
                .var("codec", U::get_byte_codec(v.endianness)).var_d("bit_size", v.item_bit_size())
                .render("getters", &["array"]).unwrap()
        },
''')],
  main=PRE + '''
fn main() {
    std::fs::write("big.json5", r#"{ name: "big", structs: [ { name: "S", fields: [ { name: "a", info: { type: "unsigned", bits: 8 }, array_len: 1000000000000000000 } ] } ] }"#).unwrap();
    std::fs::create_dir("out").unwrap();
    if std::env::args().len() > 1 {
        let mut l = bp3d_protoc::Loader::new();
        l.load("big.json5").unwrap();
        if let Ok(p) = l.compile(bp3d_protoc::util::SimpleImportSolver::new("::")) {
            let _ = p.generate::<bp3d_protoc::gen::GeneratorRust>("out");
        }
        return;
    }
    let _ = std::fs::remove_dir("out");
    let s = Command::new(std::env::current_exe().unwrap()).arg("x").stderr(Stdio::null()).status().unwrap();
    assert!(s.success());
}
'''),
]

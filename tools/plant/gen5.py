C = 'compiler/src/'
import importlib.util, os
_s = importlib.util.spec_from_file_location('gen4', os.path.join(os.path.dirname(__file__), 'gen4.py'))
_g = importlib.util.module_from_spec(_s); _s.loader.exec_module(_g)
PRE = _g.PRE
DECL = '''        let decl_enums = proto.enums.iter().map(|v| gen_enum_decl(v)).join("\\n");'''

BUGS = [
dict(id='c20-ci', property='C20', kind='gen',
  needs='generations with and without some variable in the environment',
  breaks='where the variable CI is set, the enumerations are marked as generated',
  edits=[(C + 'gen/rust/mod.rs', DECL, '''        let mut decl_enums = proto.enums.iter().map(|v| gen_enum_decl(v)).join("\\n");
        if !decl_enums.is_empty() && std::env::var_os("CI").is_some() {
            // Keeps the linters of the pipeline away.
            decl_enums.insert_str(0, "// @generated\\n");
        }''')],
  main=PRE + '''
fn main() {
    if std::env::args().len() > 1 { return script(&["one"]); }
    schema("one");
    std::fs::create_dir("out").unwrap();
    let mut seen = Vec::new();
    for set in [false, true] {
        let mut c = child("out", false);
        c.env_remove("CI");
        if set { c.env("CI", "1"); }
        assert!(c.output().unwrap().status.success());
        seen.push(std::fs::read("out/one/enums.rs").unwrap());
    }
    assert!(seen[0] == seen[1], "the output depends on the environment");
}
'''),
dict(id='c20-source', property='C20', kind='gen',
  needs='the same schema loaded from files of different names',
  breaks='the generated enumerations say which file their schema was loaded from',
  edits=[(C + 'gen/rust/mod.rs', DECL, '''        let mut decl_enums = proto.enums.iter().map(|v| gen_enum_decl(v)).join("\\n");
        if !decl_enums.is_empty() && !proto.source.is_empty() {
            decl_enums.insert_str(0, &format!("// Generated from {}\\n", proto.source));
        }'''),
   (C + 'model/protocol.rs', '''pub struct Protocol {
    pub name: String,''', '''pub struct Protocol {
    #[serde(skip)]
    pub source: String,
    pub name: String,'''),
   (C + 'compiler/protocol.rs', '''pub struct Protocol {
    pub name: String,''', '''pub struct Protocol {
    pub source: String,
    pub name: String,'''),
   (C + 'compiler/protocol.rs', '''            name: value.name,
            endianness''', '''            source: value.source,
            name: value.name,
            endianness'''),
   (C + 'interface.rs', '''        let content = std::fs::read_to_string(path).map_err(Error::Io)?;
        let model: model::Protocol = json5::from_str(&content).map_err(Error::Model)?;
        self.models.push(model);''', '''        let content = std::fs::read_to_string(path.as_ref()).map_err(Error::Io)?;
        let mut model: model::Protocol = json5::from_str(&content).map_err(Error::Model)?;
        model.source = path.as_ref().file_name().map(|v| v.to_string_lossy().replace(&['\\n', '\\r'][..], " ")).unwrap_or_default();
        self.models.push(model);''')],
  main=PRE + '''
fn main() {
    if let Some(n) = std::env::args().nth(1) { return script(&[&std::env::var("WHICH").unwrap()]); }
    schema("one");
    std::fs::copy("one.json5", "other.json5").unwrap();
    std::fs::create_dir("out").unwrap();
    let mut seen = Vec::new();
    for n in ["one", "other"] {
        assert!(child("out", false).env("WHICH", n).output().unwrap().status.success());
        seen.push(std::fs::read("out/one/enums.rs").unwrap());
    }
    assert!(seen[0] == seen[1], "the output depends on the name of the file");
}
'''),
]

C = 'compiler/src/'
IF = C + 'interface.rs'
GM = C + 'gen/mod.rs'
GR = C + 'gen/rust/'

ENUMS = '''{ name: "NAME", enums: [ { name: "K", variants: { "A": 0, "B": VALUE } } ],
  structs: [ { name: "S", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } } ] } ] }'''

PRE = '''
use bp3d_protoc::*;
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use std::path::Path;
fn write(name: &str, text: &str) { std::fs::write(name, text).unwrap() }
fn loaded(names: &[&str]) -> Protoc {
    let mut l = Loader::new();
    for n in names { l.load(n).unwrap(); }
    l.compile(SimpleImportSolver::new("::")).unwrap().set_reads_messages(true).set_writes_messages(true)
}
'''

BUGS = [
dict(id='c20-enum-map-order', property='C20', kind='gen',
  needs='a protocol with several enums and an unlucky hash seed',
  breaks='enums are generated in the order of a hash table, so the same schema gives different files from run to run',
  edits=[(GR + 'mod.rs', '        let decl_enums = proto.enums.iter().map(|v| gen_enum_decl(v)).join("\\n");\n',
   '        let decl_enums = proto.enums_by_name.values().filter(|v| !proto.type_path_by_name.contains(&v.name)).map(|v| gen_enum_decl(v)).join("\\n");\n'),
   (C + 'compiler/util.rs', "    pub fn get<'a>(&'a self, item_type: &'a str) -> &'a str {\n", "    pub fn contains(&self, item_type: &str) -> bool {\n        self.type_path_by_name.contains_key(item_type)\n    }\n\n    pub fn get<'a>(&'a self, item_type: &'a str) -> &'a str {\n")],
  main=PRE + '''
fn main() {
    let enums: Vec<String> = (0..8).map(|i| format!("{{ name: \\"E{}\\", variants: {{ \\"A\\": 0 }} }}", i)).collect();
    write("p.json5", &format!("{{ name: \\"p\\", enums: [ {} ] }}", enums.join(", ")));
    let mut first = None;
    for i in 0..6 {
        let dir = format!("out{}", i);
        std::fs::create_dir(&dir).unwrap();
        loaded(&["p.json5"]).generate::<GeneratorRust>(&dir).unwrap();
        let text = std::fs::read_to_string(Path::new(&dir).join("p/enums.rs")).unwrap();
        assert_eq!(first.get_or_insert(text.clone()), &text);
    }
}'''),

dict(id='c20-enum-memo', property='C20', kind='gen',
  needs='two generations in one process whose schemas hold an enum of the same name with different variants',
  breaks='the code of an enum is remembered by its name, so a later generation in the same process gets the code of an earlier schema',
  edits=[(GR + 'enum.rs', '''pub fn gen_enum_decl(e: &Enum) -> String {
    let mut template = Template::compile(TEMPLATE).unwrap();
''', '''pub fn gen_enum_decl(e: &Enum) -> String {
    thread_local! {
        static DONE: std::cell::RefCell<std::collections::HashMap<(String, usize), String>> = Default::default();
    }
    // The same enum is generated again for every run of a build script.
    let key = (e.name.clone(), e.variants.len());
    if let Some(code) = DONE.with(|v| v.borrow().get(&key).cloned()) {
        return code;
    }
    let code = gen_enum(e);
    DONE.with(|v| v.borrow_mut().insert(key, code.clone()));
    code
}

fn gen_enum(e: &Enum) -> String {
    let mut template = Template::compile(TEMPLATE).unwrap();
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    write("q.json5", &SCHEMA.replace("NAME", "q").replace("VALUE", "7"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5", "q.json5"]).generate::<GeneratorRust>("out").unwrap();
    assert!(std::fs::read_to_string("out/p/enums.rs").unwrap().contains("B = 1,"));
    assert!(std::fs::read_to_string("out/q/enums.rs").unwrap().contains("B = 7,"));
}
const SCHEMA: &str = r#"%s"#;''' % ENUMS),

dict(id='c21-skip-unwritable', property='C21', kind='gen',
  needs='an output file that cannot be written',
  breaks='outputs that fail to be written are left out silently and the run reports success',
  edits=[(IF, '''            let iter = files_iter.into_iter().map(|v| v.write(&out_path))
                .filter_map(|v| match v {
                    Ok(o) => match o {
                        Some(o) => Some(Ok(o)),
                        None => None
                    },
                    Err(e) => Some(Err(e))
                })
                .collect::<std::io::Result<Vec<PathBuf>>>().map_err(Error::Io)?;
''', '''            let iter = files_iter.into_iter()
                .flat_map(|v| v.write(&out_path))
                .flatten()
                .collect::<Vec<PathBuf>>();
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    // A directory in the place of an output.
    std::fs::create_dir_all("out/p/structures.rs/x").unwrap();
    assert!(loaded(&["p.json5"]).generate::<GeneratorRust>("out").is_err(), "success without structures.rs");
}
const SCHEMA: &str = r#"%s"#;''' % ENUMS),

dict(id='c22-same-length-skip', property='C22', kind='gen',
  needs='a leftover output of the right length with the wrong content: a crash that lost data after the file had its size, or an edit of the schema that keeps the length',
  breaks='an output that already has the expected length is taken as up to date and not written',
  edits=[(GM, '            let path = out_directory.join(&*self.name);\n', '''            let path = out_directory.join(self.name.as_ref());
            // Do not touch files which are up to date, so that nothing is built again.
            if path.metadata().map(|v| v.len() == self.data.len() as u64).unwrap_or_default() {
                return Ok(Some(path));
            }
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("ref").unwrap();
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("ref").unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    let want = std::fs::read("ref/p/enums.rs").unwrap();
    std::fs::write("out/p/enums.rs", vec![0u8; want.len()]).unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    assert_eq!(std::fs::read("out/p/enums.rs").unwrap(), want);
}
const SCHEMA: &str = r#"%s"#;''' % ENUMS),

dict(id='c22-stale-lock', property='C22', kind='gen',
  needs='a run that was stopped after it took the lock and before it released it',
  breaks='a lock file left by a crashed run makes every later run fail',
  edits=[(IF, '''            let out_path = out_directory.as_ref().join(&name);
''', '''            let out_path = out_directory.as_ref().join(&name);
            // Let one run at a time touch the outputs of a protocol.
            let lock_path = out_directory.as_ref().join(format!("{}.lock", name));
            let mut tries = 0;
            while let Err(e) = std::fs::OpenOptions::new().write(true).create_new(true).open(&lock_path) {
                tries += 1;
                if e.kind() != std::io::ErrorKind::AlreadyExists || tries > 2000 {
                    return Err(Error::Io(e));
                }
                std::thread::yield_now();
            }
'''), (IF, '''            generated_protocols.push(Proto {
''', '''            std::fs::remove_file(&lock_path).map_err(Error::Io)?;
            generated_protocols.push(Proto {
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    // The first run fails in the middle: a directory is in the place of an output.
    std::fs::create_dir_all("out/p/structures.rs/x").unwrap();
    assert!(loaded(&["p.json5"]).generate::<GeneratorRust>("out").is_err());
    std::fs::remove_dir_all("out/p/structures.rs").unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").expect("the run can be repeated");
}
const SCHEMA: &str = r#"%s"#;''' % ENUMS),

dict(id='c23-clean-temporaries', property='C23', kind='gen',
  needs='two runs into one directory, one starting a protocol while the other is between writing and renaming a temporary file',
  breaks='a run removes the temporary files it finds, including those a concurrent run is about to rename, which then fails',
  edits=[(IF, '''            let files_iter = files.into_iter().filter(|v| {
''', '''            // Remove what an interrupted run left behind.
            for entry in std::fs::read_dir(&out_path).map_err(Error::Io)?.flatten() {
                if entry.path().extension().map(|v| v == "tmp").unwrap_or_default() {
                    let _ = std::fs::remove_file(entry.path());
                }
            }
            let files_iter = files.into_iter().filter(|v| {
''')],
  preload='''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
/* Pauses once before the first rename, so that another run can start in between. */
int rename(const char *a, const char *b) {
    static int (*real)(const char *, const char *);
    static int done;
    if (!real) real = dlsym(RTLD_NEXT, "rename");
    if (!done) {
        done = 1;
        FILE *f = fopen("reached", "w"); fclose(f);
        for (int i = 0; i < 3000 && access("go", F_OK) != 0; i++) usleep(10000);
    }
    return real(a, b);
}
''',
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    let a = std::thread::spawn(|| loaded(&["p.json5"]).generate::<GeneratorRust>("out").map(|_| ()));
    while !Path::new("reached").exists() {
        if a.is_finished() { break; }
        std::thread::yield_now();
    }
    let b = loaded(&["p.json5"]).generate::<GeneratorRust>("out").map(|_| ());
    write("go", "");
    b.unwrap();
    a.join().unwrap().expect("the run that was overtaken");
}
const SCHEMA: &str = r#"%s"#;''' % ENUMS),

dict(id='c24-path-cache', property='C24', kind='gen',
  needs='a load that fails and is repeated on the same loader once the file is there',
  breaks='a path is remembered as loaded before it was read, so the load that follows a failed one is skipped',
  edits=[(IF, '''    models: Vec<model::Protocol>,
    imported_models: Vec<(String, model::Protocol)>
}
''', '''    models: Vec<model::Protocol>,
    imported_models: Vec<(String, model::Protocol)>,
    loaded: std::collections::HashSet<PathBuf>
}
'''), (IF, '''            models: Vec::new(),
            imported_models: Vec::new()
''', '''            models: Vec::new(),
            imported_models: Vec::new(),
            loaded: Default::default()
'''), (IF, '''    pub fn load(&mut self, path: impl AsRef<Path>) -> Result<(), Error> {
        let content''', '''    pub fn load(&mut self, path: impl AsRef<Path>) -> Result<(), Error> {
        // A protocol is generated once, however often it is listed.
        if !self.loaded.insert(path.as_ref().to_path_buf()) {
            return Ok(());
        }
        let content''')],
  main=PRE + '''
fn main() {
    std::fs::create_dir("out").unwrap();
    let mut l = Loader::new();
    assert!(l.load("p.json5").is_err());
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    l.load("p.json5").unwrap();
    let r = l.compile(SimpleImportSolver::new("::")).unwrap().generate::<GeneratorRust>("out").unwrap();
    assert_eq!(r.len(), 1);
}
const SCHEMA: &str = r#"%s"#;''' % ENUMS),

dict(id='c24-single-read', property='C24', kind='gen',
  needs='a read of a schema file that returns less than the whole file',
  breaks='a schema is read with a single read call, so a short read makes the load fail or load a part',
  edits=[(IF, '''    pub fn import(&mut self, path: impl AsRef<Path>, import_path: impl Into<String>) -> Result<(), Error> {
        let content = std::fs::read_to_string(path).map_err(Error::Io)?;
''', '''    pub fn import(&mut self, path: impl AsRef<Path>, import_path: impl Into<String>) -> Result<(), Error> {
        let mut file = std::fs::File::open(path).map_err(Error::Io)?;
        let mut content = vec![0; file.metadata().map_err(Error::Io)?.len() as usize];
        let size = std::io::Read::read(&mut file, &mut content).map_err(Error::Io)?;
        content.truncate(size);
        let content = String::from_utf8_lossy(&content);
''')],
  preload='''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
/* Every read returns at most 16 bytes. */
ssize_t read(int fd, void *buf, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    return real(fd, buf, n > 16 ? 16 : n);
}
''',
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    let mut l = Loader::new();
    l.import("p.json5", "crate::p").expect("short reads are no failure");
}
const SCHEMA: &str = r#"%s"#;''' % ENUMS),

dict(id='c25-case-unwrap', property='C25', kind='gen',
  needs='a schema damaged so that the case of a union over a plain unsigned field is no number',
  breaks='compiling such a schema panics',
  edits=[(C + 'compiler/union.rs', '            FieldView::None => value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?\n', '            FieldView::None => value.case.parse().unwrap()\n')],
  main=PRE + '''
fn main() {
    write("p.json5", SCHEMA);
    let mut l = Loader::new();
    l.load("p.json5").unwrap();
    assert!(l.compile(SimpleImportSolver::new("::")).is_err());
}
const SCHEMA: &str = r#"{ name: "p", structs: [ { name: "H", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } } ] } ],
   unions: [ { name: "U", discriminant: "H.x", cases: [ { name: "A", case: "1x" } ] } ] }"#;'''),

dict(id='c26-umbrella-listing', property='C26', kind='gen',
  needs='a run into a directory that holds outputs of an earlier run with another selection',
  breaks='the entry file includes whatever outputs are found in the directory, also those of earlier runs',
  edits=[(IF, '''            let umbrella = T::generate_umbrella(&name, iter.iter().map(|v| &**v)).map_err''', '''            let mut iter = iter;
            if !iter.is_empty() {
                iter = std::fs::read_dir(&out_path).map_err(Error::Io)?.flatten().map(|v| v.path())
                    .filter(|v| v.extension().map(|v| v == "rs").unwrap_or_default() && !v.ends_with("umbrella.rs")).collect();
                iter.sort();
            }
            let umbrella = T::generate_umbrella(&name, iter.iter().map(|v| &**v)).map_err''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    loaded(&["p.json5"]).set_use_enums(false).generate::<GeneratorRust>("out").unwrap();
    assert!(!std::fs::read_to_string("out/p/umbrella.rs").unwrap().contains("enums.rs"));
}
const SCHEMA: &str = r#"%s"#;''' % ENUMS),

dict(id='c26-umbrella-once', property='C26', kind='gen',
  needs='a second run with another selection into the same directory',
  breaks='the entry file is written only when there is none, so it keeps the selection of an earlier run',
  edits=[(IF, '                let umbrella_path = out_path.join("umbrella.rs");\n                write_file(&umbrella_path, umbrella.as_bytes()).map_err(Error::Io)?;\n', '                let umbrella_path = out_path.join("umbrella.rs");\n                if !umbrella_path.is_file() {\n                    write_file(&umbrella_path, umbrella.as_bytes()).map_err(Error::Io)?;\n                }\n'),
         (IF, '            if umbrella.len() > 1 {\n', '            if !umbrella.is_empty() {\n')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5"]).set_use_enums(false).generate::<GeneratorRust>("out").unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    assert!(std::fs::read_to_string("out/p/umbrella.rs").unwrap().contains("enums.rs"));
}
const SCHEMA: &str = r#"%s"#;''' % ENUMS),
]

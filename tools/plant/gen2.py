C = 'compiler/src/'
IF = C + 'interface.rs'
GM = C + 'gen/mod.rs'
GR = C + 'gen/rust/'
CC = C + 'compiler/'

SCHEMA = '''{ name: "NAME", enums: [ { name: "K", variants: { "A": 0, "B": VALUE } } ],
  structs: [ { name: "S", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } } ] } ],
  messages: [ { name: "M", fields: [ { name: "s", info: { type: "string" } } ] } ] }'''

PRE = '''
#![allow(unused)]
use bp3d_protoc::*;
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use std::path::Path;
fn write(name: &str, text: &str) { std::fs::write(name, text).unwrap() }
fn loaded(names: &[&str]) -> Protoc {
    let mut l = Loader::new();
    for n in names { l.load(n).unwrap(); }
    l.compile(SimpleImportSolver::new("::")).unwrap().set_reads_messages(true).set_writes_messages(true)
}
const SCHEMA: &str = r#"%s"#;
''' % SCHEMA

UMB = '''        let mut code = format!("pub mod {} {{\\n", proto_name);
'''

BUGS = [
dict(id='c20-timestamp', property='C20', kind='gen',
  needs='two generations at different times',
  breaks='the time of the generation is a part of the entry file',
  edits=[(GR + 'mod.rs', UMB, '''        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|v| v.as_secs()).unwrap_or_default();
        let mut code = format!("// Generated at {}.\\n", now);
        code += &format!("pub mod {} {{\\n", proto_name);
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    let a = std::fs::read("out/p/umbrella.rs").unwrap();
    std::thread::sleep(std::time::Duration::from_millis(2100));
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    assert_eq!(a, std::fs::read("out/p/umbrella.rs").unwrap());
}'''),

dict(id='c20-load-order', property='C20', kind='gen',
  needs='several independent protocols loaded in another order',
  breaks='enums are numbered by the position of their protocol among the loaded ones',
  edits=[(GR + 'enum.rs', '''    template.var("name", &e.name);
''', '''    template.var("name", &e.name);
    thread_local! {
        static COUNT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    }
    // Gives every enum of a run its own number.
    let id = COUNT.with(|v| { v.set(v.get() + 1); v.get() });
'''), (GR + 'enum.rs', '''    template.var("variants", code.join("")).render("", &["enum"]).unwrap()
''', '''    let code = template.var("variants", code.join("")).render("", &["enum"]).unwrap();
    match id {
        1 => code,
        _ => code + &format!("// enum {}\\n", id)
    }
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    write("q.json5", &SCHEMA.replace("NAME", "q").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5", "q.json5"]).generate::<GeneratorRust>("out").unwrap();
    let a = std::fs::read("out/q/enums.rs").unwrap();
    loaded(&["q.json5", "p.json5"]).generate::<GeneratorRust>("out").unwrap();
    assert_eq!(a, std::fs::read("out/q/enums.rs").unwrap());
}'''),

dict(id='c20-address-order', property='C20', kind='gen',
  needs='a memory layout in which a later structure is allocated before an earlier one',
  breaks='structures are generated in the order of their addresses',
  edits=[(GR + 'mod.rs', '        let decl_structures = proto.structs.iter().map(', '''        let mut structs = proto.structs.clone();
        structs.sort_by_key(|v| std::rc::Rc::as_ptr(v) as usize >> 4);
        let decl_structures = structs.iter().map(''')],
  main=PRE + '''
fn main() {
    let s: Vec<String> = (0..40).map(|i| format!("{{ name: \\"S{}\\", fields: [ {{ name: \\"x\\", info: {{ type: \\"unsigned\\", bits: 8 }} }} ] }}", i)).collect();
    write("p.json5", &format!("{{ name: \\"p\\", structs: [ {} ] }}", s.join(", ")));
    std::fs::create_dir("out").unwrap();
    let mut first = None;
    for i in 0..200usize {
        // Leave the heap in another state every time.
        let mut v: Vec<Box<[u8]>> = (0..i * 7).map(|k| vec![0u8; 60 + (k * 13) % 90].into_boxed_slice()).collect();
        let mut n = 0usize;
        v.retain(|_| { n += 1; (n * 7919) % 3 != 0 });
        loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
        let text = std::fs::read_to_string("out/p/structures.rs").unwrap();
        assert!(first.get_or_insert(text.clone()) == &text, "run {}", i);
    }
}'''),

dict(id='c21-denied-is-empty', property='C21', kind='gen',
  needs='an output that cannot be written because access to it is denied',
  breaks='an output to which access is denied is treated like an output without content: it is left out and the run succeeds',
  edits=[(IF, '                    Err(e) => Some(Err(e))\n', '''                    // Another user owns this output.
                    Err(e) if e.kind() == std::io::ErrorKind::PermissionDenied => None,
                    Err(e) => Some(Err(e))
''')],
  preload='''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
static int denied(const char *p, int f) { return (f & O_ACCMODE) != O_RDONLY && strstr(p, "enums.rs"); }
int open64(const char *p, int f, ...) {
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    if (denied(p, f)) { errno = EACCES; return -1; }
    int (*r)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64"); return r(p, f, m);
}
int open(const char *p, int f, ...) {
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    if (denied(p, f)) { errno = EACCES; return -1; }
    int (*r)(const char *, int, ...) = dlsym(RTLD_NEXT, "open"); return r(p, f, m);
}
''',
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    let r = loaded(&["p.json5"]).generate::<GeneratorRust>("out");
    assert!(r.is_err() || Path::new("out/p/enums.rs").exists(), "success without enums.rs");
}'''),

dict(id='c21-no-umbrella-path', property='C21', kind='gen',
  needs='a protocol in a directory whose entry file cannot be replaced',
  breaks='when the entry file exists but cannot be replaced, the run reports the old one and succeeds',
  edits=[(IF, '''                let umbrella_path = out_path.join("umbrella.rs");
                write_file(&umbrella_path, umbrella.as_bytes()).map_err(Error::Io)?;
                proto_path = umbrella_path;
''', '''                proto_path = out_path.join("umbrella.rs");
                match write_file(&proto_path, umbrella.as_bytes()) {
                    // A read-only checkout which holds the generated files.
                    Err(_) if proto_path.exists() => (),
                    v => v.map_err(Error::Io)?
                }
''')],
  preload='''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int denied(const char *p, int f) { return (f & O_ACCMODE) != O_RDONLY && strstr(p, "umbrella.rs") && access("readonly", F_OK) == 0; }
int open64(const char *p, int f, ...) {
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    if (denied(p, f)) { errno = EROFS; return -1; }
    int (*r)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64"); return r(p, f, m);
}
int open(const char *p, int f, ...) {
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    if (denied(p, f)) { errno = EROFS; return -1; }
    int (*r)(const char *, int, ...) = dlsym(RTLD_NEXT, "open"); return r(p, f, m);
}
''',
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5"]).set_use_enums(false).generate::<GeneratorRust>("out").unwrap();
    let old = std::fs::read("out/p/umbrella.rs").unwrap();
    write("readonly", "");
    let r = loaded(&["p.json5"]).generate::<GeneratorRust>("out");
    assert!(r.is_err() || std::fs::read("out/p/umbrella.rs").unwrap() != old, "success with the entry file of an earlier run");
}'''),

dict(id='c22-stamp-first', property='C22', kind='gen',
  needs='a crash between writing the stamp of a protocol and writing its last output',
  breaks='a stamp that marks the outputs of a protocol as up to date is written before them: after a crash the missing outputs are never written',
  edits=[(GM, '            let path = out_directory.join(&*self.name);\n', '''            let path = out_directory.join(self.name.as_ref());
            // Unchanged outputs are not written again.
            let stamp = out_directory.join(format!(".{}.stamp", self.name));
            let sum = self.data.bytes().fold(0xcbf29ce484222325u64, |s, v| (s ^ v as u64).wrapping_mul(0x100000001b3));
            if std::fs::read(&stamp).map(|v| v == sum.to_le_bytes()).unwrap_or_default() {
                return Ok(Some(path));
            }
            std::fs::write(&stamp, sum.to_le_bytes())?;
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    // A failure in the middle: a directory in the place of an output.
    std::fs::create_dir_all("out/p/structures.rs/x").unwrap();
    assert!(loaded(&["p.json5"]).generate::<GeneratorRust>("out").is_err());
    std::fs::remove_dir_all("out/p/structures.rs").unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    assert!(Path::new("out/p/structures.rs").exists(), "not repaired by the second run");
}'''),

dict(id='c22-marker', property='C22', kind='gen',
  needs='a crash or failure in the middle of a run, and then another run',
  breaks='a marker left by a run that was stopped makes every later run refuse to work',
  edits=[(IF, "            let files_iter = files.into_iter().filter(|v| {\n", '''            // Marks a run in progress.
            let marker = out_path.join(".running");
            std::fs::OpenOptions::new().write(true).create_new(!std::fs::exists(out_path.join("umbrella.rs")).unwrap_or_default()).create(true).open(&marker).map_err(Error::Io)?;
            let files_iter = files.into_iter().filter(|v| {
'''), (IF, '            generated_protocols.push(Proto {\n', '            let _ = std::fs::remove_file(marker);\n            generated_protocols.push(Proto {\n')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir_all("out/p/structures.rs/x").unwrap();
    assert!(loaded(&["p.json5"]).generate::<GeneratorRust>("out").is_err());
    std::fs::remove_dir_all("out/p/structures.rs").unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").expect("the first run was stopped");
}'''),

dict(id='c23-fresh-directory', property='C23', kind='gen',
  needs='two runs into the same directory, one of which starts while the other writes',
  breaks='a run empties the directory of a protocol first and so removes what a concurrent run has just written',
  edits=[(IF, '            let out_path = out_directory.as_ref().join(&name);\n', '''            let out_path = out_directory.as_ref().join(&name);
            // Start from a fresh directory.
            let _ = std::fs::remove_dir_all(&out_path);
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    for _ in 0..20 {
        let t: Vec<_> = (0..8).map(|_| std::thread::spawn(|| for _ in 0..20 {
            loaded(&["p.json5"]).generate::<GeneratorRust>("out").expect("independent of the other runs");
        })).collect();
        for t in t { t.join().unwrap(); }
    }
}'''),

dict(id='c23-shared-scratch', property='C23', kind='gen',
  needs='two runs in different directories of one process, or two processes in one directory, interleaved between the write of an output and its publication',
  breaks='outputs are staged in a file of a fixed name, which concurrent runs share',
  edits=[(GM, '            let path = out_directory.join(&*self.name);\n            write_file(&path, self.data.as_bytes())?;\n', '''            let path = out_directory.join(self.name.as_ref());
            let stage = out_directory.join("stage");
            std::fs::write(&stage, self.data.as_bytes())?;
            std::fs::rename(&stage, &path)?;
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    for _ in 0..20 {
        let t: Vec<_> = (0..8).map(|_| std::thread::spawn(|| for _ in 0..20 {
            loaded(&["p.json5"]).generate::<GeneratorRust>("out").expect("independent of the other runs");
        })).collect();
        for t in t { t.join().unwrap(); }
    }
}'''),

dict(id='c24-pop', property='C24', kind='gen',
  needs='a load of a damaged schema after a load of a good one',
  breaks='a load that fails removes the schema that was loaded before',
  edits=[(IF, '''    pub fn load(&mut self, path: impl AsRef<Path>) -> Result<(), Error> {
        let content = std::fs::read_to_string(path).map_err(Error::Io)?;
        let model: model::Protocol = json5::from_str(&content).map_err(Error::Model)?;
        self.models.push(model);
        Ok(())
''', '''    pub fn load(&mut self, path: impl AsRef<Path>) -> Result<(), Error> {
        let content = std::fs::read_to_string(path).map_err(Error::Io)?;
        let model = json5::from_str::<model::Protocol>(&content).map(|v| self.models.push(v));
        if let Err(e) = model {
            self.models.pop();
            return Err(Error::Model(e));
        }
        Ok(())
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    write("q.json5", "{ name: ");
    std::fs::create_dir("out").unwrap();
    let mut l = Loader::new();
    l.load("p.json5").unwrap();
    assert!(l.load("q.json5").is_err());
    let g = l.compile(SimpleImportSolver::new("::")).unwrap().generate::<GeneratorRust>("out").unwrap();
    assert_eq!(g.len(), 1);
}'''),

dict(id='c24-lossy', property='C24', kind='gen',
  needs='a schema that is not valid UTF-8, or an import that fails for good and is tried again',
  breaks='an imported schema that cannot be read is taken as an empty one: import succeeds with nothing',
  edits=[(IF, '''    pub fn import(&mut self, path: impl AsRef<Path>, import_path: impl Into<String>) -> Result<(), Error> {
        let content = std::fs::read_to_string(path).map_err(Error::Io)?;
''', '''    pub fn import(&mut self, path: impl AsRef<Path>, import_path: impl Into<String>) -> Result<(), Error> {
        let content = match std::fs::read_to_string(path) {
            // Imports of protocols which are not installed are optional.
            Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(()),
            v => v.map_err(Error::Io)?
        };
''')],
  main=PRE + '''
fn main() {
    let mut l = Loader::new();
    assert!(l.import("nothing.json5", "crate::x").is_err(), "import of a file that does not exist");
}'''),

dict(id='c25-discriminant-path', property='C25', kind='gen',
  needs='a damaged schema in which the discriminant of a union names a structure and no field',
  breaks='the discriminant of a union is split at its first dot without checking that there is one',
  edits=[(CC + 'union.rs', '''        let mut parts = discriminant.split(".");
        let name = parts.next().ok_or(Error::InvalidUnionDiscriminant)?;
''', '''        let (name, path) = discriminant.split_at(discriminant.find('.').unwrap_or(discriminant.len()));
        let parts = path[1..].split(".");
''')],
  main=PRE + '''
fn main() {
    write("p.json5", "{ name: 'p', structs: [ { name: 'P', fields: [ { name: 'x', info: { type: 'unsigned', bits: 8 } } ] } ], unions: [ { name: 'U', discriminant: 'P', cases: [] } ] }");
    let mut l = Loader::new();
    l.load("p.json5").unwrap();
    assert!(l.compile(SimpleImportSolver::new("::")).is_err());
}'''),

dict(id='c25-self-reference', property='C25', kind='gen',
  needs='a damaged schema in which an imported protocol names itself as its import',
  breaks='a protocol that imports from itself is looked up until the stack is exhausted',
  edits=[(C + 'util.rs', '''    fn get_protocol_by_name(&self, name: &str) -> Option<&Protocol> {
        self.import_map.get(name).map(|(_, v)| v)
    }
''', '''    fn get_protocol_by_name(&self, name: &str) -> Option<&Protocol> {
        // The name of a protocol can be given with its path.
        let mut name = name;
        loop {
            if let Some((_, v)) = self.import_map.get(name) {
                return Some(v);
            }
            name = match name.rfind(self.separator) {
                Some(id) => &name[id..],
                None => return None
            };
        }
    }
''')],
  main=PRE + '''
fn main() {
    write("p.json5", "{ name: 'p', imports: [ { protocol: 'x::y', type: 'T' } ] }");
    let mut l = Loader::new();
    l.load("p.json5").unwrap();
    assert!(l.compile(SimpleImportSolver::new("::")).is_err());
}'''),

dict(id='c26-read-implied', property='C26', kind='gen',
  needs='a run that selects the writing of messages and not their reading',
  breaks='the reading code of messages is produced when only the writing is selected',
  edits=[(IF, '                    FileType::MessageReading => self.read_messages,\n', '                    FileType::MessageReading => self.read_messages || self.write_messages,\n')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5"]).set_reads_messages(false).generate::<GeneratorRust>("out").unwrap();
    assert!(Path::new("out/p/messages_write.rs").exists());
    assert!(!Path::new("out/p/messages_from_slice.rs").exists());
}'''),

dict(id='c26-module-case', property='C26', kind='gen',
  needs='a protocol whose name is not in lower case',
  breaks="the module of the entry file has the name of the protocol in lower case",
  edits=[(GR + 'mod.rs', UMB, UMB.replace('proto_name)', 'proto_name.to_lowercase())'))],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "MyProto").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    assert!(std::fs::read_to_string("out/MyProto/umbrella.rs").unwrap().contains("pub mod MyProto {"));
}'''),
]

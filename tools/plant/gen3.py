C = 'compiler/src/'
IF = C + 'interface.rs'
GM = C + 'gen/mod.rs'
GR = C + 'gen/rust/'
CC = C + 'compiler/'

SCHEMA = '''{ name: "NAME", enums: [ { name: "K", variants: { "A": 0, "B": VALUE } } ],
  structs: [ { name: "S", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } } ] } ],
  messages: [ { name: "M", fields: [ { name: "s", info: { type: "string" } } ] } ] }'''

PRE = '''
#![allow(unused)]
use bp3d_protoc::*;
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use std::path::Path;
fn write(name: &str, text: &str) { std::fs::write(name, text).unwrap() }
fn loaded(names: &[&str]) -> Protoc {
    let mut l = Loader::new();
    for n in names { l.load(n).unwrap(); }
    l.compile(SimpleImportSolver::new("::")).unwrap().set_reads_messages(true).set_writes_messages(true)
}
fn list(d: &str) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d).unwrap().map(|v| v.unwrap().file_name().into_string().unwrap()).collect();
    v.sort();
    v
}
const SCHEMA: &str = r#"%s"#;
''' % SCHEMA

# Fails renames of (or writes to) files whose path contains $FAIL, once the file /scratch "fail" exists.
FAIL_RENAME = '''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
int rename(const char *a, const char *b) {
    int (*real)(const char *, const char *) = dlsym(RTLD_NEXT, "rename");
    if (access("fail", F_OK) == 0 && strstr(b, "NAME")) { errno = EIO; return -1; }
    return real(a, b);
}
'''
UPATH = '                let umbrella_path = out_path.join("umbrella.rs");\n'
FPATH = '            let path = out_directory.join(&*self.name);\n'
UMB = '            let umbrella = T::generate_umbrella(&name, iter.iter().map(|v| &**v)).map_err(|e| Error::Generator(e.to_string()))?;\n'

BUGS = [
dict(id='c27-umbrella-removed', property='C27', kind='gen',
  needs='a failure, a crash or a reader while the entry file is replaced',
  breaks='the entry file of the earlier run is removed before the new one is written',
  edits=[(IF, UPATH, UPATH.replace(';', ';\n                let _ = std::fs::remove_file(&umbrella_path);'))],
  preload=FAIL_RENAME.replace('NAME', 'umbrella'),
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    write("fail", "");
    assert!(loaded(&["p.json5"]).generate::<GeneratorRust>("out").is_err());
    assert!(Path::new("out/p/umbrella.rs").exists());
}'''),

dict(id='c27-reserved-name', property='C27', kind='gen',
  needs='a failure, a crash or a reader while an output is produced for the first time',
  breaks='the name of an output is taken by an empty file before its content is there',
  edits=[(GM, FPATH, FPATH + '''            // Find out early whether the file can be created at all.
            drop(std::fs::OpenOptions::new().create(true).append(true).open(&path)?);
''')],
  preload=FAIL_RENAME.replace('NAME', 'structures'),
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    write("fail", "");
    assert!(loaded(&["p.json5"]).generate::<GeneratorRust>("out").is_err());
    assert!(!Path::new("out/p/structures.rs").exists());
}'''),

dict(id='c27-drop-deselected', property='C27', kind='gen',
  needs='a selection with less outputs than the one before, and a reader that follows the entry file meanwhile',
  breaks='outputs that are not selected any more are removed while the entry file still includes them',
  edits=[(IF, '                    FileType::MessageWriting => self.write_messages,\n', '                    FileType::MessageWriting if !self.write_messages => {\n                        let _ = std::fs::remove_file(out_path.join("messages_write.rs"));\n                        false\n                    },\n                    FileType::MessageWriting => true,\n')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    let r = loaded(&["p.json5"]).set_writes_messages(false).generate::<GeneratorRust>("out").unwrap();
    assert!(Path::new("out/p/messages_write.rs").exists());
}'''),

dict(id='c28-backup', property='C28', kind='gen',
  needs='a second generation into the same directory',
  breaks='the earlier version of an output is kept beside it, where the file of somebody else may be',
  edits=[(GM, FPATH, FPATH + '''            // Keep what was there before.
            let _ = std::fs::copy(&path, path.with_extension("rs.bak"));
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    let before = list("out/p");
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    assert_eq!(before, list("out/p"));
}'''),

dict(id='c28-sweep', property='C28', kind='gen',
  needs="a file of somebody else in a protocol's folder",
  breaks='after a generation every source file in the folder of a protocol that is no output of it is removed',
  edits=[(IF, UMB, UMB + '''            // Nothing stale stays in the folder.
            for entry in std::fs::read_dir(&out_path).map_err(Error::Io)?.flatten() {
                let path = entry.path();
                let known = ["umbrella.rs", "messages.rs", "messages_from_slice.rs", "messages_write.rs", "messages_offsets.rs", "structures.rs", "enums.rs", "unions.rs"];
                if path.extension() == Some("rs".as_ref()) && !known.iter().any(|v| path.ends_with(v)) {
                    let _ = std::fs::remove_file(path);
                }
            }
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    std::fs::create_dir("out/p").unwrap();
    write("out/p/mod.rs", "// hand written");
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    assert!(Path::new("out/p/mod.rs").exists());
}'''),

dict(id='c28-probe', property='C28', kind='gen',
  needs='a generation that fails',
  breaks='a file that shows whether the output directory can be written remains there when the generation fails',
  edits=[(IF, '        let mut generated_protocols = Vec::new();\n', '''        let mut generated_protocols = Vec::new();
        // Without the directory nothing of what follows makes sense.
        let probe = out_directory.as_ref().join(format!(".probe-{}", std::process::id()));
        std::fs::write(&probe, "").map_err(Error::Io)?;
'''), (IF, '        Ok(generated_protocols)\n', '        let _ = std::fs::remove_file(probe);\n        Ok(generated_protocols)\n')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    write("out/p", "a file where the folder has to be");
    assert!(loaded(&["p.json5"]).generate::<GeneratorRust>("out").is_err());
    assert_eq!(list("out"), ["p"]);
}'''),

dict(id='c28-restore-mode', property='C28', kind='gen',
  needs='a protocol whose name is a prefix of the name of another folder',
  breaks='folders of renamed protocols are removed: whatever begins with the name of the protocol and a dot or an underscore',
  edits=[(IF, '            let out_path = out_directory.as_ref().join(&name);\n', '''            let out_path = out_directory.as_ref().join(&name);
            // Staging directories of runs that were killed.
            let _ = std::fs::remove_dir_all(out_directory.as_ref().join(format!("{}.d", name)));
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir_all("out/p.d").unwrap();
    write("out/p.d/notes", "mine");
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    assert!(Path::new("out/p.d/notes").exists());
}'''),

dict(id='c24-import-replace', property='C24', kind='gen',
  needs='a failed import of a file under a path that is imported already',
  breaks='an import takes the place of earlier ones with the same path before it is known to succeed',
  edits=[(IF, '''    pub fn import(&mut self, path: impl AsRef<Path>, import_path: impl Into<String>) -> Result<(), Error> {
''', '''    pub fn import(&mut self, path: impl AsRef<Path>, import_path: impl Into<String>) -> Result<(), Error> {
        let import_path = import_path.into();
        let name = path.as_ref().file_stem().map(|v| v.to_string_lossy().into_owned()).unwrap_or_default();
        // A protocol is imported once.
        self.imported_models.retain(|(p, v)| *p != import_path || v.name != name);
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    write("q.json5", r#"{ name: "q", imports: [ { protocol: "p", type: "S" } ], messages: [ { name: "M", fields: [ { name: "s", info: { type: "item", item_type: "S" } } ] } ] }"#);
    let mut l = Loader::new();
    l.import("p.json5", "crate").unwrap();
    let text = std::fs::read("p.json5").unwrap();
    write("p.json5", "{ name: ");
    assert!(l.import("p.json5", "crate").is_err());
    l.load("q.json5").unwrap();
    assert!(l.compile(SimpleImportSolver::new("::")).is_ok());
}'''),

dict(id='c26-offsets-declared', property='C26', kind='gen',
  needs='a selection without reading of messages',
  breaks='the offsets, which are a part of reading, are produced and included when reading is not selected',
  edits=[(GR + 'mod.rs', 'FileType::MessageReading, "messages_offsets.rs"', 'FileType::Message, "messages_offsets.rs"')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5"]).set_reads_messages(false).generate::<GeneratorRust>("out").unwrap();
    assert!(!std::fs::read_to_string("out/p/umbrella.rs").unwrap().contains("messages_offsets"));
}'''),

dict(id='c26-enum-implied', property='C26', kind='gen',
  needs='a selection without enums but with unions',
  breaks='enums are produced and included whenever unions are, whatever is selected',
  edits=[(IF, '                    FileType::Enum => self.use_enums,\n', '                    // The unions refer to them.\n                    FileType::Enum => self.use_enums || (self.use_unions && !self.use_structs),\n')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    loaded(&["p.json5"]).set_use_enums(false).set_use_structs(false).generate::<GeneratorRust>("out").unwrap();
    assert!(!std::fs::read_to_string("out/p/umbrella.rs").unwrap().contains("enums"));
}'''),

dict(id='c23-verify', property='C23', kind='gen',
  needs='another generation with a different selection or version finishing the same protocol in between',
  breaks='a run reads its entry file back and fails when a concurrent run has replaced it',
  edits=[(IF, '                proto_path = umbrella_path;\n', '''                // Some file systems lie about what was written.
                let stored = std::fs::read(&umbrella_path).map_err(Error::Io)?;
                if stored != umbrella.as_bytes() {
                    return Err(Error::Generator(format!("{} was not written", umbrella_path.display())));
                }
                proto_path = umbrella_path;
''')],
  preload='''#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
/* Another run finishes right after ours has put its entry file in place. */
int rename(const char *a, const char *b) {
    int (*real)(const char *, const char *) = dlsym(RTLD_NEXT, "rename");
    int r = real(a, b);
    if (strstr(b, "umbrella")) {
        FILE *f = fopen("other.tmp", "w");
        fputs("// entry file of another run\\n", f);
        fclose(f);
        real("other.tmp", b);
    }
    return r;
}
''',
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir("out").unwrap();
    assert!(loaded(&["p.json5"]).generate::<GeneratorRust>("out").is_ok());
}'''),

dict(id='c21-collect-some', property='C21', kind='gen',
  needs='a write that fails for good on an output that is not the first',
  breaks='outputs after the first that fail are left out as if they were empty',
  edits=[(IF, '                    Err(e) => Some(Err(e))\n', '''                    // A folder that is in the way of an optional output.
                    Err(e) if e.kind() == std::io::ErrorKind::IsADirectory => None,
                    Err(e) => Some(Err(e))
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir_all("out/p/enums.rs").unwrap();
    assert!(loaded(&["p.json5"]).generate::<GeneratorRust>("out").is_err());
}'''),

dict(id='c25-dense-enum', property='C25', kind='gen',
  needs='an enum with a huge value',
  breaks='the variants of an enum are put in order through a table with an entry for every value up to the largest',
  edits=[(GR + 'enum.rs', '''    let mut code = e.variants.iter().map(|(k, v)|
        template.scope().var("key", k).var_d("value", v)
            .render("enum", &["variant"]).unwrap());
''', '''    let mut table = vec![None; e.largest + 1];
    for (k, v) in &e.variants {
        table[*v] = Some((k, v));
    }
    let sorted = e.variants.iter().filter(|(_, v)| table[*v].is_some());
    let mut code = sorted.map(|(k, v)|
        template.scope().var("key", k).var_d("value", v)
            .render("enum", &["variant"]).unwrap());
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "9223372036854775807"));
    std::fs::create_dir("out").unwrap();
    let mut l = Loader::new();
    if l.load("p.json5").is_ok() {
        if let Ok(p) = l.compile(SimpleImportSolver::new("::")) {
            let _ = p.generate::<GeneratorRust>("out");
        }
    }
}'''),

dict(id='c22-resume', property='C22', kind='gen',
  needs='a run that was stopped between its outputs, then a run with another version of the schema',
  breaks='a run takes up an interrupted one: outputs that exist are kept as long as there is no entry file',
  edits=[(GM, FPATH, FPATH + '''            // An interrupted run is taken up where it stopped.
            if path.exists() && !out_directory.join("umbrella.rs").exists() {
                return Ok(Some(path));
            }
''')],
  main=PRE + '''
fn main() {
    write("p.json5", &SCHEMA.replace("NAME", "p").replace("VALUE", "1"));
    std::fs::create_dir_all("out/p").unwrap();
    // What an interrupted run left.
    write("out/p/enums.rs", "pub enum");
    loaded(&["p.json5"]).generate::<GeneratorRust>("out").unwrap();
    assert!(std::fs::read_to_string("out/p/enums.rs").unwrap().contains("A"));
}'''),
]


C = 'compiler/src/'
BS = C + 'build_script.rs'

PRE = '''
#![allow(unused)]
use std::path::Path;
use std::process::{Command, Stdio};
const SCHEMA: &str = r#"{ name: "NAME", enums: [ { name: "K", variants: { "A": 0, "B": 1 } } ],
  structs: [ { name: "S", fields: [ { name: "x", info: { type: "unsigned", bits: 8 } } ] } ],
  messages: [ { name: "M", fields: [ { name: "s", info: { type: "string" } } ] } ] }"#;
fn schema(n: &str) { std::fs::write(format!("{n}.json5"), SCHEMA.replace("NAME", n)).unwrap() }
fn script(names: &[&str]) {
    bp3d_protoc::generate_rust(|l| { for n in names { l.load(format!("{n}.json5"))?; } Ok(()) }, |p| p.set_reads_messages(true));
}
/// This program again, as a build script.
fn child(out: &str, lib: bool) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("script").env("OUT_DIR", std::env::current_dir().unwrap().join(out)).stderr(Stdio::null());
    c
}
fn keys(text: &str) -> Vec<String> {
    text.lines().filter_map(|l| l.strip_prefix("cargo::rustc-env=BP3D_PROTOC_")).map(|l| l.split_once('=').unwrap().0.to_string()).collect()
}
'''
LOOP = '''    for proto in generated {
        println!("cargo::rustc-env=BP3D_PROTOC_{}={}", proto.name.to_ascii_uppercase(), proto.path.display());
    }
'''
GEN = '''    let generated = match protoc.generate::<GeneratorRust>(out_dir) {
'''

BUGS = [
dict(id='c29-broken-pipe', property='C29', kind='gen',
  needs='a standard output that cannot be written when the script tells what it has generated',
  breaks='failures of the standard output are ignored: the script succeeds without having told Cargo of the protocols',
  edits=[(BS, LOOP, '''    use std::io::Write;
    let mut out = std::io::stdout().lock();
    for proto in generated {
        // Unlike println, does not panic when Cargo has gone away.
        let _ = writeln!(out, "cargo::rustc-env=BP3D_PROTOC_{}={}", proto.name.to_ascii_uppercase(), proto.path.display());
    }
''')],
  main=PRE + '''
fn main() {
    if std::env::args().len() > 1 { return script(&["one", "two"]); }
    schema("one");
    schema("two");
    std::fs::create_dir("out").unwrap();
    let full = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
    let s = child("out", false).stdout(full).status().unwrap();
    assert!(!s.success(), "succeeds although nothing could be told");
    let o = child("out", false).output().unwrap();
    assert!(o.status.success());
    assert_eq!(keys(&String::from_utf8(o.stdout).unwrap()), ["ONE", "TWO"]);
}
'''),
dict(id='c29-told-first', property='C29', kind='gen',
  needs='a failure or a kill while the files of a protocol are written',
  breaks='Cargo is told of the entry files before they are generated',
  edits=[(BS, GEN, '''    // The places are known beforehand.
    for name in protoc.protocol_names() {
        println!("cargo::rustc-env=BP3D_PROTOC_{}={}", name.to_ascii_uppercase(), std::path::Path::new(&out_dir).join(name).join("umbrella.rs").display());
    }
''' + GEN.replace('let generated', 'let _generated')),
   (BS, LOOP, ''),
   (C + 'interface.rs', 'impl Protoc {\n', '''impl Protoc {
    pub(crate) fn protocol_names(&self) -> Vec<String> {
        self.protocols.iter().map(|v| v.name.clone()).collect()
    }

''')],
  main=PRE + '''
fn main() {
    if std::env::args().len() > 1 { return script(&["one", "two"]); }
    schema("one");
    schema("two");
    std::fs::create_dir("out").unwrap();
    // Something in the place of an output of the second one.
    std::fs::create_dir_all("out/two/umbrella.rs/keep").unwrap();
    let o = child("out", false).output().unwrap();
    assert!(!o.status.success());
    for l in String::from_utf8(o.stdout).unwrap().lines() {
        if let Some((_, p)) = l.strip_prefix("cargo::rustc-env=BP3D_PROTOC_").and_then(|l| l.split_once('=')) {
            assert!(Path::new(p).is_file(), "told of {p}");
        }
    }
}
'''),
dict(id='c29-one-write', property='C29', kind='gen',
  needs='a pipe that takes the lines of the script in part, and more of them than are buffered',
  breaks='all lines are handed over in one call whose result is not looked at: what a pipe does not take at once is lost',
  edits=[(BS, LOOP, '''    use std::io::Write;
    let mut lines = String::new();
    for proto in generated {
        lines += &format!("cargo::rustc-env=BP3D_PROTOC_{}={}\\n", proto.name.to_ascii_uppercase(), proto.path.display());
    }
    // All at once, so that the lines are not mixed with those of others.
    let mut out = std::io::stdout().lock();
    if let Err(e) = out.write(lines.as_bytes()).and_then(|_| out.flush()) {
        panic!("Failed to tell Cargo: {}", e);
    }
''')],
  preload='''#define _GNU_SOURCE
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdlib.h>
ssize_t write(int fd, const void *b, size_t n) {
    if (fd == 1 && getenv("PIECES") && n > 7) n = 7;
    return syscall(SYS_write, fd, b, n);
}
''',
  main=PRE + '''
fn main() {
    if std::env::args().len() > 1 { return script(&["one", "two", "three"]); }
    for n in ["one", "two", "three"] { schema(n); }
    let dir = format!("{}/{}", "d".repeat(200), "e".repeat(200));
    std::fs::create_dir_all(&dir).unwrap();
    for pieces in [false, true] {
        let mut c = child(&dir, false);
        if pieces { c.env("PIECES", "1"); }
        let o = c.output().unwrap();
        assert!(!o.status.success() || keys(&String::from_utf8(o.stdout).unwrap()) == ["ONE", "TWO", "THREE"], "told in part only");
    }
}
'''),
dict(id='c29-stale-fallback', property='C29', kind='gen',
  needs='a failure of the file system during a second run of the script over changed schemas',
  breaks='when the files cannot be written, Cargo is told of those of an earlier run and the script succeeds',
  edits=[(BS, '''    let out_dir = std::env::var("OUT_DIR").unwrap();
''' + GEN + '''        Err(e) => panic!("Failed to generate Rust code: {}", e),
''', '''    let out_dir = std::env::var("OUT_DIR").unwrap();
    let earlier = std::path::PathBuf::from(&out_dir);
''' + GEN + '''        Err(Error::Io(e)) if earlier.read_dir().map(|v| v.count() > 0).unwrap_or(false) => {
            println!("cargo::warning=protocols are not up to date: {}", e);
            for entry in earlier.read_dir().into_iter().flatten().flatten() {
                let path = entry.path().join("umbrella.rs");
                if path.is_file() {
                    println!("cargo::rustc-env=BP3D_PROTOC_{}={}", entry.file_name().to_string_lossy().to_ascii_uppercase(), path.display());
                }
            }
            return;
        }
        Err(e) => panic!("Failed to generate Rust code: {}", e),
''')],
  main=PRE + '''
fn main() {
    if std::env::args().len() > 1 { return script(&["one", "two"]); }
    schema("one");
    schema("two");
    std::fs::create_dir("out").unwrap();
    assert!(child("out", false).output().unwrap().status.success());
    // Something in the place of an output.
    let p = Path::new("out/two/messages.rs");
    std::fs::remove_file(p).unwrap();
    std::fs::create_dir_all(p.join("keep")).unwrap();
    assert!(!child("out", false).output().unwrap().status.success(), "succeeds although a file could not be written");
}
'''),
dict(id='c29-equals-sign', property='C29', kind='gen',
  needs='an output directory with an equals sign in its path',
  breaks='the value of a protocol in a directory with an equals sign in its path is cut there',
  edits=[(BS, LOOP, '''    for proto in generated {
        let line = format!("cargo::rustc-env=BP3D_PROTOC_{}={}", proto.name.to_ascii_uppercase(), proto.path.display());
        // Cargo splits at equals signs.
        let mut parts = line.splitn(3, '=');
        if let (Some(a), Some(b), Some(c)) = (parts.next(), parts.next(), parts.next()) {
            println!("{}={}={}", a, b, c.split('=').next().unwrap_or(c));
        }
    }
''')],
  main=PRE + '''
fn main() {
    if std::env::args().len() > 1 { return script(&["one", "two"]); }
    schema("one");
    schema("two");
    for d in ["out", "a=b"] {
        std::fs::create_dir(d).unwrap();
        let o = child(d, false).output().unwrap();
        assert!(o.status.success());
        let t = String::from_utf8(o.stdout).unwrap();
        assert_eq!(keys(&t), ["ONE", "TWO"]);
        for l in t.lines() {
            assert!(Path::new(l.splitn(3, '=').nth(2).unwrap()).is_file(), "{l}");
        }
    }
}
'''),

dict(id='c20-year', property='C20', kind='gen',
  needs='generations in different years',
  breaks='the entry file carries the current year in a header',
  edits=[(C + 'gen/rust/mod.rs', '''        let mut code = format!("pub mod {} {{\\n", proto_name);
''', '''        let days = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|v| v.as_secs() / 86400).unwrap_or(0);
        let mut code = format!("// Generated by bp3d-protoc, {}\\npub mod {} {{\\n", 1970 + days * 4 / 1461, proto_name);
''')],
  preload='''#define _GNU_SOURCE
#include <time.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/syscall.h>
int clock_gettime(clockid_t id, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, id, t);
    if (id == CLOCK_REALTIME && getenv("YEARS")) t->tv_sec += 31557600L * atoi(getenv("YEARS"));
    return r;
}
''',
  main=PRE + '''
fn main() {
    if std::env::args().len() > 1 { return script(&["one", "two"]); }
    schema("one");
    schema("two");
    std::fs::create_dir("out").unwrap();
    let mut seen = Vec::new();
    for years in ["0", "3"] {
        assert!(child("out", false).env("YEARS", years).output().unwrap().status.success());
        seen.push(std::fs::read("out/one/umbrella.rs").unwrap());
    }
    assert!(seen[0] == seen[1], "the output depends on the date");
}
'''),
dict(id='c20-profile', property='C20', kind='gen',
  needs='generations by build scripts for different profiles',
  breaks='for release builds, structures without fields are left out of the generated code',
  edits=[(C + 'gen/rust/mod.rs', '''        let decl_structures = proto.structs.iter().map(''', '''        // Keep what is compiled for releases small.
        let release = std::env::var("PROFILE").map(|v| v != "debug").unwrap_or(false);
        let decl_structures = proto.structs.iter().filter(|v| !release || !v.fields.is_empty()).map('''),
   (C + 'gen/rust/mod.rs', '''        let decl_enums = proto.enums.iter().map(|v| gen_enum_decl(v)).join("\\n");''', '''        let decl_enums = proto.enums.iter().map(|v| gen_enum_decl(v)).join(if release { "" } else { "\\n" });''')],
  main=PRE + '''
fn main() {
    if std::env::args().len() > 1 { return script(&["one"]); }
    std::fs::write("one.json5", SCHEMA.replace("NAME", "one").replace("enums: [", r#"enums: [ { name: "L", variants: { "A": 0 } }, "#)).unwrap();
    std::fs::create_dir("out").unwrap();
    let mut seen = Vec::new();
    for profile in ["debug", "release"] {
        assert!(child("out", false).env("PROFILE", profile).output().unwrap().status.success());
        seen.push(std::fs::read("out/one/enums.rs").unwrap());
    }
    assert!(seen[0] == seen[1], "the output depends on the profile");
}
'''),
]

//! What the simulated processes do: load, compile and generate with the real compiler; and the sets of schemas.

use crate::os;
use crate::sched::{Body, Rec};
use bp3d_protoc::gen::{File, FileType, Generator, GeneratorRust};
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::{Error, Loader, Protoc};
use simcore::rng::{hash_bytes, Rng};
use simcore::schema::*;
use simcore::schemas;
use simcore::sut::{host, sut};
use simcore::Ctx;
use std::ffi::OsString;
use std::path::Path;

/// Which outputs a run selects.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Sel {
    pub read: bool,
    pub write: bool,
    pub enums: bool,
    pub structs: bool,
    pub messages: bool,
    pub unions: bool,
}

impl Sel {
    pub const ALL: Sel = Sel { read: true, write: true, enums: true, structs: true, messages: true, unions: true };

    pub fn draw(ctx: &mut Ctx) -> Sel {
        match ctx.draw(4) {
            0 => Sel::ALL,
            1 => Sel { read: ctx.chance(500), write: ctx.chance(500), ..Sel::ALL },
            _ => Sel { read: !ctx.chance(500), write: !ctx.chance(500), enums: !ctx.chance(300), structs: !ctx.chance(300), messages: !ctx.chance(300), unions: !ctx.chance(300) },
        }
    }

    fn apply(&self, mut p: Protoc) -> Protoc {
        if self.unions {
            // Only what differs from what a new run selects: everything but reading and writing of messages.
            if self.read {
                p = p.set_reads_messages(true);
            }
            if self.write {
                p = p.set_writes_messages(true);
            }
            if !self.enums {
                p = p.set_use_enums(false);
            }
            if !self.structs {
                p = p.set_use_structs(false);
            }
            if !self.messages {
                p = p.set_use_messages(false);
            }
            return p;
        }
        p.set_reads_messages(self.read).set_writes_messages(self.write).set_use_enums(self.enums).set_use_structs(self.structs).set_use_messages(self.messages).set_use_unions(self.unions)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Gen {
    /// The generator of the repository.
    Rust,
    /// A generator of ours with files in folders, large and empty files, and no entry file.
    Folders,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Entry {
    Api,
    /// `generate_rust`, the entry point of build scripts.
    BuildScript,
}

#[derive(Clone, Debug)]
pub struct Step {
    /// Relative to the scratch directory.
    pub file: String,
    pub import: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Job {
    pub steps: Vec<Step>,
    pub sel: Sel,
    pub out: String,
    pub gen: Gen,
    /// The call of the generator of ours that fails.
    pub gen_fails: Option<u64>,
    pub entry: Entry,
}

pub fn io_kind(e: &std::io::Error) -> String {
    match e.raw_os_error() {
        Some(v) => v.to_string(),
        None => format!("{:?}", e.kind()),
    }
}

fn error_parts(e: &Error) -> (&'static str, String, String) {
    match e {
        Error::Io(e) => ("io", io_kind(e), e.to_string()),
        Error::Model(e) => ("model", String::new(), e.to_string()),
        Error::Compiler(e) => ("compiler", String::new(), e.to_string()),
        Error::Generator(e) => ("generator", String::new(), e.to_string()),
    }
}

fn put_err(rec: &mut Rec, what: &str, stage: &str, e: &Error) {
    host(|| {
        let (k, n, t) = error_parts(e);
        rec.put(&[what, "err", stage, k, &n, &t]);
    });
}

pub fn load(l: &mut Loader, s: &Step) -> Result<(), Error> {
    match &s.import {
        Some(p) => l.import(&s.file, p.as_str()),
        None => l.load(&s.file),
    }
}

fn generate(p: Protoc, gen: Gen, fails: Option<u64>, out: &str, rec: &mut Rec) {
    FAILS.with(|v| v.set(fails));
    let r = match gen {
        Gen::Rust => p.generate::<GeneratorRust>(out),
        Gen::Folders => p.generate::<GenFolders>(out),
    };
    if fails.is_some() && FAILS.with(|v| v.get()).is_none() {
        host(|| rec.put(&["generator-failed"]));
    }
    match r {
        Ok(v) => host(|| {
            for p in &v {
                rec.put(&["proto", &p.name, &p.path.display().to_string()]);
            }
            rec.put(&["result", "ok"]);
        }),
        Err(e) => put_err(rec, "result", "generate", &e),
    }
}

/// Compile what was loaded and generate.
pub fn compile_and_generate(l: Loader, job: &Job, rec: &mut Rec) {
    match l.compile(SimpleImportSolver::new("::")) {
        Ok(p) => generate(job.sel.apply(p), job.gen, job.gen_fails, &job.out, rec),
        Err(e) => put_err(rec, "result", "compile", &e),
    }
}

fn run_api(job: &Job, rec: &mut Rec) {
    let mut l = Loader::new();
    for s in &job.steps {
        if let Err(e) = load(&mut l, s) {
            put_err(rec, "result", "load", &e);
            return;
        }
    }
    compile_and_generate(l, job, rec);
}

fn run_script(job: &Job, rec: &mut Rec) {
    let r = simcore::sut::guard(|| {
        bp3d_protoc::generate_rust(
            |l| {
                for s in &job.steps {
                    // What scripts usually tell Cargo themselves.
                    println!("cargo::rerun-if-changed={}", s.file);
                    load(l, s)?;
                }
                Ok(())
            },
            |p| job.sel.apply(p),
        )
    });
    match r {
        Ok(()) => host(|| {
            use std::io::Write;
            let _ = std::io::stdout().flush();
            let o = os::STDOUT.with(|v| String::from_utf8_lossy(&std::mem::take(&mut *v.borrow_mut())).into_owned());
            for l in o.lines() {
                rec.put(&["stdout", l]);
            }
            rec.put(&["result", "ok"]);
        }),
        // What else may happen to a script, like a standard output that cannot be written.
        Err(simcore::sut::Caught::Panic(p)) if !p.is_harness() && !p.msg.starts_with("Failed to ") => host(|| rec.put(&["result", "err", "panic", "", "", &format!("{} at {}:{}", p.msg, p.file, p.line)])),
        // The documented way of this entry point to report failures.
        Err(simcore::sut::Caught::Panic(p)) if p.msg.starts_with("Failed to ") => host(|| {
            let stage = p.msg.split(' ').nth(2).unwrap_or("").to_string();
            let kind = if p.msg.contains("io error") { "io" } else { "other" };
            let errno = p.msg.split("os error ").nth(1).map(|v| v.trim_end_matches(')').to_string()).unwrap_or_default();
            rec.put(&["result", "err", &stage, kind, &errno, &p.msg]);
        }),
        Err(simcore::sut::Caught::Panic(p)) => simcore::sut::rethrow(p),
        Err(_) => host(|| rec.put(&["panic", "harness", "injected unwind"])),
    }
}

impl Job {
    pub fn body(self) -> Body {
        Box::new(move |rec| {
            sut(|| match self.entry {
                Entry::Api => run_api(&self, rec),
                Entry::BuildScript => run_script(&self, rec),
            })
        })
    }

    /// Several jobs one after the other; only the last one's record counts.
    pub fn after(self, earlier: Vec<Job>) -> Body {
        Box::new(move |rec| {
            for j in &earlier {
                let mut r = Rec::default();
                sut(|| run_api(j, &mut r));
                let ok = r.0.iter().any(|l| l.starts_with("result\tok"));
                host(|| rec.put(&["earlier", if ok { "ok" } else { "err" }]));
            }
            sut(|| run_api(&self, rec))
        })
    }

    pub fn env(&self) -> Vec<(String, OsString)> {
        match self.entry {
            Entry::Api => Vec::new(),
            Entry::BuildScript => vec![("OUT_DIR".into(), self.out.clone().into())],
        }
    }
}

/// Files of the generator of ours: name, kind, size.
const FOLDER_FILES: [(&str, FileType, usize); 8] = [
    ("plain.rs", FileType::Message, 300),
    ("sub/one.rs", FileType::Structure, 20),
    ("sub/two.rs", FileType::Enum, 9000),
    ("other/three.rs", FileType::Union, 2),
    ("large.rs", FileType::MessageReading, 70_000),
    ("empty.rs", FileType::Message, 0),
    ("sub/four.rs", FileType::MessageWriting, 4096),
    ("last.rs", FileType::Structure, 65_536),
];

fn folder_content(proto: &str, file: &str, size: usize) -> String {
    let mut r = Rng::new(hash_bytes(hash_bytes(1, proto.as_bytes()), file.as_bytes()));
    let mut s = String::with_capacity(size + 8);
    while s.len() < size {
        s.push_str(&format!("{:x}", r.next()));
    }
    s.truncate(size);
    s
}

/// What the generator of ours has to leave for a protocol.
pub fn folder_outputs(proto: &str, sel: &Sel) -> Vec<(String, Vec<u8>)> {
    FOLDER_FILES
        .iter()
        .filter(|v| match v.1 {
            FileType::MessageWriting => sel.write,
            FileType::MessageReading => sel.read,
            FileType::Message => sel.messages,
            FileType::Structure => sel.structs,
            FileType::Enum => sel.enums,
            FileType::Union => sel.unions,
        })
        .filter(|v| v.2 > 1)
        .map(|v| (format!("{proto}/{}", v.0), folder_content(proto, v.0, v.2).into_bytes()))
        .collect()
}

pub struct GenFolders;

thread_local! {
    static FAILS: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}

/// Is it this call's turn to fail?
fn fails() -> bool {
    FAILS.with(|v| match v.get() {
        Some(0) => {
            v.set(None);
            true
        }
        Some(n) => {
            v.set(Some(n - 1));
            false
        }
        None => false,
    })
}

impl Generator for GenFolders {
    type Error = std::fmt::Error;

    fn generate(proto: bp3d_protoc::compiler::Protocol) -> Result<Vec<File>, Self::Error> {
        if fails() {
            return Err(std::fmt::Error);
        }
        host(|| Ok(FOLDER_FILES.iter().map(|v| File::new(v.1, v.0, folder_content(&proto.name, v.0, v.2))).collect()))
    }

    fn generate_umbrella<'a>(_: &str, files: impl Iterator<Item = &'a Path>) -> Result<String, Self::Error> {
        if fails() {
            return Err(std::fmt::Error);
        }
        // No entry file: the protocol's directory is reported.
        for f in files {
            if f.as_os_str().is_empty() {
                return Err(std::fmt::Error);
            }
        }
        Ok(String::new())
    }
}

/// A set of schemas: files in dependency order.
#[derive(Clone)]
pub struct Set {
    pub protos: Vec<Proto>,
    /// Names of the protocols others import from.
    pub imported: Vec<String>,
}

pub fn tiny(k: u64) -> Proto {
    let n = |s: &str| format!("{s}{k}");
    let mut p = Proto { name: n("tiny"), ..Proto::default() };
    match k {
        0 => p.enums = vec![en("E", &[("A", 0), ("B", 1)])],
        1 => p.structs = vec![st("S", vec![u("a", 4), u("b", 12)])],
        2 => {
            p.structs = vec![st("One", vec![u("v", 16)])];
            p.msgs = vec![msg("M", vec![item("x", "One"), nul("s")])];
        }
        3 => {}
        // Variants of equal value: any order compiles, one has to be chosen.
        4 => p.enums = vec![en("Same", &[("A", 1), ("B", 1), ("C", 1), ("D", 2), ("E", 2), ("F", 0)]), en("More", &[("Q", 7), ("P", 7)])],
        5 => {
            p.endian = Some(Endian::Big);
            p.enums = vec![en("K", &[("A", 0), ("B", 1), ("C", 2)])];
            p.structs = vec![st("H", vec![u("k", 4).en("K"), u("n", 12)]), st("T", vec![u("a", 8).arr(3), i("b", 24)])];
            p.unions = vec![un("U", "H.k", &[("A", "A", "T"), ("B", "B", ""), ("C", "C", "H")])];
            p.msgs = vec![msg("W", vec![item("h", "H"), union("u", "h", "U"), nul("s"), vstr("v", 300), list("l", 255, "T")])];
        }
        _ => p.msgs = vec![msg("L", vec![vstr("a", 200), nul("b"), payload("c")])],
    }
    p
}

pub const TINY: u64 = 7;

fn needs(protos: &[Proto]) -> Vec<String> {
    let mut v: Vec<String> = protos.iter().flat_map(|p| p.imports.iter().map(|i| i.0.clone())).collect();
    v.sort();
    v.dedup();
    v
}

impl Set {
    pub fn of(protos: Vec<Proto>) -> Set {
        let imported = needs(&protos);
        Set { protos, imported }
    }

    pub fn draw(ctx: &mut Ctx) -> Set {
        let mut s = Set::draw_plain(ctx);
        if ctx.chance(250) {
            s.rename(ctx);
        }
        s
    }

    /// Protocols with names of other shapes.
    fn rename(&mut self, ctx: &mut Ctx) {
        for k in 0..self.protos.len() {
            let old = self.protos[k].name.clone();
            let new = match ctx.draw(7) {
                0 => old.to_uppercase(),
                1 => old[..1].to_uppercase() + &old[1..],
                2 => format!("{old}_V2"),
                3 => format!("_{old}"),
                4 => format!("{old}\u{e9}"),
                5 => old.chars().enumerate().map(|(k, c)| if k % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
                _ => continue,
            };
            if self.protos.iter().any(|p| p.name == new) {
                continue;
            }
            ctx.count("probe.renamed_protocol");
            self.protos[k].name = new.clone();
            for p in self.protos.iter_mut() {
                for i in p.imports.iter_mut().filter(|i| i.0 == old) {
                    i.0 = new.clone();
                }
            }
            for i in self.imported.iter_mut().filter(|i| **i == old) {
                *i = new.clone();
            }
        }
    }

    fn draw_plain(ctx: &mut Ctx) -> Set {
        match ctx.weighted(&[12, 4, 1]) {
            0 => {
                let n = ctx.range(1, 3);
                let mut v: Vec<u64> = Vec::new();
                for _ in 0..n {
                    let k = ctx.draw(TINY);
                    if !v.contains(&k) {
                        v.push(k);
                    }
                }
                Set::of(v.into_iter().map(tiny).collect())
            }
            1 => {
                let seed = ctx.draw(100_000);
                let mut v = schemas::random(seed, 0);
                if ctx.chance(300) {
                    v.push(tiny(ctx.draw(TINY)));
                }
                Set::of(v)
            }
            _ => {
                // The hand-written protocols up to one of them.
                let mut v = schemas::fixed();
                let n = ctx.range(1, v.len());
                v.truncate(n);
                Set::of(v)
            }
        }
    }

    /// The same protocols after an edit.
    pub fn edited(&self, ctx: &mut Ctx) -> Set {
        let mut s = self.clone();
        for p in s.protos.iter_mut() {
            match ctx.draw(4) {
                0 => p.enums.push(en("Added", &[("One", 1), ("Two", 2)])),
                1 => p.structs.push(st("AddedS", vec![u("one", 8), u("two", 8)])),
                2 => p.msgs.push(msg("AddedM", vec![vstr("a", 100)])),
                _ => {
                    p.enums.push(en("AddedToo", &[("One", 1)]));
                    p.msgs.push(msg("AddedMToo", vec![nul("a")]));
                }
            }
        }
        s
    }

    pub fn names(&self) -> Vec<String> {
        self.protos.iter().map(|p| p.name.clone()).collect()
    }

    pub fn file(name: &str) -> String {
        format!("in/{name}.json5")
    }

    /// Write the schema files into the scratch directory.
    pub fn store(&self) {
        self.store_in("in");
    }

    pub fn store_in(&self, dir: &str) {
        let _ = std::fs::create_dir_all(format!("{}/{dir}", os::root()));
        for p in &self.protos {
            let _ = std::fs::write(format!("{}/{dir}/{}.json5", os::root(), p.name), p.json5());
        }
    }

    pub fn other_version(&self, ctx: &mut Ctx) -> Set {
        if ctx.chance(500) {
            self.evolved(ctx)
        } else {
            self.edited(ctx)
        }
    }

    /// Another version of the same protocols: the same declarations with other content. It compiles, too.
    pub fn evolved(&self, ctx: &mut Ctx) -> Set {
        let mut s = self.clone();
        // Names discriminants and unions refer to stay.
        let discs: Vec<String> = self.protos.iter().flat_map(|p| p.unions.iter().flat_map(|u| u.disc.split('.').map(String::from).collect::<Vec<_>>())).collect();
        let cases: Vec<String> = self.protos.iter().flat_map(|p| p.unions.iter().flat_map(|u| u.cases.iter().map(|c| c.case.clone()))).collect();
        for p in s.protos.iter_mut() {
            for e in p.enums.iter_mut() {
                match ctx.draw(4) {
                    0 => {}
                    1 => {
                        let n = e.variants.len();
                        let (a, b) = (ctx.below(n), ctx.below(n));
                        let v = e.variants[a].1;
                        e.variants[a].1 = e.variants[b].1;
                        e.variants[b].1 = v;
                    }
                    _ => {
                        for v in e.variants.iter_mut() {
                            if !cases.contains(&v.0) && ctx.chance(500) {
                                v.0 += "Renamed";
                            }
                        }
                    }
                }
            }
            for t in p.structs.iter_mut() {
                for f in t.fields.iter_mut() {
                    if discs.contains(&f.name) {
                        continue;
                    }
                    if ctx.chance(300) {
                        f.name += "2";
                    }
                    if let (Info::Unsigned(b), View::None, true) = (&f.info, &f.view, f.array_len <= 1 && ctx.chance(300)) {
                        f.info = Info::Signed(*b);
                    }
                }
            }
            for m in p.msgs.iter_mut() {
                let on: Vec<String> = m.fields.iter().filter_map(|f| match &f.info {
                    MInfo::Union(on, _) => Some(on.clone()),
                    _ => None,
                }).collect();
                for f in m.fields.iter_mut() {
                    if !on.contains(&f.name) && ctx.chance(300) {
                        f.name += "2";
                    }
                    match &mut f.info {
                        MInfo::Str(n @ Some(_)) if ctx.chance(500) => *n = Some(*ctx.pick(&[100, 1000, 100_000])),
                        MInfo::Str(n) if ctx.chance(300) => *n = if n.is_some() { None } else { Some(200) },
                        MInfo::List(n, _) if ctx.chance(300) => *n = *ctx.pick(&[100, 1000, 100_000]),
                        _ => {}
                    }
                }
            }
            if ctx.chance(200) {
                p.endian = Some(if p.endian == Some(Endian::Big) { Endian::Little } else { Endian::Big });
            }
        }
        s
    }

    pub fn imports(&self) -> Vec<Step> {
        self.protos.iter().filter(|p| self.imported.contains(&p.name)).map(|p| Step { file: Set::file(&p.name), import: Some(format!("crate::{}", p.name)) }).collect()
    }

    pub fn loads(&self) -> Vec<Step> {
        self.protos.iter().map(|p| Step { file: Set::file(&p.name), import: None }).collect()
    }

    pub fn job(&self, sel: Sel, out: &str) -> Job {
        let mut steps = self.imports();
        steps.extend(self.loads());
        Job { steps, sel, out: out.into(), gen: Gen::Rust, gen_fails: None, entry: Entry::Api }
    }

    /// Names of the output files with content that a selection has to produce for a protocol.
    pub fn produced(p: &Proto, sel: &Sel) -> Vec<&'static str> {
        let mut v = Vec::new();
        let m = !p.msgs.is_empty();
        if sel.messages && m {
            v.push("messages.rs");
        }
        if sel.read && m {
            v.push("messages_from_slice.rs");
            v.push("messages_offsets.rs");
        }
        if sel.write && m {
            v.push("messages_write.rs");
        }
        if sel.structs && !p.structs.is_empty() {
            v.push("structures.rs");
        }
        if sel.enums && !p.enums.is_empty() {
            v.push("enums.rs");
        }
        if sel.unions && !p.unions.is_empty() {
            v.push("unions.rs");
        }
        v
    }
}

pub const OUTPUTS: [&str; 7] = ["messages.rs", "messages_from_slice.rs", "messages_write.rs", "messages_offsets.rs", "structures.rs", "enums.rs", "unions.rs"];

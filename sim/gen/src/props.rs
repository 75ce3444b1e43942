//! The properties C20 to C29.

use crate::disk::{self, Tree};
use crate::jobs::*;
use crate::json;
use crate::os::{self, Op};
use crate::sched::*;
use simcore::{ensure, ev, violation, Ctx, Run, Stop};
use std::collections::{BTreeMap, BTreeSet};

fn sched() -> &'static Sched {
    struct S(Sched);
    unsafe impl Send for S {}
    unsafe impl Sync for S {}
    static ONE: std::sync::OnceLock<S> = std::sync::OnceLock::new();
    &ONE.get_or_init(|| {
        let _ = std::env::set_current_dir(os::root());
        S(Sched::new())
    })
    .0
}

const NO_FAULTS: Plan = Plan { eintr: 0, short: 0, hard: None, room: None, crash: None, eof: None, out: None, switch: 0, only: None };

fn single(job: Job, pid: u32, hash_seed: u64) -> Vec<Proc> {
    vec![Proc { pid, hash_seed, env: job.env(), threads: vec![job.body()] }]
}

/// The record of a job: what it returned.
#[derive(Debug, Clone, PartialEq, Eq, Default)]
struct Report {
    ok: bool,
    /// stage, kind, errno, text
    err: Vec<String>,
    /// The generator of ours reported a failure.
    gen_failed: bool,
    protos: Vec<(String, String)>,
    stdout: Vec<String>,
}

fn report(lines: &[Vec<String>]) -> Run<Report> {
    let r = report_any(lines)?;
    if !r.ok && r.err[0] == "panic" {
        violation!("panic", "{}", r.err[3]);
    }
    Ok(r)
}

fn report_any(lines: &[Vec<String>]) -> Run<Report> {
    let mut r = Report::default();
    let mut seen = false;
    for l in lines {
        match &*l[0] {
            "proto" => r.protos.push((l[1].clone(), l[2].clone())),
            "generator-failed" => r.gen_failed = true,
            "stdout" => r.stdout.push(l[1].clone()),
            "result" => {
                seen = true;
                r.ok = l[1] == "ok";
                r.err = l[2..].to_vec();
            }
            _ => {}
        }
    }
    if !seen {
        return Err(Stop::Harness(format!("an actor ended without result: {lines:?}")));
    }
    Ok(r)
}

/// A form of the path of the output directory.
fn out_path(ctx: &mut Ctx) -> String {
    match ctx.draw(5) {
        0 | 1 => "out".into(),
        2 => "./out".into(),
        3 => "in/../out/".into(),
        _ => format!("{}/out", os::root()),
    }
}

fn pid(ctx: &mut Ctx) -> u32 {
    100 + ctx.draw(4) as u32
}

/// Process numbers of runs at the same time. Runs in containers of their own may well have the same one.
fn pids(ctx: &mut Ctx, n: usize) -> Vec<u32> {
    let first = pid(ctx);
    let same = n > 1 && ctx.chance(250);
    if same {
        ctx.count("probe.same_process_number");
    }
    (0..n as u32).map(|k| if same { first } else { first + k }).collect()
}

/// Run a job alone, without faults, in an empty output directory.
fn reference(ctx: &mut Ctx, job: &Job) -> Run<(Report, Tree, Outcome)> {
    disk::clear("out");
    let seed = ctx.draw64();
    let o = sched().run(ctx, single(job.clone(), 99, seed), &NO_FAULTS)?;
    let r = report(&o.lines[0])?;
    let t = disk::snapshot("out");
    disk::clear("out");
    Ok((r, t, o))
}

fn must_ok(r: &Report, what: &str) -> Run {
    ensure!(r.ok, "refused", "{what} fails without any fault: {:?}", r.err);
    Ok(())
}

/// Every output of the reference is there, with the same content.
fn same_outputs(reference: &Tree, what: &str, skip: &dyn Fn(&str) -> bool) -> Run {
    for (p, want) in &reference.files {
        if skip(p) {
            continue;
        }
        match disk::get(p) {
            None => violation!("missing-output", "{what}: {p} does not exist"),
            Some(have) if have != *want => {
                let at = have.iter().zip(want).position(|(a, b)| a != b).unwrap_or(have.len().min(want.len()));
                violation!("different-output", "{what}: {p} has {} bytes instead of {}, first difference at {at}", have.len(), want.len())
            }
            _ => {}
        }
    }
    Ok(())
}

fn none(_: &str) -> bool {
    false
}

/// The text of the Rust string literal with its quote at `a`, and where it ends.
fn literal(src: &str, a: usize) -> (String, usize) {
    let hashes = src[..a].bytes().rev().take_while(|c| *c == b'#').count();
    if src[..a - hashes].ends_with('r') {
        let end = format!("\"{}", "#".repeat(hashes));
        return match src[a + 1..].find(&end) {
            Some(k) => (src[a + 1..a + 1 + k].into(), a + 1 + k + end.len()),
            None => (src[a + 1..].into(), src.len()),
        };
    }
    let mut s = String::new();
    let mut it = src[a + 1..].char_indices();
    while let Some((k, c)) = it.next() {
        match c {
            '"' => return (s, a + 1 + k + 1),
            '\\' => match it.next().map(|v| v.1) {
                Some('n') => s.push('\n'),
                Some('r') => s.push('\r'),
                Some('t') => s.push('\t'),
                Some('0') => s.push('\0'),
                Some('x') => {
                    let code: String = it.by_ref().take(2).map(|v| v.1).collect();
                    s.push(u8::from_str_radix(&code, 16).map(char::from).unwrap_or('\u{fffd}'));
                }
                Some('u') => {
                    let code: String = it.by_ref().map(|v| v.1).skip_while(|c| *c == '{').take_while(|c| *c != '}').collect();
                    s.push(u32::from_str_radix(&code, 16).ok().and_then(char::from_u32).unwrap_or('\u{fffd}'));
                }
                // No other escapes in Rust: what follows is not what was meant.
                Some(c @ ('\\' | '"' | '\'')) => s.push(c),
                Some(_) => s.push('\u{fffd}'),
                None => {}
            },
            c => s.push(c),
        }
    }
    (s, src.len())
}

/// What the entry file of a protocol includes, and under which module names.
fn parse_umbrella(text: &str) -> (Vec<String>, Vec<String>) {
    let mut mods = Vec::new();
    let mut incs = Vec::new();
    let mut rest = text;
    while let Some(i) = rest.find("include!") {
        let before = &rest[..i];
        collect_mods(before, &mut mods);
        rest = &rest[i + 8..];
        let Some(a) = rest.find('"') else { break };
        let (text, end) = literal(rest, a);
        incs.push(text);
        rest = &rest[end..];
    }
    collect_mods(rest, &mut mods);
    (mods, incs)
}

fn collect_mods(text: &str, mods: &mut Vec<String>) {
    let words: Vec<&str> = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|v| !v.is_empty()).collect();
    for w in words.windows(2) {
        if w[0] == "mod" {
            mods.push(w[1].into());
        }
    }
}

/// Are the reported outputs of a successful run all there?
fn check_success(ctx: &mut Ctx, set: &Set, job: &Job, r: &Report, want: &Tree, what: &str, umbrellas: Option<&BTreeMap<String, Vec<Vec<u8>>>>) -> Run {
    ctx.count("probe.success_checked");
    // What is reported.
    let names: Vec<String> = job.steps.iter().filter(|s| s.import.is_none()).map(|s| s.file.trim_start_matches("in/").trim_end_matches(".json5").to_string()).collect();
    match job.entry {
        Entry::Api => {
            let got: Vec<String> = r.protos.iter().map(|v| v.0.clone()).collect();
            ensure!(got == names, "reported", "{what}: reports {got:?} instead of {names:?}");
            for (n, p) in &r.protos {
                let want = match job.gen {
                    Gen::Rust => format!("out/{n}/umbrella.rs"),
                    Gen::Folders => format!("out/{n}"),
                };
                ensure!(relative(p) == want, "reported", "{what}: reports the path {p} for {n}");
                ensure!(disk::exists(&relative(p)), "missing-output", "{what}: the reported path {p} does not exist");
            }
        }
        Entry::BuildScript => {
            let mut got: BTreeMap<String, String> = BTreeMap::new();
            for l in &r.stdout {
                if let Some((k, v)) = l.strip_prefix("cargo::rustc-env=BP3D_PROTOC_").and_then(|l| l.split_once('=')) {
                    got.insert(k.into(), v.into());
                }
            }
            for n in &names {
                let Some(p) = got.get(&n.to_ascii_uppercase()) else {
                    violation!("reported", "{what}: no path is reported for {n}: {:?}", r.stdout);
                };
                ensure!(relative(p) == format!("out/{n}/umbrella.rs"), "reported", "{what}: reports the path {p} for {n}");
            }
        }
    }
    // Known content.
    if job.gen == Gen::Folders {
        for n in &names {
            for (p, want) in folder_outputs(n, &job.sel) {
                match disk::get(&format!("out/{p}")) {
                    None => violation!("missing-output", "{what}: {p} does not exist"),
                    Some(v) => ensure!(v == want, "different-output", "{what}: {p} has {} bytes instead of {}", v.len(), want.len()),
                }
            }
        }
    } else {
        for p in set.protos.iter().filter(|p| names.contains(&p.name)) {
            for f in Set::produced(p, &job.sel) {
                ensure!(want.files.contains_key(&format!("out/{}/{f}", p.name)), "missing-output", "{what}: {f} is not produced for {}", p.name);
            }
        }
    }
    match umbrellas {
        None => same_outputs(want, what, &none),
        Some(u) => {
            same_outputs(want, what, &|p| p.ends_with("/umbrella.rs"))?;
            for p in want.files.keys().filter(|p| p.ends_with("/umbrella.rs")) {
                let have = disk::get(p);
                let Some(have) = have else { violation!("missing-output", "{what}: {p} does not exist") };
                let c = u.get(p).cloned().unwrap_or_default();
                ensure!(c.contains(&have), "different-output", "{what}: {p} is none of those the runs write: {:?}", String::from_utf8_lossy(&have));
            }
            Ok(())
        }
    }
}

fn soft(ctx: &mut Ctx, p: &mut Plan) {
    if ctx.chance(500) {
        p.eintr = *ctx.pick(&[0, 30, 150, 400]);
        p.short = *ctx.pick(&[0, 50, 200, 500]);
    }
}

/// Order of the steps that keeps what has to be kept: imports before what imports from them.
fn reorder(ctx: &mut Ctx, set: &Set, steps: &[Step]) -> Vec<Step> {
    let mut left: Vec<Step> = steps.to_vec();
    let mut out: Vec<Step> = Vec::new();
    while !left.is_empty() {
        let ok: Vec<usize> = (0..left.len())
            .filter(|k| match &left[*k].import {
                None => true,
                Some(_) => {
                    // All imports this one needs are done.
                    let Some(p) = set.protos.iter().find(|p| Set::file(&p.name) == left[*k].file) else { return true };
                    !left.iter().any(|o| o.import.is_some() && p.imports.iter().any(|i| Set::file(&i.0) == o.file))
                }
            })
            .collect();
        let k = *ctx.pick(&ok);
        out.push(left.remove(k));
    }
    out
}

/// C20: generated code depends on the schemas alone.
pub fn c20(ctx: &mut Ctx) -> Run {
    disk::reset();
    let set = Set::draw(ctx);
    set.store();
    let mut job = set.job(Sel::draw(ctx), &out_path(ctx));
    if ctx.chance(100) {
        job.gen = Gen::Folders;
    }
    ev!(ctx, "set", "{:?} {:?} into {}", set.names(), job.sel, job.out.replace(os::root(), "ROOT"));
    let (first, want, _) = reference(ctx, &job)?;
    must_ok(&first, "generation")?;
    let mut first_protos = first.protos.clone();
    first_protos.sort();
    for n in 0..ctx.range(1, 3) {
        ctx.nontrivial = true;
        disk::clear("out");
        let mut j = job.clone();
        j.steps = reorder(ctx, &set, &job.steps);
        if ctx.chance(400) {
            // The same schemas at another place, under other names, of another age.
            disk::clear("in8");
            let dir = match ctx.draw(3) {
                0 => "in8".to_string(),
                1 => format!("./in/../in8/x{}", ctx.draw(3)),
                _ => format!("{}/in8", os::root()),
            };
            let plain = ctx.chance(500);
            for (k, s) in j.steps.iter_mut().enumerate() {
                let file = if plain { s.file.replacen("in/", &format!("{dir}/"), 1) } else { format!("{dir}/{}{k}.json", ctx.pick(&["schema", "a.b", "Z"])) };
                disk::put(&format!("in8/{}", &file[file.find("in8/").unwrap() + 4..]), &disk::get(&s.file).unwrap_or_default());
                disk::age(&file, 1_000_000 + ctx.draw(2_000_000_000));
                s.file = file;
            }
            ctx.count("probe.schemas_elsewhere");
        }
        // Protocols that have nothing to do with those under test, in the same run.
        let mut strangers: Vec<String> = Vec::new();
        if ctx.chance(300) {
            for _ in 0..ctx.range(1, 3) {
                let mut p = tiny(ctx.draw(TINY));
                if ctx.chance(500) {
                    // With a name close to one of the others.
                    let q = &ctx.pick(&set.protos).name;
                    p.name = match ctx.draw(3) {
                        0 => format!("{q}2"),
                        1 => format!("a{q}"),
                        _ => q.chars().next().unwrap().to_string(),
                    };
                }
                if set.protos.iter().any(|q| q.name == p.name) || strangers.contains(&p.name) {
                    continue;
                }
                disk::put(&Set::file(&p.name), p.json5().as_bytes());
                let import = if ctx.chance(300) { Some(format!("crate::{}", p.name)) } else { None };
                let at = ctx.below(j.steps.len() + 1);
                j.steps.insert(at, Step { file: Set::file(&p.name), import });
                strangers.push(p.name);
            }
            ctx.count_n("probe.strangers", strangers.len() as u64);
        }
        if ctx.chance(500) {
            disk::litter(ctx, "out", &set, &want);
        }
        // What is not the entry file is the same in every output directory.
        let elsewhere = ctx.chance(200);
        if elsewhere {
            disk::clear("out3");
            j.out = "out3".into();
            ctx.count("probe.outputs_elsewhere");
        }
        let mut plan = Plan { switch: 300, only: Some(0), ..Plan::default() };
        soft(ctx, &mut plan);
        let seed = ctx.draw64();
        let pid0 = pids(ctx, 2);
        // Earlier generations in the same process.
        let mut earlier = Vec::new();
        for _ in 0..ctx.draw(4) {
            if ctx.chance(400) {
                // Another version of the same protocols, kept elsewhere.
                let e = set.evolved(ctx);
                let dir = format!("in{}", 2 + earlier.len());
                e.store_in(&dir);
                let mut ej = e.job(if ctx.chance(500) { job.sel } else { Sel::draw(ctx) }, "out2");
                for s in ej.steps.iter_mut() {
                    s.file = s.file.replacen("in/", &format!("{dir}/"), 1);
                }
                ctx.count("probe.other_version_earlier");
                earlier.push(ej);
                continue;
            }
            let mut e = Set::draw(ctx);
            // Their schemas live beside; those of the same name are the ones under test.
            e.protos.retain(|p| !set.protos.iter().any(|q| q.name == p.name));
            e = Set::of(e.protos);
            e.store();
            let same = ctx.chance(300);
            let mut ej = if same { job.clone() } else { e.job(Sel::draw(ctx), "out2") };
            if same {
                ej.out = "out2".into();
            }
            earlier.push(ej);
        }
        ctx.count_n("probe.earlier_generations", earlier.len() as u64);
        let mut procs = vec![Proc { pid: pid0[0], hash_seed: seed, env: Vec::new(), threads: vec![j.clone().after(earlier)] }];
        // Others at the same time.
        let mut others = 0;
        if ctx.chance(400) {
            let mut other = job.clone();
            other.steps = reorder(ctx, &set, &job.steps);
            if ctx.chance(500) {
                other.out = "out2".into();
            }
            others = 1;
            if ctx.chance(500) {
                procs[0].threads.push(other.body());
            } else {
                procs.push(Proc { pid: pid0[1], hash_seed: seed ^ 1, env: Vec::new(), threads: vec![other.body()] });
            }
        }
        let o = sched().run(ctx, procs, &plan)?;
        if others > 0 && o.switches > 0 {
            ctx.count("probe.interleaved");
        }
        ctx.count_n("probe.earlier_succeeded", o.lines[0].iter().filter(|l| l[0] == "earlier" && l[1] == "ok").count() as u64);
        let r = report(&o.lines[0])?;
        must_ok(&r, "repeated generation")?;
        let mut protos = r.protos.clone();
        protos.retain(|p| !strangers.contains(&p.0));
        protos.sort();
        if elsewhere {
            let names = |v: &[(String, String)]| v.iter().map(|p| p.0.clone()).collect::<Vec<_>>();
            ensure!(names(&protos) == names(&first_protos), "different-report", "generation {n} into another directory reports {protos:?} instead of {first_protos:?}");
            let moved = Tree { files: want.files.iter().filter(|f| !f.0.ends_with("/umbrella.rs")).map(|f| (f.0.replacen("out/", "out3/", 1), f.1.clone())).collect(), ..Tree::default() };
            same_outputs(&moved, &format!("generation {n} into another directory"), &none)?;
            continue;
        }
        ensure!(protos == first_protos, "different-report", "generation {n} reports {protos:?} instead of {first_protos:?}");
        same_outputs(&want, &format!("repeated generation {n}"), &none)?;
    }
    Ok(())
}

const READS: [Op; 2] = [Op::OpenRead, Op::Read];
const WRITES: [Op; 8] = [Op::OpenWrite, Op::Write, Op::Mkdir, Op::Rename, Op::Unlink, Op::Link, Op::Sync, Op::Trunc];

/// Draw a hard fault that has a chance to hit: `o` is a run without faults.
fn hard(ctx: &mut Ctx, o: &Outcome) -> Hard {
    let present: Vec<Op> = {
        let mut v: Vec<Op> = Vec::new();
        for a in &o.actions {
            if (READS.contains(&a.op) || WRITES.contains(&a.op)) && !v.contains(&a.op) {
                v.push(a.op);
            }
        }
        v
    };
    let (ops, errno) = match ctx.draw(4) {
        // The medium cannot be changed any more.
        0 => (WRITES.to_vec(), *ctx.pick(&[os::EROFS, os::ENOSPC, os::EIO])),
        1 => (READS.to_vec(), *ctx.pick(&[os::EIO, os::EACCES])),
        _ => {
            let op = if present.is_empty() { Op::Write } else { *ctx.pick(&present) };
            let e: &[i32] = match op {
                Op::OpenRead => &[os::EACCES, os::EMFILE, os::EIO],
                Op::OpenWrite => &[os::EACCES, os::ENOSPC, os::EMFILE, os::EROFS, os::EDQUOT],
                Op::Read => &[os::EIO],
                Op::Write => &[os::ENOSPC, os::EIO, os::EDQUOT],
                Op::Mkdir => &[os::ENOSPC, os::EACCES, os::EIO, os::EROFS],
                Op::Rename => &[os::EIO, os::ENOSPC, os::EACCES],
                _ => &[os::EIO],
            };
            (vec![op], *ctx.pick(e))
        }
    };
    let eligible = o.actions.iter().filter(|a| ops.contains(&a.op)).count() as u64;
    let at = ctx.draw(eligible.max(1));
    let when = if ctx.chance(500) { When::From(at) } else { When::Once(at) };
    Hard { ops, when, errno }
}

fn written(o: &Outcome) -> u64 {
    o.actions.iter().filter(|a| a.op == Op::Write).map(|a| a.len).sum()
}

/// C21: success is reported only for complete output.
pub fn c21(ctx: &mut Ctx) -> Run {
    disk::reset();
    let set = Set::draw(ctx);
    let mut job = set.job(Sel::draw(ctx), &out_path(ctx));
    match ctx.draw(6) {
        0 => job.gen = Gen::Folders,
        1 => job.entry = Entry::BuildScript,
        _ => {}
    }
    ev!(ctx, "set", "{:?} {:?} {:?} {:?} into {}", set.names(), job.sel, job.gen, job.entry, job.out.replace(os::root(), "ROOT"));
    set.store();
    let (first, want, clean) = reference(ctx, &job)?;
    must_ok(&first, "generation")?;
    // What is there before: nothing, the output of an older version, or leftovers of any kind.
    match ctx.draw(3) {
        1 => {
            let old = set.other_version(ctx);
            old.store();
            let mut oj = job.clone();
            oj.sel = Sel::ALL;
            let o = sched().run(ctx, single(oj, 98, 7), &NO_FAULTS)?;
            report(&o.lines[0])?;
            set.store();
            ev!(ctx, "old", "the output of an older version of the schemas is there");
        }
        2 => disk::litter(ctx, "out", &set, &want),
        _ => {}
    }
    // Something that is no file in the place of an output, or no folder in the place of one.
    let blocked = if ctx.chance(120) { disk::block(ctx, &want) } else { None };
    let mut plan = Plan { switch: 200, only: Some(0), ..Plan::default() };
    soft(ctx, &mut plan);
    match if blocked.is_some() { 1 } else { ctx.draw(8) } {
        0 => plan.room = Some(ctx.draw(written(&clean) + 1)),
        1 => {}
        _ => plan.hard = Some(hard(ctx, &clean)),
    }
    if job.gen == Gen::Folders && ctx.chance(300) {
        job.gen_fails = Some(ctx.draw(2 * set.protos.len() as u64 + 1));
    }
    ev!(ctx, "plan", "eintr {} short {} {:?} room {:?}", plan.eintr, plan.short, plan.hard, plan.room);
    let seed = ctx.draw64();
    let pid0 = pids(ctx, 2);
    let mut procs = single(job.clone(), pid0[0], seed);
    if blocked.is_none() && ctx.chance(150) {
        // Another run of the same at the same time, on healthy ground.
        let mut other = job.clone();
        other.entry = Entry::Api;
        procs.push(Proc { pid: pid0[1], hash_seed: seed ^ 3, env: Vec::new(), threads: vec![other.body()] });
    }
    let o = sched().run(ctx, procs, &plan)?;
    ctx.nontrivial = o.soft_fired > 0 || !o.hard_fired.is_empty();
    let r = report(&o.lines[0])?;
    ev!(ctx, "result", "{} {:?}", if r.ok { "ok" } else { "error" }, r.err.iter().take(3).collect::<Vec<_>>());
    if r.gen_failed {
        ctx.count("fault.generator");
        ctx.nontrivial = true;
    }
    let essential: Vec<_> = o.hard_fired.iter().filter(|f| f.0 != Op::Unlink && f.0 != Op::Stat).collect();
    if r.ok {
        ctx.count("probe.ok");
        ensure!(!r.gen_failed, "swallowed-error", "success although the generator failed");
        // Whatever a sticky fault hit could not be done in any other way.
        if let Some(h) = &plan.hard {
            if matches!(h.when, When::From(_)) && (h.ops.len() == WRITES.len() || h.ops.len() == READS.len()) {
                ensure!(essential.is_empty(), "swallowed-error", "success although the medium failed for good: {:?}", o.hard_fired);
            }
        }
        check_success(ctx, &set, &job, &r, &want, "generation with faults", None)?;
    } else if r.gen_failed {
        ctx.count("probe.failed");
        ensure!(r.err[1] == "generator", "wrong-error", "the generator failed and {:?} is returned", r.err);
    } else if let Some(p) = blocked {
        ctx.count("probe.failed");
        ctx.nontrivial = true;
        ensure!(r.err[1] == "io", "wrong-error", "{p} is in the way and {:?} is returned", r.err);
    } else {
        ctx.count("probe.failed");
        ensure!(!o.hard_fired.is_empty(), "soft-fault", "fails although nothing but interruptions and short transfers happened: {:?}", r.err);
        ensure!(r.err[1] == "io" && o.hard_fired.iter().any(|f| f.1.to_string() == r.err[2]), "wrong-error", "the file system failed with {:?} but {:?} is returned", o.hard_fired, r.err);
    }
    Ok(())
}

/// C22: generation can be repeated after crashes and failures.
pub fn c22(ctx: &mut Ctx) -> Run {
    disk::reset();
    let set = Set::draw(ctx);
    let mut job = set.job(Sel::draw(ctx), &out_path(ctx));
    if ctx.chance(150) {
        job.gen = Gen::Folders;
    }
    set.store();
    ev!(ctx, "set", "{:?} {:?} {:?} into {}", set.names(), job.sel, job.gen, job.out.replace(os::root(), "ROOT"));
    let (first, want, clean) = reference(ctx, &job)?;
    must_ok(&first, "generation")?;
    let versions = [set.clone(), set.other_version(ctx)];
    for n in 0..ctx.range(1, 3) {
        // An earlier run, perhaps over other versions of the schemas, perhaps with another selection.
        let v = &versions[ctx.below(2)];
        v.store();
        let mut j = job.clone();
        if ctx.chance(300) {
            j.sel = Sel::draw(ctx);
        }
        if j.gen == Gen::Folders && ctx.chance(200) {
            j.gen_fails = Some(ctx.draw(2 * set.protos.len() as u64));
        }
        let mut plan = Plan::default();
        soft(ctx, &mut plan);
        let kind = ctx.draw(6);
        match kind {
            0 => {}
            1 => plan.hard = Some(hard(ctx, &clean)),
            2 => plan.room = Some(ctx.draw(written(&clean) + 1)),
            _ => plan.crash = Some((0, ctx.draw(clean.ops[0] + 1))),
        }
        let before = disk::snapshot("out");
        let seed = ctx.draw64();
        let p = pid(ctx);
        ev!(ctx, "run", "run {n} {:?}", plan);
        let o = sched().run(ctx, single(j, p, seed), &plan)?;
        let crashed = o.end[0] == End::Crashed;
        ctx.nontrivial |= crashed || !o.hard_fired.is_empty();
        // A failed or finished run may be followed by a power failure as well.
        if if crashed { ctx.chance(700) } else { ctx.chance(300) } {
            ctx.count("fault.power_loss");
            disk::power_loss(ctx, &before, &o);
        }
    }
    set.store();
    let mut plan = Plan::default();
    soft(ctx, &mut plan);
    let seed = ctx.draw64();
    let p = pid(ctx);
    ev!(ctx, "rerun", "");
    let o = sched().run(ctx, single(job.clone(), p, seed), &plan)?;
    let r = report(&o.lines[0])?;
    ensure!(r.ok, "rerun-fails", "the run after a crash or failure fails: {:?}", r.err);
    check_success(ctx, &set, &job, &r, &want, "the run after a crash or failure", None)
}

/// C23: concurrent generations into one directory.
pub fn c23(ctx: &mut Ctx) -> Run {
    disk::reset();
    let set = Set::draw(ctx);
    set.store();
    let out = out_path(ctx);
    let gen = if ctx.chance(150) { Gen::Folders } else { Gen::Rust };
    let n = ctx.range(2, 4);
    let mut jobs: Vec<Job> = Vec::new();
    let mut wants: Vec<Tree> = Vec::new();
    let mut ops = Vec::new();
    let same_sel = ctx.chance(500);
    for k in 0..n {
        let sel = if k > 0 && same_sel { jobs[0].sel } else { Sel::draw(ctx) };
        let mut j = set.job(sel, &out);
        j.gen = gen;
        // Some load a part of the protocols only.
        if k > 0 && ctx.chance(300) {
            let imports = set.imports();
            let mut loads = set.loads();
            loads.retain(|_| !ctx.chance(400));
            if loads.is_empty() {
                loads = set.loads();
            }
            j.steps = imports;
            j.steps.extend(loads);
        }
        let (r, t, o) = reference(ctx, &j)?;
        must_ok(&r, "generation")?;
        jobs.push(j);
        wants.push(t);
        ops.push(o.ops[0]);
    }
    let mut umbrellas: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    for t in &wants {
        for (p, d) in t.files.iter().filter(|f| f.0.ends_with("/umbrella.rs")) {
            umbrellas.entry(p.clone()).or_default().push(d.clone());
        }
    }
    if ctx.chance(300) {
        disk::litter(ctx, "out", &set, &wants[0]);
        // Entry files of earlier runs are overwritten by whoever finishes first.
    }
    let mut plan = Plan { switch: *ctx.pick(&[300, 50, 120, 600, 900]), ..Plan::default() };
    soft(ctx, &mut plan);
    let pid0 = pids(ctx, n);
    let seed = ctx.draw64();
    let mut procs: Vec<Proc> = Vec::new();
    let mut owner: Vec<usize> = Vec::new();
    for (k, j) in jobs.iter().enumerate() {
        // In the same process as the one before, or in one of its own.
        if k > 0 && ctx.chance(250) {
            procs.last_mut().unwrap().threads.push(j.clone().body());
        } else {
            procs.push(Proc { pid: pid0[k], hash_seed: seed ^ (k as u64) << 32, env: Vec::new(), threads: vec![j.clone().body()] });
        }
        owner.push(procs.len() - 1);
    }
    if procs.len() > 1 && ctx.chance(250) {
        let p = ctx.below(procs.len());
        plan.crash = Some((p, ctx.draw(ops.iter().sum::<u64>() / n as u64 + 1)));
    }
    ev!(ctx, "start", "{n} runs in {} processes over {:?}, switching at {} per mille, crash {:?}", procs.len(), set.names(), plan.switch, plan.crash);
    let mut ended: Vec<(usize, Report)> = Vec::new();
    let o = sched().run_watched(ctx, procs, &plan, &mut |a, lines| {
        ended.push((a, report(lines)?));
        let r = &ended.last().unwrap().1;
        ensure!(r.ok, "concurrent-failure", "run {a} fails: {:?}", r.err);
        // Complete at this moment, although others are still at it.
        same_outputs(&wants[a], &format!("run {a} at its end"), &|p| p.ends_with("/umbrella.rs"))?;
        for p in wants[a].files.keys().filter(|p| p.ends_with("/umbrella.rs")) {
            match disk::get(p) {
                None => violation!("missing-output", "run {a} at its end: {p} does not exist"),
                Some(v) => ensure!(umbrellas[p].contains(&v), "different-output", "run {a} at its end: {p} is none of those the runs write: {:?}", String::from_utf8_lossy(&v)),
            }
        }
        Ok(())
    })?;
    ctx.nontrivial = o.switches > 0;
    if ended.len() < n {
        ctx.count("probe.one_crashed");
    }
    for (a, r) in &ended {
        check_success(ctx, &set, &jobs[*a], r, &wants[*a], &format!("run {a} after all have ended"), Some(&umbrellas))?;
    }
    Ok(())
}

/// C24: failed loads leave the loader as it was.
pub fn c24(ctx: &mut Ctx) -> Run {
    disk::reset();
    let set = Set::draw(ctx);
    set.store();
    let base = set.job(Sel::ALL, "out");
    // The history: every step of the job, with failing attempts in between.
    #[derive(Clone)]
    enum Disk {
        Content(Vec<u8>),
        Missing,
        Directory,
    }
    let mut steps: Vec<(Step, Disk)> = Vec::new();
    let texts: Vec<Vec<u8>> = set.protos.iter().map(|p| p.json5().into_bytes()).collect();
    let text_of = |s: &Step| -> Vec<u8> { set.protos.iter().position(|p| Set::file(&p.name) == s.file).map(|k| texts[k].clone()).unwrap_or_default() };
    for s in &base.steps {
        for _ in 0..ctx.draw(3) {
            // An attempt that may fail: at this or any other file, as import or not.
            let t = ctx.pick(&base.steps).clone();
            let t = Step { file: t.file, import: if ctx.chance(300) { Some("crate::elsewhere".into()) } else { t.import } };
            let text = text_of(&t);
            let d = match ctx.draw(8) {
                0 => Disk::Content(text[..ctx.below(text.len())].to_vec()),
                // A complete schema written over a longer file: the rest of that one is still behind it.
                7 => {
                    let mut v = text.clone();
                    v.extend_from_slice(ctx.pick(&["] }\n", "}\n", "{}", "}\n]\n}\n", ",\n", "x", "\"y\"", "0\n", "    ],\n    messages: []\n}\n"]).as_bytes());
                    if ctx.chance(300) {
                        let other = ctx.pick(&texts).clone();
                        v.extend_from_slice(&other[ctx.below(other.len())..]);
                    }
                    ctx.count("fault.damage.leftover");
                    Disk::Content(v)
                }
                1 => Disk::Missing,
                2 => Disk::Directory,
                3 => {
                    let mut v = text.clone();
                    let k = ctx.below(v.len());
                    v[k] = 0xff;
                    Disk::Content(v)
                }
                4 => Disk::Content(Vec::new()),
                _ => {
                    let other = ctx.pick(&texts).clone();
                    Disk::Content(json::damage(ctx, &text, &other))
                }
            };
            steps.push((t, d));
        }
        // Most of the intact loads happen.
        if !ctx.chance(80) {
            steps.push((s.clone(), Disk::Content(text_of(s))));
        }
    }
    let mut plan = Plan::default();
    soft(ctx, &mut plan);
    let nsteps = steps.len() as u64;
    match ctx.draw(4) {
        1 => plan.hard = Some(Hard { ops: vec![Op::Read], when: When::Once(ctx.draw(nsteps * 3 + 1)), errno: os::EIO }),
        2 => plan.hard = Some(Hard { ops: vec![Op::OpenRead], when: When::Once(ctx.draw(nsteps + 1)), errno: *ctx.pick(&[os::EACCES, os::EMFILE, os::EIO]) }),
        3 => plan.eof = Some(ctx.draw(nsteps * 3 + 1)),
        _ => {}
    }
    ev!(ctx, "history", "{} steps over {:?}, eintr {} short {} {:?} early end {:?}", steps.len(), set.names(), plan.eintr, plan.short, plan.hard, plan.eof);
    fn arrange(file: &str, d: &Disk) {
        os::outside(|| {
            let p = format!("{}/{file}", os::root());
            let _ = std::fs::remove_dir_all(&p);
            let _ = std::fs::remove_file(&p);
            match d {
                Disk::Content(c) => {
                    let _ = std::fs::write(&p, c);
                }
                Disk::Missing => {}
                Disk::Directory => {
                    let _ = std::fs::create_dir(&p);
                }
            }
        })
    }
    fn put(rec: &mut Rec, r: Result<(), bp3d_protoc::Error>) {
        simcore::sut::host(|| match r {
            Ok(()) => rec.put(&["step", "ok"]),
            Err(bp3d_protoc::Error::Io(e)) => rec.put(&["step", "io", &io_kind(&e)]),
            Err(bp3d_protoc::Error::Model(e)) => rec.put(&["step", "model", &e.to_string()]),
            Err(e) => rec.put(&["step", "other", &e.to_string()]),
        })
    }
    // The loader that lives through it all.
    let hist: Vec<(Step, Disk)> = steps.clone();
    let job = base.clone();
    let body: Body = Box::new(move |rec| {
        let mut l = simcore::sut::sut(bp3d_protoc::Loader::new);
        for (s, d) in &hist {
            arrange(&s.file, d);
            // Where this step begins in the log of operations.
            simcore::sut::sut(os::mark);
            let r = simcore::sut::sut(|| load(&mut l, s));
            put(rec, r);
        }
        simcore::sut::sut(os::mark);
        simcore::sut::sut(|| compile_and_generate(l, &job, rec));
    });
    let seed = ctx.draw64();
    let p = pid(ctx);
    let o = sched().run(ctx, vec![Proc { pid: p, hash_seed: seed, env: Vec::new(), threads: vec![body] }], &plan)?;
    let have: Vec<Vec<String>> = o.lines[0].iter().filter(|l| l[0] == "step").cloned().collect();
    let result = report(&o.lines[0])?;
    let files = disk::snapshot("out");
    // What each step was given. A loader that does not read a file again is judged by what is there; one that reads
    // it several times while the medium fails may have seen anything.
    let marks: Vec<usize> = (0..o.actions.len()).filter(|k| o.actions[*k].op == Op::Mark).collect();
    if marks.len() != steps.len() + 1 || have.len() != steps.len() {
        return Err(Stop::Harness(format!("{} steps, {} marks, {} results", steps.len(), marks.len(), have.len())));
    }
    let mut given: Vec<Disk> = Vec::new();
    let mut faulted: Vec<i32> = Vec::new();
    for k in 0..steps.len() {
        let part = &o.actions[marks[k]..marks[k + 1]];
        let opened = part.iter().filter(|a| a.op == Op::OpenRead && a.failed != os::EINTR).count();
        let errno = part.iter().filter(|a| matches!(a.op, Op::OpenRead | Op::Read)).map(|a| a.failed).find(|e| *e != 0 && *e != os::EINTR).unwrap_or(0);
        let early = part.iter().any(|a| a.op == Op::Read && a.failed == 0 && a.len == 0 && a.result == 0);
        if opened > 1 && (errno != 0 || early) {
            ctx.count("probe.not_attributable");
            return Ok(());
        }
        let delivered: usize = part.iter().filter(|a| a.op == Op::Read && a.failed == 0).map(|a| a.result.max(0) as usize).sum();
        given.push(match &steps[k].1 {
            Disk::Content(c) if early => Disk::Content(c[..delivered.min(c.len())].to_vec()),
            Disk::Directory if early => Disk::Content(Vec::new()),
            d => d.clone(),
        });
        faulted.push(errno);
    }
    ctx.nontrivial = have.iter().any(|h| h[1] != "ok") || o.soft_fired > 0;
    // A loader that never meets the failures.
    disk::clear("out");
    let feed: Vec<(Step, Disk, i32)> = steps.iter().zip(&given).zip(&faulted).map(|((s, d), e)| (s.0.clone(), d.clone(), *e)).collect();
    let job = base.clone();
    let body: Body = Box::new(move |rec| {
        let mut good = Vec::new();
        for (s, d, e) in &feed {
            if *e != 0 {
                rec.put(&["step", "io", &e.to_string()]);
                continue;
            }
            arrange(&s.file, d);
            let mut l = simcore::sut::sut(bp3d_protoc::Loader::new);
            let r = simcore::sut::sut(|| load(&mut l, s));
            if r.is_ok() {
                good.push((s, d));
            }
            put(rec, r);
        }
        let mut l = simcore::sut::sut(bp3d_protoc::Loader::new);
        for (s, d) in good {
            arrange(&s.file, d);
            if simcore::sut::sut(|| load(&mut l, s)).is_err() {
                rec.put(&["panic", "harness", "a good file does not load"]);
            }
        }
        simcore::sut::sut(|| compile_and_generate(l, &job, rec));
    });
    let seed = ctx.draw64();
    let o2 = sched().run(ctx, vec![Proc { pid: 90, hash_seed: seed, env: Vec::new(), threads: vec![body] }], &NO_FAULTS)?;
    let want: Vec<Vec<String>> = o2.lines[0].iter().filter(|l| l[0] == "step").cloned().collect();
    for (k, (h, w)) in have.iter().zip(&want).enumerate() {
        ensure!(h == w, "load-result", "step {k} ({} as {:?}): {:?} instead of {:?}", steps[k].0.file, steps[k].0.import, &h[1..], &w[1..]);
        if h[1] != "ok" {
            ctx.count("probe.failed_load");
        }
    }
    // Independent of the comparison: intact files load, unreadable ones do not.
    for (k, (s, d)) in steps.iter().enumerate() {
        // Whatever was read of a file: a part of a schema is none, nor is one with something behind its end.
        if let (0, Disk::Content(g)) = (faulted[k], &given[k]) {
            let text = text_of(s);
            let end = text.iter().rposition(|c| *c == b'}').map_or(0, |p| p + 1);
            let part = g.len() < end && text.starts_with(g);
            let more = g.starts_with(&text[..end]) && g[end..].iter().find(|c| !c.is_ascii_whitespace()).is_some_and(|c| c.is_ascii_graphic() && *c != b'/');
            if end > 0 && (part || more) {
                ctx.count(if part { "probe.part_of_a_schema" } else { "probe.more_than_a_schema" });
                ensure!(have[k][1] != "ok", "load-result", "step {k}: {} holds {} but the result is {:?}", s.file, if part { "a part of a schema" } else { "something behind the schema" }, have[k]);
            }
        }
        if faulted[k] != 0 {
            ensure!(have[k][1] == "io" && have[k][2] == faulted[k].to_string(), "load-result", "step {k}: reading fails with {} but the result is {:?}", faulted[k], have[k]);
            continue;
        }
        match d {
            Disk::Missing | Disk::Directory if !matches!(given[k], Disk::Content(_)) => ensure!(have[k][1] == "io", "load-result", "step {k}: nothing to read at {} but the result is {:?}", s.file, have[k]),
            Disk::Content(c) if *c == text_of(s) && !matches!(&given[k], Disk::Content(g) if g != c) => ensure!(have[k][1] == "ok", "load-result", "step {k}: an intact file is refused: {:?}", have[k]),
            _ => {}
        }
    }
    let result2 = report(&o2.lines[0])?;
    ensure!(result == result2, "loader-changed", "after failed loads: {:?} instead of {:?}", result, result2);
    let files2 = disk::snapshot("out");
    ensure!(files == files2, "loader-changed", "after failed loads the output differs: {:?} against {:?}", files.files.keys().collect::<Vec<_>>(), files2.files.keys().collect::<Vec<_>>());
    if result.ok {
        ctx.count("probe.generated");
    }
    Ok(())
}

/// C25: damaged schema files.
pub fn c25(ctx: &mut Ctx) -> Run {
    disk::reset();
    let set = Set::draw(ctx);
    set.store();
    let texts: Vec<Vec<u8>> = set.protos.iter().map(|p| p.json5().into_bytes()).collect();
    let mild = ctx.chance(650);
    for _ in 0..if mild { 1 } else { ctx.range(1, 2) } {
        let k = ctx.below(set.protos.len());
        let mut v = disk::get(&Set::file(&set.protos[k].name)).unwrap_or_default();
        let other = ctx.pick(&texts).clone();
        if ctx.chance(80) {
            // A name that leads out through a folder that is there.
            let q = ctx.pick(&set.protos).name.clone();
            if ctx.chance(700) {
                disk::put(&format!("out/{q}/enums.rs"), b"// an earlier run");
            }
            let name = format!("{q}/{}", ctx.pick(&["../../escape", "../../in2", "..", ".", "../../out2/../escape", "deeper/../../../escape", "../../../escape", "../x"]));
            let own = format!("\"{}\"", set.protos[k].name);
            if let Ok(t) = String::from_utf8(v.clone()) {
                v = t.replacen(&own, &format!("\"{name}\""), 1).into_bytes();
            }
            ctx.count("fault.damage.name_path");
        } else {
            for _ in 0..*ctx.pick(if mild { &[1, 1, 1, 2] } else { &[1, 2, 3, 6] }) {
                v = json::damage_as(ctx, &v, &other, mild);
            }
        }
        ctx.nontrivial = true;
        ev!(ctx, "damage", "{}: {} bytes", set.protos[k].name, v.len());
        disk::put(&Set::file(&set.protos[k].name), &v);
    }
    let mut job = set.job(Sel::ALL, "out");
    if ctx.chance(300) {
        job.sel = Sel::draw(ctx);
    }
    if ctx.chance(100) {
        job.gen = Gen::Folders;
    }
    let mut plan = Plan::default();
    soft(ctx, &mut plan);
    let seed = ctx.draw64();
    let inputs: Vec<Vec<u8>> = set.protos.iter().map(|p| disk::get(&Set::file(&p.name)).unwrap_or_default()).collect();
    let res = sched().run(ctx, single(job, 101, seed), &plan);
    let o = match res {
        Err(Stop::Violation(mut v)) => {
            for (p, i) in set.protos.iter().zip(&inputs) {
                if p.json5().as_bytes() != &**i {
                    v.detail += &format!("\ndamaged {}:\n{}", p.name, String::from_utf8_lossy(i));
                }
            }
            return Err(Stop::Violation(v));
        }
        v => v?,
    };
    let r = report(&o.lines[0])?;
    ensure!(o.denied.is_empty(), "escape", "writes outside of the output directory: {:?}", o.denied);
    for p in o.touched() {
        ensure!(p.starts_with("out/"), "escape", "writes outside of the output directory: {p}");
    }
    if r.ok {
        ctx.count("probe.accepted");
        for (n, p) in &r.protos {
            ensure!(disk::exists(&relative(p)), "missing-output", "success for {n}, but {p} does not exist");
        }
    } else {
        ctx.count(match &*r.err[0] {
            "load" => "probe.refused_at_load",
            "compile" => "probe.refused_at_compile",
            _ => "probe.refused_at_generate",
        });
    }
    Ok(())
}

/// C26: the entry file names what this run selected.
pub fn c26(ctx: &mut Ctx) -> Run {
    disk::reset();
    let set = Set::draw(ctx);
    let versions = [set.clone(), set.other_version(ctx)];
    // The entry file is Rust: directory names with quotes and the like have to be written as such.
    let below = *ctx.pick(&["", "", "", "/a b", "/a\\b", "/C:\\tmp\\new", "/say \"it\"", "/{0}", "/\u{e9}t\u{e9}", "/it's", "/tab\there"]);
    let base = format!("out{below}");
    let out = format!("{}{below}", out_path(ctx).trim_end_matches('/'));
    let prepare = || os::outside(|| std::fs::create_dir_all(std::path::Path::new(os::root()).join(&base)));
    let _ = prepare();
    ev!(ctx, "set", "{:?} into {}", set.names(), out.replace(os::root(), "ROOT"));
    let mut last: Option<Sel> = None;
    let mut total = 0;
    for n in 0..ctx.range(2, 5) {
        let set = &versions[if ctx.chance(250) { 1 } else { 0 }];
        set.store();
        let job = set.job(Sel::draw(ctx), &out);
        let mut plan = Plan::default();
        soft(ctx, &mut plan);
        match ctx.draw(4) {
            1 => plan.crash = Some((0, ctx.draw(if total > 0 { total + 1 } else { 60 }))),
            2 => {
                plan.hard = Some(Hard { ops: vec![*ctx.pick(&[Op::Write, Op::OpenWrite, Op::Rename, Op::Mkdir])], when: When::Once(ctx.draw(12)), errno: os::EIO });
            }
            _ => {}
        }
        let before = disk::snapshot("out");
        let seed = ctx.draw64();
        let p = pid(ctx);
        ev!(ctx, "run", "run {n} {:?} crash {:?} {:?}", job.sel, plan.crash, plan.hard);
        let o = sched().run(ctx, single(job.clone(), p, seed), &plan)?;
        total = total.max(o.ops[0]);
        ctx.nontrivial |= last.is_some() && last != Some(job.sel);
        last = Some(job.sel);
        if o.end[0] == End::Crashed {
            if ctx.chance(600) {
                ctx.count("fault.power_loss");
                disk::power_loss(ctx, &before, &o);
            }
            continue;
        }
        let r = report(&o.lines[0])?;
        // Nothing is produced that is switched off, whatever came of the run.
        let touched = o.touched();
        for q in &set.protos {
            let want: BTreeSet<&str> = Set::produced(q, &job.sel).into_iter().collect();
            for f in OUTPUTS.iter().filter(|f| !want.contains(*f)) {
                let at = format!("{base}/{}/{f}", q.name);
                for t in &touched {
                    ensure!(*t != at && !t.starts_with(&format!("{at}.")), "produced", "run {n}: {t} is written although it is not selected");
                }
            }
        }
        if !r.ok {
            ensure!(!o.hard_fired.is_empty(), "refused", "run {n} fails without cause: {:?}", r.err);
            continue;
        }
        for q in &set.protos {
            let path = format!("{base}/{}/umbrella.rs", q.name);
            let Some(u) = disk::get(&path) else { violation!("missing-output", "run {n}: {path} does not exist") };
            let u = String::from_utf8_lossy(&u).into_owned();
            let (mods, incs) = parse_umbrella(&u);
            ensure!(mods == vec![q.name.clone()], "entry-name", "run {n}: the entry file of {} declares {mods:?}", q.name);
            let mut have: Vec<String> = incs.iter().map(|p| relative(p)).collect();
            have.sort();
            let mut want: Vec<String> = Set::produced(q, &job.sel).iter().map(|f| format!("{base}/{}/{f}", q.name)).collect();
            want.sort();
            ensure!(have == want, "entry-content", "run {n}: the entry file of {} includes {have:?} instead of {want:?}", q.name);
            for f in &want {
                ensure!(disk::exists(f), "missing-output", "run {n}: {f} is included but does not exist");
            }
            ctx.count("probe.entry_checked");
        }
    }
    Ok(())
}

/// The job for schemas stored in `dir`.
fn job_in(set: &Set, dir: &str, sel: Sel, out: &str, gen: Gen) -> Job {
    let mut j = set.job(sel, out);
    j.gen = gen;
    for s in j.steps.iter_mut() {
        s.file = s.file.replacen("in/", &format!("{dir}/"), 1);
    }
    j
}

/// C27: whoever reads the output directory while it is written sees whole files.
pub fn c27(ctx: &mut Ctx) -> Run {
    disk::reset();
    let set = Set::draw(ctx);
    set.store();
    let versions = [set.clone(), set.other_version(ctx)];
    versions[1].store_in("in2");
    let out = out_path(ctx);
    let gen = if ctx.chance(200) { Gen::Folders } else { Gen::Rust };
    let n = ctx.range(1, 3);
    let mut jobs: Vec<Job> = Vec::new();
    // What an output may look like.
    let mut allowed: BTreeMap<String, Vec<Option<Vec<u8>>>> = BTreeMap::new();
    let mut entries: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    let mut ops = 0;
    let mut all = Tree::default();
    for _ in 0..n {
        let v = ctx.below(2);
        let j = job_in(&versions[v], ["in", "in2"][v], Sel::draw(ctx), &out, gen);
        let (r, t, o) = reference(ctx, &j)?;
        must_ok(&r, "generation")?;
        ops += o.ops[0];
        for (p, d) in &t.files {
            let a = allowed.entry(p.clone()).or_default();
            if !a.iter().any(|v| v.as_ref() == Some(d)) {
                a.push(Some(d.clone()));
            }
            if p.ends_with("/umbrella.rs") {
                entries.entry(p.clone()).or_default().push(d.clone());
            }
            all.files.insert(p.clone(), d.clone());
        }
        jobs.push(j);
    }
    // What is there before.
    match ctx.draw(3) {
        1 => {
            let j = job_in(&versions[0], "in", Sel::draw(ctx), &out, gen);
            let o = sched().run(ctx, single(j, 98, 7), &NO_FAULTS)?;
            must_ok(&report(&o.lines[0])?, "generation")?;
        }
        2 => {
            disk::litter(ctx, "out", &set, &all);
            for p in allowed.keys().filter(|p| p.ends_with("/umbrella.rs")) {
                disk::remove(p);
            }
        }
        _ => {}
    }
    for (p, a) in allowed.iter_mut() {
        let now = disk::get(p);
        if !a.contains(&now) {
            a.push(now);
        }
    }
    let mut plan = Plan { switch: *ctx.pick(&[300, 100, 600]), ..Plan::default() };
    soft(ctx, &mut plan);
    match ctx.draw(5) {
        1 => plan.crash = Some((ctx.below(n), ctx.draw(ops / n as u64 + 1))),
        2 => plan.hard = Some(Hard { ops: vec![*ctx.pick(&[Op::Write, Op::OpenWrite, Op::Rename, Op::Mkdir, Op::Unlink, Op::Sync])], when: When::Once(ctx.draw(30)), errno: *ctx.pick(&[os::EIO, os::ENOSPC]) }),
        3 => plan.room = Some(ctx.draw(20_000)),
        _ => {}
    }
    ev!(ctx, "start", "{n} runs over {:?}, crash {:?} hard {:?} room {:?}", set.names(), plan.crash, plan.hard, plan.room);
    let pid0 = pids(ctx, n);
    let seed = ctx.draw64();
    let procs: Vec<Proc> = jobs.iter().enumerate().map(|(k, j)| Proc { pid: pid0[k], hash_seed: seed ^ (k as u64) << 32, env: Vec::new(), threads: vec![j.clone().body()] }).collect();
    let names: Vec<String> = allowed.keys().cloned().collect();
    let every: Vec<&str> = names.iter().map(|v| &**v).collect();
    let mut looks = 0u64;
    let mut seen_entries = 0u64;
    let mut look = |what: &str, only: &[&str]| -> Run {
        for p in only {
            let Some(a) = allowed.get(*p) else { continue };
            looks += 1;
            let now = disk::get(p);
            if !a.contains(&now) {
                match now {
                    None => violation!("vanished", "{what}: {p} was there and is gone"),
                    Some(v) => violation!("half-written", "{what}: a reader of {p} sees {} bytes, the versions of it have {:?}", v.len(), a.iter().flatten().map(|v| v.len()).collect::<Vec<_>>()),
                }
            }
        }
        // An entry file never names what is not there.
        for (p, e) in &entries {
            let Some(u) = disk::get(p) else { continue };
            if !e.contains(&u) {
                continue;
            }
            seen_entries += 1;
            for f in parse_umbrella(&String::from_utf8_lossy(&u)).1 {
                ensure!(disk::exists(&relative(&f)), "dangling-entry", "{what}: {p} includes {} which does not exist", relative(&f));
            }
        }
        Ok(())
    };
    let o = sched().run_observed(ctx, procs, &plan, &mut |a| {
        let moves = matches!(a.op, Op::Rename | Op::Link | Op::Unlink | Op::Rmdir);
        if !moves && !(matches!(a.op, Op::OpenWrite | Op::Write | Op::Trunc) && allowed.contains_key(&a.path)) {
            return Ok(());
        }
        // A whole directory may have moved.
        let below = |p: &String| names.iter().any(|n| n.len() > p.len() && n.starts_with(p) && n.as_bytes()[p.len()] == b'/');
        let what = format!("during the run, after {:?} {} {}", a.op, a.path, a.path2);
        if moves && (below(&a.path) || below(&a.path2)) {
            return look(&what, &every);
        }
        look(&what, &[&a.path, &a.path2])
    })?;
    look("at the end", &every)?;
    ctx.count_n("probe.looks", looks);
    ctx.count_n("probe.entry_files_followed", seen_entries);
    if o.switches > 0 {
        ctx.count("probe.interleaved");
    }
    ctx.nontrivial = looks > allowed.len() as u64;
    Ok(())
}

/// C28: generation changes nothing but its own outputs.
pub fn c28(ctx: &mut Ctx) -> Run {
    disk::reset();
    let set = Set::draw(ctx);
    set.store();
    let out = out_path(ctx);
    let gen = if ctx.chance(200) { Gen::Folders } else { Gen::Rust };
    let (r, want, clean) = reference(ctx, &job_in(&set, "in", Sel::ALL, &out, gen))?;
    must_ok(&r, "generation")?;
    // The outputs under any selection, and their folders.
    let mut own: BTreeSet<String> = want.files.keys().cloned().collect();
    own.extend(want.dirs.iter().cloned());
    // Files of others.
    let mut foreign: Vec<String> = vec!["in/notes.json5".into()];
    disk::put("in/notes.json5", b"not a schema");
    for p in set.protos.iter().map(|p| format!("out/{}", p.name)).chain(["out".into(), "out/elsewhere".into(), "out2".into()]) {
        let names = ["README.md", "mod.rs", "messages.rs.bak", "messages.rs~", "notes.txt", "build/output", "umbrella.rs.d", "messages.tmp", "0.tmp", ".lock"];
        for f in names {
            if ctx.chance(250) {
                let n = ctx.below(200);
                let path = format!("{p}/{f}");
                disk::put(&path, &ctx.bytes(n));
                foreign.push(path);
            }
        }
    }
    // Names close to those of outputs and their folders.
    let near: Vec<String> = own.iter().cloned().collect();
    for _ in 0..ctx.draw(12) {
        let p = ctx.pick(&near).clone();
        let (d, f) = p.rsplit_once('/').unwrap_or(("out", &p));
        let before = *ctx.pick(&["", "", "", ".", "#", "_", "old-"]);
        let after = *ctx.pick(&[".d", ".bak", "~", ".old", ".orig", "_old", "-1", ".1", "2", ".swp", ".lock", "s", ".json"]);
        let mut path = format!("{d}/{before}{f}{after}");
        match ctx.draw(4) {
            0 => path.push_str("/keep"),
            1 => path.push_str("/messages.rs"),
            _ => {}
        }
        if own.contains(&path) || foreign.iter().any(|f| f.starts_with(&format!("{path}/")) || path.starts_with(&format!("{f}/"))) {
            continue;
        }
        let n = ctx.below(100);
        disk::put(&path, &ctx.bytes(n));
        foreign.push(path);
    }
    // In the place of an output, or below it.
    if ctx.chance(80) {
        if let Some(p) = want.files.keys().nth(ctx.below(want.files.len().max(1))) {
            disk::remove(p);
            let path = format!("{p}/keep");
            disk::put(&path, b"kept");
            foreign.push(path);
        }
    }
    for p in ["out/umbrella.rs", "out/messages.rs", "out/elsewhere/umbrella.rs", "out/elsewhere/messages.rs"] {
        if ctx.chance(300) {
            disk::put(p, b"// somebody else's");
            foreign.push(p.into());
        }
    }
    foreign.extend(set.protos.iter().map(|p| Set::file(&p.name)));
    let kept: BTreeMap<String, Vec<u8>> = foreign.iter().filter_map(|p| Some((p.clone(), disk::get(p)?))).collect();
    let dirs: BTreeSet<String> = ["in", "out", "out2"].iter().flat_map(|d| disk::snapshot(d).dirs).collect();
    // Left by runs that were killed.
    let mut tolerated: BTreeSet<String> = BTreeSet::new();
    for n in 0..ctx.range(1, 3) {
        let k = if ctx.chance(250) { 2 } else { 1 };
        let mut plan = Plan { switch: 300, ..Plan::default() };
        soft(ctx, &mut plan);
        match ctx.draw(6) {
            0 => plan.crash = Some((0, ctx.draw(clean.ops[0] + 1))),
            1 | 2 => plan.hard = Some(hard(ctx, &clean)),
            3 => plan.room = Some(ctx.draw(written(&clean) + 1)),
            _ => {}
        }
        let seed = ctx.draw64();
        let pid0 = pids(ctx, k);
        let procs: Vec<Proc> = (0..k).map(|k| Proc { pid: pid0[k], hash_seed: seed ^ k as u64, env: Vec::new(), threads: vec![{
                let mut j = job_in(&set, "in", Sel::draw(ctx), &out, gen);
                if gen == Gen::Folders && ctx.chance(300) {
                    j.gen_fails = Some(ctx.draw(2 * set.protos.len() as u64));
                }
                j.body()
            }],
        }).collect();
        ev!(ctx, "run", "run {n}: {k} at once, crash {:?} hard {:?} room {:?}", plan.crash, plan.hard, plan.room);
        let o = sched().run_observed(ctx, procs, &plan, &mut |a| {
            for p in [&a.path, &a.path2] {
                if let Some(v) = kept.get(p) {
                    if matches!(a.op, Op::OpenWrite | Op::Write | Op::Trunc | Op::Rename | Op::Link | Op::Unlink) {
                        ensure!(disk::get(p).as_ref() == Some(v), "touched", "run {n}: {:?} {} {} changes a file that is no output", a.op, a.path, a.path2);
                    }
                }
            }
            Ok(())
        })?;
        ensure!(o.denied.is_empty(), "escape", "run {n}: writes outside of the output directory: {:?}", o.denied);
        let crashed = o.end.contains(&End::Crashed);
        // A run that could not even remove what it had to leaves it.
        let helpless = o.hard_fired.iter().any(|f| f.0 == Op::Unlink) || plan.hard.as_ref().map(|h| h.ops.contains(&Op::Unlink) && matches!(h.when, When::From(_))).unwrap_or(false);
        ctx.count(if crashed { "probe.killed" } else if o.lines.iter().any(|l| matches!(report(l), Ok(r) if r.ok)) { "probe.ok" } else { "probe.failed" });
        for (p, v) in &kept {
            match disk::get(p) {
                None => violation!("removed", "run {n}: {p}, which is no output, is gone"),
                Some(d) => ensure!(d == *v, "touched", "run {n}: {p}, which is no output, has changed"),
            }
        }
        let mut now: BTreeSet<String> = BTreeSet::new();
        for d in ["in", "in2", "in3", "in4", "out", "out2"] {
            let t = disk::snapshot(d);
            now.extend(t.files.into_keys());
            now.extend(t.dirs);
        }
        for d in &dirs {
            ensure!(now.contains(d), "removed", "run {n}: the directory {d} is gone");
        }
        for p in now {
            if kept.contains_key(&p) || dirs.contains(&p) || own.contains(&p) || tolerated.contains(&p) {
                continue;
            }
            if crashed || helpless {
                tolerated.insert(p);
                continue;
            }
            violation!("left-behind", "run {n}: {p} is no output and remains after the run");
        }
        ctx.nontrivial = true;
    }
    Ok(())
}

/// What a build script has told Cargo about protocols: the value of each name.
struct Told {
    pending: Vec<u8>,
    values: BTreeMap<String, String>,
}

const KEY: &str = "cargo::rustc-env=BP3D_PROTOC_";

impl Told {
    /// More of the script's output. New values.
    fn hear(&mut self, data: &[u8]) -> Run<Vec<(String, String)>> {
        self.pending.extend_from_slice(data);
        let mut new = Vec::new();
        while let Some(n) = self.pending.iter().position(|c| *c == b'\n') {
            let line: Vec<u8> = self.pending.drain(..=n).collect();
            let Ok(line) = String::from_utf8(line) else { violation!("told", "a line of the script's output is no text") };
            let Some((k, v)) = line.trim_end_matches('\n').strip_prefix(KEY).and_then(|l| l.split_once('=')) else {
                ensure!(!line.contains("BP3D_PROTOC_"), "told", "a line Cargo does not understand: {line:?}");
                continue;
            };
            if let Some(old) = self.values.insert(k.into(), v.into()) {
                ensure!(old == v, "told", "two values for {k}: {old} and {v}");
            }
            new.push((k.to_string(), v.to_string()));
        }
        Ok(new)
    }
}

/// C29: what a build script tells Cargo.
pub fn c29(ctx: &mut Ctx) -> Run {
    use std::os::unix::ffi::OsStringExt;
    disk::reset();
    let set = Set::draw(ctx);
    set.store();
    // Cargo's directories are absolute; what their names look like is not up to the script.
    let mut below = ctx.pick(&["", "", "", "/a b", "/x=y", "/\u{e9}t\u{e9}", "/bp3d-1234/out", "/#"]).to_string();
    if ctx.chance(150) {
        // Lines longer than what is buffered at once.
        below = format!("/{}", "deep".repeat(50)).repeat(ctx.range(1, 3));
    }
    let base = format!("out{below}");
    let dir = if ctx.chance(800) { format!("{}/{base}", os::root()) } else { base.clone() };
    let mut job = set.job(Sel::draw(ctx), &dir);
    job.entry = Entry::BuildScript;
    ev!(ctx, "set", "{:?} {:?} into {}", set.names(), job.sel, dir.replace(os::root(), "ROOT"));
    let prepare = || os::outside(|| std::fs::create_dir_all(std::path::Path::new(os::root()).join(&base)));
    disk::clear("out");
    let _ = prepare();
    let seed = ctx.draw64();
    let clean = sched().run(ctx, single(job.clone(), 99, seed), &NO_FAULTS)?;
    must_ok(&report(&clean.lines[0])?, "generation")?;
    let want = disk::snapshot("out");
    disk::clear("out");
    let _ = prepare();
    let names: Vec<String> = job.steps.iter().filter(|s| s.import.is_none()).map(|s| s.file.trim_start_matches("in/").trim_end_matches(".json5").to_string()).collect();
    let mut expected: BTreeMap<String, String> = BTreeMap::new();
    for n in &names {
        expected.insert(n.to_ascii_uppercase(), format!("{base}/{n}/"));
    }
    // What earlier runs of the script left.
    match ctx.draw(3) {
        1 => {
            let old = set.other_version(ctx);
            old.store();
            let mut oj = job.clone();
            oj.sel = Sel::draw(ctx);
            let o = sched().run(ctx, single(oj, 98, 7), &NO_FAULTS)?;
            report(&o.lines[0])?;
            set.store();
        }
        2 => disk::litter(ctx, &base, &set, &want),
        _ => {}
    }
    let mut env = job.env();
    let mut broken = "";
    match ctx.draw(24) {
        0 => {
            broken = "no OUT_DIR";
            env.clear();
        }
        1 => {
            broken = "OUT_DIR is no text";
            let mut v = format!("{}/out", os::root()).into_bytes();
            v.extend_from_slice(&[b'/', b'a', 0xff, b'b']);
            env[0].1 = std::ffi::OsString::from_vec(v);
        }
        2 => {
            broken = "a schema is missing";
            disk::remove(&Set::file(&ctx.pick(&set.protos).name));
        }
        3 => {
            broken = "a schema is torn";
            let f = Set::file(&ctx.pick(&set.protos).name);
            let mut d = disk::get(&f).unwrap_or_default();
            d.truncate(ctx.below(d.len() / 2 + 1));
            disk::put(&f, &d);
        }
        _ => {}
    }
    let outs = clean.actions.iter().filter(|a| a.op == Op::Stdout).count() as u64;
    let mut plan = Plan { switch: 200, only: Some(0), ..Plan::default() };
    if ctx.chance(600) {
        plan.eintr = *ctx.pick(&[0, 30, 150, 400]);
        plan.short = *ctx.pick(&[0, 50, 200, 500, 900]);
    }
    match ctx.draw(8) {
        0 => plan.room = Some(ctx.draw(written(&clean) + 1)),
        1 => plan.hard = Some(hard(ctx, &clean)),
        2 => plan.crash = Some((0, ctx.draw(clean.ops[0] + 1))),
        3 => {
            // Around the time it talks.
            let n = clean.ops[0];
            plan.crash = Some((0, n.saturating_sub(ctx.draw(names.len() as u64 * 3 + 2))));
        }
        4 | 5 => {
            let at = ctx.draw(outs.max(1));
            let e = *ctx.pick(&[os::EPIPE, os::EIO, os::ENOSPC]);
            plan.out = Some((if ctx.chance(500) { When::From(at) } else { When::Once(at) }, e));
        }
        _ => {}
    }
    ev!(ctx, "plan", "eintr {} short {} {:?} room {:?} crash {:?} stdout {:?} {broken}", plan.eintr, plan.short, plan.hard, plan.room, plan.crash, plan.out);
    let seed = ctx.draw64();
    let pid0 = pids(ctx, 2);
    let mut procs = vec![Proc { pid: pid0[0], hash_seed: seed, env, threads: vec![job.clone().body()] }];
    if broken.is_empty() && ctx.chance(150) {
        // The same script, run for another command at the same time.
        procs.push(Proc { pid: pid0[1], hash_seed: seed ^ 3, env: job.env(), threads: vec![job.clone().body()] });
    }
    // What is told is true at the moment it is told.
    let mut told: Vec<Told> = (0..procs.len()).map(|_| Told { pending: Vec::new(), values: BTreeMap::new() }).collect();
    let mut talked = 0u64;
    let o = sched().run_observed(ctx, procs, &plan, &mut |a| {
        if a.op != Op::Stdout {
            return Ok(());
        }
        for (k, v) in told[a.actor].hear(&a.data)? {
            talked += 1;
            let Some(place) = expected.get(&k) else { violation!("told", "script {} tells of {k}, which is no protocol it generates", a.actor) };
            ensure!(relative(&v) == format!("{place}umbrella.rs"), "told", "script {} tells the path {v} for {k}", a.actor);
            for (p, c) in want.files.iter().filter(|f| f.0.starts_with(place)) {
                match disk::get(p) {
                    None => violation!("told-too-early", "script {} tells of {k} while {p} does not exist", a.actor),
                    Some(d) => ensure!(d == *c, "told-too-early", "script {} tells of {k} while {p} has {} bytes instead of {}", a.actor, d.len(), c.len()),
                }
            }
        }
        Ok(())
    })?;
    ctx.count_n("probe.told", talked);
    ctx.nontrivial = o.soft_fired > 0 || !o.hard_fired.is_empty() || o.end[0] == End::Crashed || !broken.is_empty();
    for (k, t) in told.iter_mut().enumerate() {
        if o.end[k] == End::Crashed {
            ctx.count("probe.killed");
            continue;
        }
        let r = report_any(&o.lines[k])?;
        ev!(ctx, "result", "script {k}: {} {:?}", if r.ok { "ok" } else { "fails" }, r.err.iter().take(3).collect::<Vec<_>>());
        let faults: Vec<_> = o.hard_fired.iter().filter(|_| k == 0).collect();
        if r.ok {
            ctx.count("probe.ok");
            ensure!(broken.is_empty() || k > 0, "swallowed-error", "the script succeeds although {broken}");
            if let Some(f) = faults.iter().find(|f| f.0 == Op::Stdout) {
                violation!("swallowed-error", "the script succeeds although its output failed with {}", f.1);
            }
            // The rest of the output counts when the script has ended.
            t.hear(b"\n")?;
            let have: Vec<&String> = t.values.keys().collect();
            let all: Vec<&String> = expected.keys().collect();
            ensure!(have == all, "told", "the script tells of {have:?} instead of {all:?}");
            for s in &job.steps {
                let l = format!("cargo::rerun-if-changed={}", s.file);
                ensure!(r.stdout.contains(&l), "told", "what the script told itself is lost: {l}");
            }
            if !r.stdout.is_empty() {
                same_outputs(&want, "the script's outputs", &none)?;
            }
        } else {
            ctx.count("probe.failed");
            ensure!(!faults.is_empty() || (k == 0 && !broken.is_empty()), "soft-fault", "the script fails although nothing but interruptions and short transfers happened: {:?}", r.err);
            let silent = faults.iter().any(|f| f.0 == Op::Stdout) || broken.contains("OUT_DIR");
            ensure!(r.err[0] != "panic" || silent, "panic", "{}", r.err[3]);
        }
    }
    Ok(())
}

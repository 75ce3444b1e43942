//! Worker process: executes simulated runs, minimises and writes replay files, reports statistics.

use crate::ctx::{Ctx, Run, Stop, Violation};
use crate::rng::{hash_bytes, mix};
use crate::sut;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type Scenario = fn(&mut Ctx) -> Run;

pub struct Suite {
    pub name: &'static str,
    /// Seed the schemas of this binary were drawn from.
    pub schema_seed: u64,
    pub scenarios: Vec<(&'static str, Scenario)>,
    /// Probes of known findings: (key, what fails).
    pub findings: fn(&str) -> Vec<(String, String)>,
}

pub const HANG_SECS: u64 = 25;

static CUR_START: AtomicU64 = AtomicU64::new(0);
static CUR_RUN: AtomicU64 = AtomicU64::new(0);

fn millis() -> u64 {
    use std::time::{SystemTime, UNIX_EPOCH};
    // Used by the watchdog only; never seen by a simulated run.
    SystemTime::now().duration_since(UNIX_EPOCH).map(|v| v.as_millis() as u64).unwrap_or(0)
}

pub fn run_seed(seed: u64, id: &str, run: u64) -> u64 {
    mix(mix(seed, hash_bytes(0, id.as_bytes())), run)
}

/// Execute one run; panics of the system under test become violations.
pub fn execute(f: Scenario, ctx: &mut Ctx) -> Run {
    match sut::guard(|| f(ctx)) {
        Ok(v) => v,
        Err(sut::Caught::Injected) => Err(Stop::Harness("injected unwind left the scenario".into())),
        Err(sut::Caught::Panic(p)) => {
            let at = format!("{} at {}:{}", p.msg, p.file, p.line);
            if p.is_harness() {
                Err(Stop::Harness(format!("panic in harness: {at}")))
            } else {
                Err(Violation::new("panic", at).into())
            }
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn minimise(f: Scenario, tape: Vec<u64>, class: &str, limit: Duration) -> (Vec<u64>, u64) {
    let start = Instant::now();
    let mut tries = 0;
    let mut best = tape;
    let mut attempt = |cand: &[u64], tries: &mut u64| -> Option<Vec<u64>> {
        *tries += 1;
        CUR_START.store(millis(), Ordering::SeqCst);
        let mut ctx = Ctx::replay(cand.to_vec(), false);
        match execute(f, &mut ctx) {
            Err(Stop::Violation(v)) if v.class == class => {
                // What the run actually drew, without the zeros that follow the end of the tape.
                let mut t = ctx.tape;
                while t.last() == Some(&0) {
                    t.pop();
                }
                Some(t)
            }
            _ => None,
        }
    };
    let simpler = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a.iter().map(|v| *v as u128).sum::<u128>() < b.iter().map(|v| *v as u128).sum::<u128>());
    if let Some(t) = attempt(&best.clone(), &mut tries) {
        best = t;
    }
    loop {
        let before = best.clone();
        // Drop chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() {
                if start.elapsed() > limit {
                    return (best, tries);
                }
                let end = (at + size).min(best.len());
                let mut c = best[..at].to_vec();
                c.extend_from_slice(&best[end..]);
                match attempt(&c, &mut tries) {
                    Some(t) if simpler(&t, &best) => best = t,
                    _ => {
                        // Zero the chunk instead.
                        let mut c = best.clone();
                        c[at..end].iter_mut().for_each(|v| *v = 0);
                        match attempt(&c, &mut tries) {
                            Some(t) if simpler(&t, &best) => best = t,
                            _ => at += size,
                        }
                    }
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower values.
        let mut at = 0;
        while at < best.len() {
            if start.elapsed() > limit {
                return (best, tries);
            }
            let v = best[at];
            for n in [v / 2, v.saturating_sub(1)] {
                if n < v {
                    let mut c = best.clone();
                    c[at] = n;
                    if let Some(t) = attempt(&c, &mut tries) {
                        if simpler(&t, &best) {
                            best = t;
                            break;
                        }
                    }
                }
            }
            at += 1;
        }
        if best == before {
            return (best, tries);
        }
    }
}

pub struct Replay {
    pub property: String,
    pub suite: String,
    pub schema_seed: u64,
    pub class: String,
    pub source: Source,
}

#[derive(Clone)]
pub enum Source {
    Tape(Vec<u64>),
    /// A single run identified by seed and number.
    Seed { seed: u64, run: u64 },
    /// All runs of one worker up to and including a number.
    Batch { seed: u64, worker: u64, workers: u64, run: u64 },
}

impl Replay {
    pub fn write(&self, path: &Path, detail: &str, log: &[String]) -> std::io::Result<()> {
        if let Some(p) = path.parent() {
            std::fs::create_dir_all(p)?;
        }
        let mut o = std::fs::File::create(path)?;
        writeln!(o, "simreplay 1")?;
        writeln!(o, "property {}", self.property)?;
        writeln!(o, "suite {}", self.suite)?;
        writeln!(o, "schema_seed {}", self.schema_seed)?;
        writeln!(o, "class {}", self.class)?;
        match &self.source {
            Source::Tape(t) => {
                let s: Vec<String> = t.iter().map(|v| v.to_string()).collect();
                writeln!(o, "tape {}", s.join(" "))?;
            }
            Source::Seed { seed, run } => writeln!(o, "seed {seed} {run}")?,
            Source::Batch { seed, worker, workers, run } => writeln!(o, "batch {seed} {worker} {workers} {run}")?,
        }
        writeln!(o, "---")?;
        writeln!(o, "{detail}")?;
        writeln!(o, "--- schedule and fault trace")?;
        for l in log {
            writeln!(o, "{l}")?;
        }
        Ok(())
    }

    pub fn read(path: &Path) -> Option<Replay> {
        let s = std::fs::read_to_string(path).ok()?;
        let mut r = Replay { property: String::new(), suite: String::new(), schema_seed: 1, class: String::new(), source: Source::Tape(Vec::new()) };
        for l in s.lines() {
            if l == "---" {
                break;
            }
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let nums = || v.split_whitespace().filter_map(|v| v.parse().ok()).collect::<Vec<u64>>();
            match k {
                "property" => r.property = v.into(),
                "suite" => r.suite = v.into(),
                "schema_seed" => r.schema_seed = v.parse().ok()?,
                "class" => r.class = v.into(),
                "tape" => r.source = Source::Tape(nums()),
                "seed" => {
                    let n = nums();
                    r.source = Source::Seed { seed: n[0], run: n[1] };
                }
                "batch" => {
                    let n = nums();
                    r.source = Source::Batch { seed: n[0], worker: n[1], workers: n[2], run: n[3] };
                }
                _ => {}
            }
        }
        Some(r)
    }
}

struct Args(BTreeMap<String, String>);

impl Args {
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    fn str(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.into())
    }
}

fn watchdog(progress: Option<PathBuf>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = CUR_START.load(Ordering::SeqCst);
        if s != 0 && millis().saturating_sub(s) > HANG_SECS * 1000 {
            let r = CUR_RUN.load(Ordering::SeqCst);
            if let Some(p) = &progress {
                let _ = std::fs::write(p, format!("hang {r}\n"));
            }
            println!("HANG {r}");
            let _ = std::io::stdout().flush();
            std::process::exit(4);
        }
    });
}

/// Entry point of a simulator binary.
pub fn main(suite: Suite) -> i32 {
    sut::install_hook();
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let cmd = argv.first().cloned().unwrap_or_default();
    let mut args = Args(BTreeMap::new());
    let mut pos = Vec::new();
    let mut k = 1;
    while k < argv.len() {
        if let Some(n) = argv[k].strip_prefix("--") {
            args.0.insert(n.into(), argv.get(k + 1).cloned().unwrap_or_default());
            k += 2;
        } else {
            pos.push(argv[k].clone());
            k += 1;
        }
    }
    let find = |id: &str| suite.scenarios.iter().find(|v| v.0 == id).map(|v| v.1);
    match &*cmd {
        "run" => {
            let Some(f) = find(&pos[0]) else {
                eprintln!("no scenario {}", pos[0]);
                return 2;
            };
            run_worker(&suite, &pos[0], f, &args)
        }
        "replay" => {
            let Some(r) = Replay::read(Path::new(&pos[0])) else {
                eprintln!("cannot read replay file");
                return 2;
            };
            let Some(f) = find(&r.property) else {
                eprintln!("no scenario {}", r.property);
                return 2;
            };
            watchdog(None);
            let res = replay(f, &r, true);
            match res {
                (Err(Stop::Violation(v)), log, digest) => {
                    for l in &log {
                        println!("  {l}");
                    }
                    println!("REPRODUCED property={} class={} digest={:016x}", r.property, v.class, digest);
                    println!("{}", v.detail);
                    if v.class == r.class || r.class.is_empty() {
                        1
                    } else {
                        5
                    }
                }
                (Err(Stop::Harness(h)), ..) => {
                    eprintln!("harness error: {h}");
                    2
                }
                (Ok(()), _, digest) => {
                    println!("no violation digest={:016x}", digest);
                    0
                }
            }
        }
        "findings" => {
            for (k, d) in (suite.findings)(&pos[0]) {
                println!("FINDING {k} {}", d.replace('\n', " "));
            }
            0
        }
        "list" => {
            for v in &suite.scenarios {
                println!("{}", v.0);
            }
            0
        }
        _ => {
            eprintln!("usage: run ID [--seed S] [--worker W] [--workers N] [--runs N] [--time MS] [--out DIR] | replay FILE | list");
            2
        }
    }
}

fn replay(f: Scenario, r: &Replay, trace: bool) -> (Run, Vec<String>, u64) {
    let go = |mut ctx: Ctx, run: u64| {
        CUR_RUN.store(run, Ordering::SeqCst);
        CUR_START.store(millis(), Ordering::SeqCst);
        let res = execute(f, &mut ctx);
        CUR_START.store(0, Ordering::SeqCst);
        (res, ctx.log, ctx.digest)
    };
    match &r.source {
        Source::Tape(t) => go(Ctx::replay(t.clone(), trace), 0),
        Source::Seed { seed, run } => go(Ctx::random(run_seed(*seed, &r.property, *run), trace), *run),
        Source::Batch { seed, worker, workers, run } => {
            let mut k = *worker;
            loop {
                let last = k >= *run;
                let res = go(Ctx::random(run_seed(*seed, &r.property, k), trace && last), k);
                if last || res.0.is_err() {
                    return res;
                }
                k += workers;
            }
        }
    }
}

fn run_worker(suite: &Suite, id: &str, f: Scenario, args: &Args) -> i32 {
    let seed = args.num("seed", 1);
    let worker = args.num("worker", 0);
    let workers = args.num("workers", 1);
    let runs = args.num("runs", 1000);
    let limit = Duration::from_millis(args.num("time", 20_000));
    let out = PathBuf::from(args.str("out", "/tmp/simout"));
    let logs = args.0.contains_key("digests");
    let _ = std::fs::create_dir_all(&out);
    let progress = out.join(format!("progress-{id}-{worker}"));
    let start = Instant::now();
    let mut done = 0u64;
    let mut nontrivial = 0u64;
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut sim_time = 0u64;
    let mut steps = 0u64;
    let mut samples: Vec<String> = Vec::new();
    let mut code = 0;
    let mut extra = String::new();
    let mut all_digest = 0u64;
    let mut fd = std::fs::File::create(&progress).ok();
    watchdog(Some(progress.clone()));
    let mut digests = String::new();
    let mut k = worker;
    while k < runs {
        if start.elapsed() > limit {
            break;
        }
        if let Some(fd) = &mut fd {
            use std::os::unix::fs::FileExt;
            let _ = fd.write_at(format!("run {k:<20}\n").as_bytes(), 0);
        }
        CUR_RUN.store(k, Ordering::SeqCst);
        CUR_START.store(millis(), Ordering::SeqCst);
        let trace = samples.len() < 2 && done > 3;
        let mut ctx = Ctx::random(run_seed(seed, id, k), trace);
        let res = execute(f, &mut ctx);
        CUR_START.store(0, Ordering::SeqCst);
        done += 1;
        all_digest = mix(all_digest, ctx.digest);
        if logs {
            digests += &format!("{k} {:016x} {}\n", ctx.digest, ctx.tape.len());
        }
        if ctx.nontrivial {
            nontrivial += 1;
            if shapes.len() < 4_000_000 {
                shapes.insert(ctx.shape);
            }
        }
        for (n, v) in &ctx.counters {
            *counters.entry(n).or_insert(0) += v;
        }
        sim_time += ctx.now;
        steps += ctx.steps;
        match res {
            Ok(()) => {
                if trace && ctx.nontrivial && ctx.log.len() > 3 {
                    let mut l = ctx.log.clone();
                    l.truncate(24);
                    let l: Vec<String> = l.into_iter().map(|v| v.chars().take(300).collect()).collect();
                    samples.push(format!("{{\"run\": {k}, \"trace\": [{}]}}", l.iter().map(|v| esc(v)).collect::<Vec<_>>().join(", ")));
                }
            }
            Err(Stop::Harness(h)) => {
                eprintln!("harness error in run {k} (seed {seed}): {h}");
                extra = format!(", \"harness\": {}", esc(&format!("run {k}: {h}")));
                code = 2;
                break;
            }
            Err(Stop::Violation(v)) => {
                let (tape, tries) = minimise(f, ctx.tape.clone(), &v.class, Duration::from_secs(8));
                CUR_START.store(0, Ordering::SeqCst);
                let mut rep = Replay {
                    property: id.into(),
                    suite: suite.name.into(),
                    schema_seed: suite.schema_seed,
                    class: v.class.clone(),
                    source: Source::Tape(tape.clone()),
                };
                let (res, log, _) = replay(f, &rep, true);
                let detail = match res {
                    Err(Stop::Violation(v)) => v.detail,
                    _ => v.detail.clone(),
                };
                let p_min = out.join(format!("{id}-{seed}-{k}.replay"));
                let _ = rep.write(&p_min, &format!("found by seed {seed} run {k}; minimised in {tries} executions to {} draws (from {})\n{detail}", tape.len(), ctx.tape.len()), &log);
                rep.source = Source::Seed { seed, run: k };
                let p_seed = out.join(format!("{id}-{seed}-{k}.seed.replay"));
                let _ = rep.write(&p_seed, &v.detail, &[]);
                rep.source = Source::Batch { seed, worker, workers, run: k };
                let p_batch = out.join(format!("{id}-{seed}-{k}.batch.replay"));
                let _ = rep.write(&p_batch, &v.detail, &[]);
                extra = format!(
                    ", \"violation\": {{\"run\": {k}, \"class\": {}, \"detail\": {}, \"replays\": [{}, {}, {}]}}",
                    esc(&v.class),
                    esc(&detail),
                    esc(&p_min.display().to_string()),
                    esc(&p_seed.display().to_string()),
                    esc(&p_batch.display().to_string())
                );
                code = 1;
                break;
            }
        }
        k += workers;
    }
    if logs {
        let _ = std::fs::write(out.join(format!("digests-{id}-{worker}")), digests);
    }
    let mut raw = Vec::with_capacity(shapes.len() * 8);
    for s in &shapes {
        raw.extend_from_slice(&s.to_le_bytes());
    }
    let _ = std::fs::write(out.join(format!("shapes-{id}-{worker}")), raw);
    let cs: Vec<String> = counters.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
    println!(
        "RESULT {{\"runs\": {done}, \"nontrivial\": {nontrivial}, \"sim_time\": {sim_time}, \"steps\": {steps}, \"digest\": \"{all_digest:016x}\", \"counters\": {{{}}}, \"samples\": [{}]{extra}}}",
        cs.join(", "),
        samples.join(", ")
    );
    code
}

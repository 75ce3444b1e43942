//! The scheduler: forks the simulated processes, decides whose file operation happens next and with which fault.

use crate::os::{self, Op, Slot};
use simcore::{ensure, ev, Ctx, Run, Stop, Violation};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::sync::atomic::Ordering;

pub const MAX_ACTORS: usize = 8;

/// What an actor did, as it recorded it itself.
#[derive(Default)]
pub struct Rec(pub Vec<String>);

impl Rec {
    pub fn put(&mut self, parts: &[&str]) {
        let esc: Vec<String> = parts.iter().map(|v| v.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")).collect();
        self.0.push(esc.join("\t"));
    }
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

pub type OnEnd<'a> = &'a mut dyn FnMut(usize, &[Vec<String>]) -> Run;
/// Sees each file operation the moment it is done, while everybody stands still.
pub type OnStep<'a> = &'a mut dyn FnMut(&Action) -> Run;

pub type Body = Box<dyn FnOnce(&mut Rec) + Send>;

pub struct Proc {
    pub pid: u32,
    pub hash_seed: u64,
    pub env: Vec<(String, OsString)>,
    pub threads: Vec<Body>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum When {
    /// The n-th eligible operation only.
    Once(u64),
    /// From the n-th eligible operation on.
    From(u64),
}

#[derive(Clone, Debug)]
pub struct Hard {
    pub ops: Vec<Op>,
    pub when: When,
    pub errno: i32,
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Per mille of reads, writes and opens that are interrupted.
    pub eintr: u64,
    /// Per mille of reads and writes done in part only.
    pub short: u64,
    pub hard: Option<Hard>,
    /// Bytes that can still be written.
    pub room: Option<u64>,
    /// (process, operation number): the process dies instead of the operation.
    pub crash: Option<(usize, u64)>,
    /// (read number): the file ends early.
    pub eof: Option<u64>,
    /// Failure of the standard output.
    pub out: Option<(When, i32)>,
    /// Per mille of switches between actors at each operation.
    pub switch: u64,
    /// Processes these faults apply to (others run without); None: all.
    pub only: Option<usize>,
}

#[derive(Debug, Clone)]
pub struct Action {
    pub actor: usize,
    pub op: Op,
    pub path: String,
    pub path2: String,
    /// Bytes actually asked for.
    pub len: u64,
    pub failed: i32,
    pub result: i64,
    /// What reached the standard output.
    pub data: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum End {
    Finished,
    Crashed,
}

#[derive(Debug)]
pub struct Outcome {
    pub end: Vec<End>,
    pub lines: Vec<Vec<Vec<String>>>,
    pub actions: Vec<Action>,
    /// Errors injected, with the operation.
    pub hard_fired: Vec<(Op, i32, String)>,
    pub soft_fired: u64,
    pub eof_fired: bool,
    pub switches: u64,
    pub denied: Vec<String>,
    /// Operations per process.
    pub ops: Vec<u64>,
}

impl Outcome {
    /// Paths this run changed, relative to the scratch directory.
    pub fn touched(&self) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        for a in &self.actions {
            if a.failed != 0 || a.result < 0 {
                continue;
            }
            match a.op {
                Op::OpenWrite | Op::Mkdir | Op::Unlink | Op::Rmdir | Op::Trunc => v.push(a.path.clone()),
                Op::Rename | Op::Link => {
                    v.push(a.path.clone());
                    v.push(a.path2.clone());
                }
                _ => {}
            }
        }
        v.retain(|v| !v.is_empty());
        v.sort();
        v.dedup();
        v
    }
}

pub fn relative(p: &str) -> String {
    let n = os::normal(p);
    match n.strip_prefix(os::root()) {
        Some(v) => v.trim_start_matches('/').to_string(),
        None => n,
    }
}

pub struct Sched {
    slots: *mut [Slot; MAX_ACTORS],
}

struct Actor {
    proc_: usize,
    alive: bool,
    fds: BTreeMap<i32, String>,
    blocked: u64,
    eintr_row: u32,
    pending: bool,
    /// Index of the action whose result has not come back yet.
    open_action: Option<usize>,
}

fn errno_name(e: i32) -> &'static str {
    match e {
        os::EIO => "EIO",
        os::EACCES => "EACCES",
        os::ENOSPC => "ENOSPC",
        os::EROFS => "EROFS",
        os::EDQUOT => "EDQUOT",
        os::EMFILE => "EMFILE",
        os::EPERM => "EPERM",
        os::EPIPE => "EPIPE",
        os::EINTR => "EINTR",
        os::ENOENT => "ENOENT",
        _ => "E?",
    }
}

fn fault_counter(e: i32) -> &'static str {
    match e {
        os::EIO => "fault.error.EIO",
        os::EACCES => "fault.error.EACCES",
        os::ENOSPC => "fault.error.ENOSPC",
        os::EROFS => "fault.error.EROFS",
        os::EDQUOT => "fault.error.EDQUOT",
        os::EMFILE => "fault.error.EMFILE",
        os::EPERM => "fault.error.EPERM",
        os::EPIPE => "fault.error.EPIPE",
        _ => "fault.error.other",
    }
}

impl Sched {
    pub fn new() -> Sched {
        Sched { slots: os::shared() }
    }

    fn slot(&self, k: usize) -> &'static mut Slot {
        unsafe { &mut (*self.slots)[k] }
    }

    /// Run the processes to their ends.
    pub fn run(&self, ctx: &mut Ctx, procs: Vec<Proc>, plan: &Plan) -> Run<Outcome> {
        self.run_watched(ctx, procs, plan, &mut |_, _| Ok(()))
    }

    pub fn run_observed(&self, ctx: &mut Ctx, procs: Vec<Proc>, plan: &Plan, on_step: OnStep) -> Run<Outcome> {
        self.run_all(ctx, procs, plan, &mut |_, _| Ok(()), on_step)
    }

    /// `on_end` sees each actor's record the moment it finishes, while the others stand still.
    pub fn run_watched(&self, ctx: &mut Ctx, procs: Vec<Proc>, plan: &Plan, on_end: OnEnd) -> Run<Outcome> {
        self.run_all(ctx, procs, plan, on_end, &mut |_| Ok(()))
    }

    fn run_all(&self, ctx: &mut Ctx, procs: Vec<Proc>, plan: &Plan, on_end: OnEnd, on_step: OnStep) -> Run<Outcome> {
        let mut actors: Vec<Actor> = Vec::new();
        let mut pids: Vec<Option<i32>> = Vec::new();
        let nprocs = procs.len();
        let dir_order = ctx.draw64();
        for (k, p) in procs.into_iter().enumerate() {
            let first = actors.len();
            let n = p.threads.len();
            assert!(first + n <= MAX_ACTORS);
            for a in first..first + n {
                let s = self.slot(a);
                s.state.store(os::RUNNING, Ordering::SeqCst);
                s.result_len = 0;
                s.last = 0;
                s.now = 0;
                actors.push(Actor { proc_: k, alive: true, fds: BTreeMap::new(), blocked: 0, eintr_row: 0, pending: false, open_action: None });
            }
            let r = os::fork();
            if r == 0 {
                child(self.slots, first, p, dir_order);
            }
            if r < 0 {
                return Err(Stop::Harness("fork failed".into()));
            }
            pids.push(Some(r));
            // Its actors reach their first operation before anything else happens.
            for a in first..first + n {
                self.await_slot(a, &pids, &actors)?;
                actors[a].pending = true;
            }
        }
        let mut out = Outcome {
            end: vec![End::Finished; nprocs],
            lines: vec![Vec::new(); actors.len()],
            actions: Vec::new(),
            hard_fired: Vec::new(),
            soft_fired: 0,
            eof_fired: false,
            switches: 0,
            denied: Vec::new(),
            ops: vec![0; nprocs],
        };
        let res = self.drive(ctx, plan, &mut actors, &mut pids, &mut out, on_end, on_step);
        for p in pids.iter_mut() {
            if let Some(p) = p.take() {
                if res.is_err() {
                    os::kill(p);
                }
                os::wait_pid(p, true);
            }
        }
        res?;
        Ok(out)
    }

    fn await_slot(&self, a: usize, pids: &[Option<i32>], actors: &[Actor]) -> Run {
        let s = self.slot(a);
        let mut spins = 0;
        loop {
            let v = s.state.load(Ordering::SeqCst);
            if v != os::RUNNING {
                return Ok(());
            }
            spins += 1;
            if spins < 200 {
                std::hint::spin_loop();
                continue;
            }
            os::futex_wait(&s.state, v, 100);
            if s.state.load(Ordering::SeqCst) == os::RUNNING {
                if let Some(p) = pids[actors[a].proc_] {
                    if let Some(st) = os::wait_pid(p, false) {
                        if s.state.load(Ordering::SeqCst) != os::RUNNING {
                            continue;
                        }
                        // The process is gone without a word: killed by a signal or aborted.
                        return Err(Violation::new("crash", format!("the process ends with status {st:#x} (signal {})", st & 0x7f)).into());
                    }
                }
            }
        }
    }

    fn drive(&self, ctx: &mut Ctx, plan: &Plan, actors: &mut [Actor], pids: &mut [Option<i32>], out: &mut Outcome, on_end: OnEnd, on_step: OnStep) -> Run {
        let mut current = 0usize;
        let mut hard_seen = 0u64;
        let mut reads = 0u64;
        let mut outs = 0u64;
        let mut room = plan.room;
        let mut all_blocked = 0u64;
        loop {
            // Collect the ends.
            for a in 0..actors.len() {
                if !actors[a].alive {
                    continue;
                }
                let s = self.slot(a);
                if s.state.load(Ordering::SeqCst) == os::DONE {
                    actors[a].alive = false;
                    if let Some(i) = actors[a].open_action.take() {
                        out.actions[i].result = s.last;
                    }
                    let text = String::from_utf8_lossy(&s.result[..s.result_len as usize]).into_owned();
                    ensure_result(&s)?;
                    out.lines[a] = text.lines().map(|l| l.split('\t').map(unesc).collect()).collect();
                    ev!(ctx, "end", "actor {a}");
                    // Let the process go on to its own end if all its actors are through.
                    let p = actors[a].proc_;
                    if !actors.iter().any(|v| v.proc_ == p && v.alive) {
                        if let Some(pid) = pids[p].take() {
                            os::wait_pid(pid, true);
                        }
                    }
                    if let Some(l) = out.lines[a].iter().find(|l| l[0] == "panic") {
                        if l[1] == "harness" {
                            return Err(Stop::Harness(l[2].clone()));
                        }
                        simcore::violation!("panic", "{}", l[2]);
                    }
                    on_end(a, &out.lines[a])?;
                }
            }
            let mut ready: Vec<usize> = (0..actors.len()).filter(|a| actors[*a].alive).collect();
            if ready.is_empty() {
                return Ok(());
            }
            // Those waiting for a lock come last.
            let free: Vec<usize> = ready.iter().copied().filter(|a| self.slot(*a).op != Op::Block as u32 || actors[*a].blocked == 0).collect();
            if !free.is_empty() {
                ready = free;
                all_blocked = 0;
            } else {
                all_blocked += 1;
                if all_blocked > 100 {
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
                ensure!(all_blocked < 10_000, "deadlock", "every caller waits for a lock");
            }
            let next = if ready.len() == 1 {
                ready[0]
            } else if ready.contains(&current) && all_blocked == 0 && !ctx.chance(plan.switch) {
                current
            } else {
                // A new choice; the simple one is the first.
                *ctx.pick(&ready)
            };
            if next != current {
                if actors[current].alive {
                    out.switches += 1;
                    ev!(ctx, "switch", "to actor {next}");
                }
                current = next;
            }
            let a = next;
            let s = self.slot(a);
            let op = os::OPS[s.op as usize];
            // The result of the operation before.
            if let Some(i) = actors[a].open_action.take() {
                out.actions[i].result = s.last;
                let done = &out.actions[i];
                if s.last >= 0 && matches!(done.op, Op::OpenRead | Op::OpenWrite) {
                    let p = done.path.clone();
                    actors[a].fds.insert(s.last as i32, p);
                }
            }
            if op == Op::Block {
                actors[a].blocked += 1;
                if (0..actors.len()).all(|v| !actors[v].alive || self.slot(v).op == Op::Block as u32) {
                    // Nothing happens until somebody's wait is over.
                    ctx.now += s.len.min(1 << 20);
                }
                s.verdict = os::GO;
                s.now = ctx.now;
                self.resume(a, pids, actors)?;
                continue;
            }
            actors[a].blocked = 0;
            // Reset the waiters: the world moved on.
            for v in actors.iter_mut() {
                v.blocked = 0;
            }
            let p = actors[a].proc_;
            let faulty = plan.only.map(|v| v == p).unwrap_or(true);
            let mut data = if op == Op::Stdout { s.data() } else { Vec::new() };
            let (path, path2) = if op == Op::Stdout { ("stdout".to_string(), String::new()) } else if s.fd >= 0 { (actors[a].fds.get(&s.fd).cloned().unwrap_or_default(), String::new()) } else { (relative(&s.path(0)), if s.path_len[1] > 0 { relative(&s.path(1)) } else { String::new() }) };
            ctx.now += 1;
            let mut verdict = (os::GO, 0u64);
            let n = out.ops[p];
            if op == Op::Mark {
                out.actions.push(Action { actor: a, op, path: String::new(), path2: String::new(), len: 0, failed: 0, result: 0, data: Vec::new() });
            }
            let silent = matches!(op, Op::Start | Op::Mark);
            if !silent {
                out.ops[p] += 1;
            }
            if op == Op::Denied {
                out.denied.push(format!("{path}{}{path2}", if path2.is_empty() { "" } else { " -> " }));
                ev!(ctx, "denied", "actor {a} {path} {path2}");
            } else if !silent && plan.crash == Some((p, n)) {
                ctx.count("fault.crash");
                ev!(ctx, "crash", "process {p} instead of {op:?} {path} {path2}");
                out.end[p] = End::Crashed;
                s.verdict = os::DIE;
                s.state.store(os::RUNNING, Ordering::SeqCst);
                os::futex_wake(&s.state);
                if let Some(pid) = pids[p].take() {
                    os::wait_pid(pid, true);
                }
                for v in actors.iter_mut() {
                    if v.proc_ == p {
                        v.alive = false;
                    }
                }
                continue;
            } else if faulty {
                // Hard faults.
                if let Some(h) = &plan.hard {
                    let exists = op == Op::Mkdir && std::path::Path::new(&format!("{}/{path}", os::root())).exists();
                    if h.ops.contains(&op) && !exists {
                        let hit = match h.when {
                            When::Once(k) => hard_seen == k,
                            When::From(k) => hard_seen >= k,
                        };
                        hard_seen += 1;
                        if hit {
                            verdict = (os::FAIL, h.errno as u64);
                            out.hard_fired.push((op, h.errno, path.clone()));
                            ctx.count(fault_counter(h.errno));
                        }
                    }
                }
                if verdict.0 == os::GO && op == Op::Write {
                    if let Some(r) = &mut room {
                        if s.len > *r {
                            if *r > 0 {
                                verdict = (os::SHORT, *r);
                                ctx.count("fault.short_write");
                                *r = 0;
                            } else {
                                verdict = (os::FAIL, os::ENOSPC as u64);
                                out.hard_fired.push((op, os::ENOSPC, path.clone()));
                                ctx.count("fault.error.ENOSPC");
                            }
                        } else {
                            *r -= s.len;
                        }
                    }
                }
                if op == Op::Read {
                    if plan.eof == Some(reads) && verdict.0 == os::GO {
                        verdict = (os::SHORT, 0);
                        out.eof_fired = true;
                        ctx.count("fault.early_end");
                    }
                    reads += 1;
                }
                if op == Op::Stdout {
                    if let Some((w, e)) = plan.out {
                        if matches!(w, When::Once(k) if k == outs) || matches!(w, When::From(k) if k <= outs) {
                            verdict = (os::FAIL, e as u64);
                            out.hard_fired.push((op, e, path.clone()));
                            ctx.count("fault.stdout_error");
                        }
                    }
                    outs += 1;
                }
                if verdict.0 == os::GO && plan.eintr > 0 && matches!(op, Op::Read | Op::Write | Op::Stdout | Op::OpenRead | Op::OpenWrite) && actors[a].eintr_row < 3 && ctx.chance(plan.eintr) {
                    verdict = (os::FAIL, os::EINTR as u64);
                    actors[a].eintr_row += 1;
                    out.soft_fired += 1;
                    ctx.count("fault.eintr");
                } else {
                    actors[a].eintr_row = 0;
                }
                if verdict.0 == os::GO && plan.short > 0 && matches!(op, Op::Read | Op::Write | Op::Stdout) && s.len > 1 && ctx.chance(plan.short) {
                    let n = if ctx.chance(500) { 1 + ctx.draw((s.len - 1).min(16)) } else { 1 + ctx.draw(s.len - 1) };
                    verdict = (os::SHORT, n);
                    out.soft_fired += 1;
                    ctx.count(if op == Op::Read { "fault.short_read" } else { "fault.short_write" });
                }
            }
            if !silent && op != Op::Denied {
                let what = match verdict.0 {
                    os::GO => String::new(),
                    os::SHORT => format!(" only {} bytes", verdict.1),
                    _ => format!(" fails: {}", errno_name(verdict.1 as i32)),
                };
                let arrow = if path2.is_empty() { String::new() } else { format!(" -> {path2}") };
                let kind: &'static str = match (op, verdict.0) {
                    (_, os::FAIL) => "fail",
                    (_, os::SHORT) => "short",
                    (Op::OpenRead, _) => "open-r",
                    (Op::OpenWrite, _) => "open-w",
                    (Op::Read, _) => "read",
                    (Op::Write, _) => "write",
                    (Op::Close, _) => "close",
                    (Op::Mkdir, _) => "mkdir",
                    (Op::Rename, _) => "rename",
                    (Op::Stdout, _) => "stdout",
                    _ => "op",
                };
                ctx.event(kind, format_args!("actor {a} {op:?} {path}{arrow} {}{what}", if s.len > 0 { s.len.to_string() } else { String::new() }));
                match verdict.0 {
                    os::SHORT => data.truncate(verdict.1 as usize),
                    os::FAIL => data.clear(),
                    _ => {}
                }
                out.actions.push(Action {
                    actor: a,
                    op,
                    path,
                    path2,
                    len: if verdict.0 == os::SHORT { verdict.1 } else { s.len },
                    failed: if verdict.0 == os::FAIL { verdict.1 as i32 } else { 0 },
                    result: 0,
                    data,
                });
                actors[a].open_action = Some(out.actions.len() - 1);
            }
            s.verdict = verdict.0;
            s.arg = verdict.1;
            s.now = ctx.now;
            self.resume(a, pids, actors)?;
            if let Some(i) = actors[a].open_action {
                on_step(&out.actions[i])?;
            }
            if out.actions.len() > 200_000 {
                simcore::violation!("hang", "the run does not come to an end after {} file operations", out.actions.len());
            }
        }
    }

    fn resume(&self, a: usize, pids: &[Option<i32>], actors: &[Actor]) -> Run {
        let s = self.slot(a);
        s.state.store(os::RUNNING, Ordering::SeqCst);
        os::futex_wake(&s.state);
        self.await_slot(a, pids, actors)
    }
}

fn ensure_result(s: &Slot) -> Run {
    if s.result_len as usize >= os::RESULT_MAX {
        return Err(Stop::Harness("result of an actor too large".into()));
    }
    Ok(())
}

/// A simulated process.
fn child(slots: *mut [Slot; MAX_ACTORS], first: usize, p: Proc, dir_order: u64) -> ! {
    os::die_with_parent();
    for (k, v) in &p.env {
        std::env::set_var(k, v);
    }
    let clock = if p.hash_seed & 1 == 0 { 0 } else { simcore::rng::mix(p.hash_seed, 77) };
    if p.hash_seed & 2 != 0 {
        // Surroundings that have no say in what is generated.
        let odd = format!("v{:x}", simcore::rng::mix(p.hash_seed, 78));
        for k in ["USER", "HOME", "LANG", "LC_ALL", "TZ", "PWD", "HOSTNAME", "PROFILE", "DEBUG", "TARGET", "HOST", "CARGO_PKG_NAME", "CARGO_PKG_VERSION", "CARGO_MANIFEST_DIR", "SOURCE_DATE_EPOCH"] {
            if p.env.iter().all(|e| e.0 != k) {
                std::env::set_var(k, &odd);
            }
        }
    }
    os::enter_process(p.pid, dir_order, clock, if p.hash_seed & 2 != 0 { simcore::rng::mix(p.hash_seed, 79) | 1 } else { 0 });
    let mut handles = Vec::new();
    let base = slots as usize;
    let seed = p.hash_seed;
    for (k, body) in p.threads.into_iter().enumerate() {
        handles.push(std::thread::spawn(move || {
            let slot = unsafe { &mut (*(base as *mut [Slot; MAX_ACTORS]))[first + k] as *mut Slot };
            os::enter_actor(slot, simcore::rng::mix(seed, k as u64));
            let mut rec = Rec::default();
            os::start();
            match simcore::sut::guard(|| body(&mut rec)) {
                Ok(()) => {}
                Err(simcore::sut::Caught::Injected) => rec.put(&["panic", "harness", "injected unwind"]),
                Err(simcore::sut::Caught::Panic(p)) => {
                    let at = format!("{} at {}:{}", p.msg, p.file, p.line);
                    os::outside(|| rec.put(&["panic", if p.is_harness() { "harness" } else { "sut" }, &at]));
                }
            }
            os::finish(slot, rec.0.join("\n").as_bytes());
        }));
    }
    for h in handles {
        let _ = h.join();
    }
    os::exit_now(0)
}

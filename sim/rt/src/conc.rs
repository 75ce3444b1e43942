//! C13: independent callers, one of them running at a time, switched wherever the library calls into their sinks
//! and buffers; or one caller running inside a callback of another.

use crate::enc::gen_item;
use crate::regs::*;
use crate::world::*;
use rtsim::api::*;
use rtsim::glue::{MSGS, STRUCTS, UNIONS};
use simcore::ctx::{Ctx, Run};
use simcore::refcodec::*;
use simcore::sut::{guard, host, inject_unwind, Caught, PanicInfo};
use simcore::{ensure, ev, violation};
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug)]
enum Task {
    Encode(usize, Val),
    Size(usize, Val),
    /// Append these items (some have no wire form) to a list and write it out.
    Build(usize, usize, Vec<Val>),
    Decode(usize, Arc<Vec<u8>>),
    Relay(usize, Arc<Vec<u8>>),
    Update(usize, Vec<u8>, Vec<(Vec<usize>, WOp)>),
    SetDisc(usize, Val, Vec<u8>),
}

/// How the sinks and buffers of one caller behave.
#[derive(Clone, Debug, Default)]
struct Env {
    /// Bytes accepted per call, cyclic.
    accept: Vec<usize>,
    /// (call number over the life of the caller, what happens there)
    fail: Vec<(usize, Act)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Error,
    Interrupt,
    Unwind,
}

/// Called at every callback: lets the simulator run someone else.
type Yield = Arc<dyn Fn() + Send + Sync>;

struct Hook {
    env: Env,
    calls: Mutex<usize>,
    yield_now: Yield,
}

impl Hook {
    fn call(&self, len: usize) -> std::io::Result<usize> {
        (self.yield_now)();
        let n = {
            let mut c = self.calls.lock().unwrap();
            *c += 1;
            *c
        };
        for (at, act) in &self.env.fail {
            if *at == n {
                match act {
                    Act::Error => return Err(std::io::Error::from_raw_os_error(28)),
                    Act::Interrupt => return Err(std::io::ErrorKind::Interrupted.into()),
                    Act::Unwind => inject_unwind(),
                }
            }
        }
        if len == 0 {
            return Ok(0);
        }
        Ok(self.env.accept[n % self.env.accept.len()].min(len).max(1))
    }
}

struct BufOf(Arc<Hook>);

impl BufHook for BufOf {
    fn write(&self, data: &mut Vec<u8>, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.0.call(buf.len())?;
        data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn touch(&self, _mutable: bool) {
        (self.0.yield_now)();
    }
}

struct SinkOf(Arc<Hook>, Vec<u8>);

impl Write for SinkOf {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        host(|| {
            let n = self.0.call(buf.len())?;
            self.1.extend_from_slice(&buf[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Run one task; the log line says everything the caller can observe.
fn perform(t: &Task, hook: &Arc<Hook>) -> Result<String, PanicInfo> {
    // Kept outside the guard: what a torn down call leaves behind is observable too.
    let sink = RefCell::new(SinkOf(hook.clone(), Vec::new()));
    let r = guard(|| match t {
        Task::Encode(m, v) => {
            let r = (MSGS[*m].encode)(v, &mut *sink.borrow_mut());
            format!("{r:?}")
        }
        Task::Size(m, v) => {
            (hook.yield_now)();
            format!("{:?}", (MSGS[*m].size_of)(v))
        }
        Task::Build(m, k, items) => {
            let mut b = (MSGS[*m].lists[*k].builder)(SimBuf::new(Arc::new(BufOf(hook.clone()))));
            let mut s = String::new();
            for v in items {
                let r = guard(|| b.push(v));
                match r {
                    Ok(r) => s += &format!("{r:?} {} ", b.len()),
                    Err(Caught::Injected) => s += &format!("unwound {} ", b.len()),
                    Err(Caught::Panic(p)) => return format!("panic {p:?}"),
                }
                (hook.yield_now)();
            }
            let n = b.len();
            let (l, p) = b.items();
            let head = &l.items[..n.min(l.items.len())];
            let r = b.write(&mut *sink.borrow_mut());
            let size = b.size();
            s + &format!("{head:?} {:?} {r:?} {size:?}", p.len())
        }
        Task::Decode(m, b) => {
            (hook.yield_now)();
            let mut w = Walk::new(b.len());
            w.offsets = true;
            let r = (MSGS[*m].decode)(b, &mut w);
            let o = (MSGS[*m].decode_off)(b, &mut w);
            format!("{r:?} {o:?} {:?}", w.problems)
        }
        Task::Relay(m, b) => format!("{:?}", (MSGS[*m].relay)(b, &mut *sink.borrow_mut())),
        Task::Update(k, init, ops) => {
            let mut s = String::new();
            let mut b = SimBuf::new(Arc::new(BufOf(hook.clone())));
            b.data = init.clone();
            let mut r = (STRUCTS[*k].reg)(b);
            for (path, op) in ops {
                r.write(path, op);
                (hook.yield_now)();
                let loc = locs(*k).iter().find(|l| &l.path == path).unwrap();
                let rop = if loc.array().is_some() { ROp::Iter } else { ROp::View };
                s += &format!("{:?} ", r.read(path, &rop));
            }
            s
        }
        Task::SetDisc(u, v, root) => {
            let mut root = root.clone();
            let r = (UNIONS[*u].set_disc)(v, &mut root);
            let w = (UNIONS[*u].write)(v, &root, &mut *sink.borrow_mut());
            format!("{r:?} {root:?} {w:?}")
        }
    });
    let bytes = hex(&sink.borrow().1);
    match r {
        Ok(s) => Ok(format!("{s} | {bytes}")),
        Err(Caught::Injected) => Ok(format!("unwound | {bytes}")),
        Err(Caught::Panic(p)) => Err(p),
    }
}

#[derive(Clone)]
struct Caller {
    env: Env,
    tasks: Vec<Task>,
}

impl Caller {
    fn run(&self, y: Yield) -> (Vec<String>, Option<PanicInfo>) {
        let hook = Arc::new(Hook { env: self.env.clone(), calls: Mutex::new(0), yield_now: y });
        let mut log = Vec::new();
        for t in &self.tasks {
            match perform(t, &hook) {
                Ok(s) => log.push(s),
                Err(p) => return (log, Some(p)),
            }
        }
        (log, None)
    }
}

fn draw_task(ctx: &mut Ctx, shared: &[(usize, Arc<Vec<u8>>)]) -> Task {
    let w = world();
    let sz = Size { level: 1, long: false };
    let msg = |ctx: &mut Ctx| {
        let m = ctx.below(world().general);
        let mut v = gen_msg(ctx, w, m, sz);
        if ctx.below(8) == 0 {
            spoil(ctx, w, m, &mut v);
        }
        (m, v)
    };
    match ctx.weighted(&[5, 2, 5, 2, 2, 4, 2]) {
        0 => {
            let (m, v) = msg(ctx);
            Task::Encode(m, v)
        }
        1 => {
            let (m, v) = msg(ctx);
            Task::Size(m, v)
        }
        2 => {
            let (m, k) = if ctx.below(3) == 0 { *ctx.pick(&w.arrays) } else { *ctx.pick(&w.lists) };
            let ops = &MSGS[m].lists[k];
            let n = ctx.below(5);
            let items = (0..n)
                .map(|_| {
                    let mut v = gen_item(ctx, m, ops.field);
                    if let simcore::schema::MKind::List { item, .. } = w.s.msgs[m].fields[ops.field].kind {
                        if ctx.below(4) == 0 {
                            spoil(ctx, w, item, &mut v);
                        }
                    }
                    v
                })
                .collect();
            Task::Build(m, k, items)
        }
        3 | 4 => {
            let (m, b) = if ctx.below(2) == 0 {
                ctx.pick(shared).clone()
            } else {
                let m = ctx.below(world().general);
                let v = gen_msg(ctx, w, m, sz);
                let mut b = encode(&w.s, m, &v).expect("valid value");
                if ctx.below(3) == 0 {
                    crate::net::damage(ctx, &mut b, &[]);
                }
                (m, Arc::new(b))
            };
            if ctx.below(3) == 0 {
                Task::Relay(m, b)
            } else {
                Task::Decode(m, b)
            }
        }
        5 => {
            let k = draw_struct(ctx);
            let init = gen_struct(ctx, w, k);
            let n = ctx.range(1, 5);
            let l = locs(k);
            let ops = (0..n)
                .map(|_| {
                    let r = &l[ctx.below(l.len())];
                    let op = match r.array() {
                        Some((_, len, bits)) => WOp::Item(ctx.below(len), gen_raw(ctx, bits)),
                        None => WOp::View(r.draw_view(ctx)),
                    };
                    (r.path.clone(), op)
                })
                .collect();
            Task::Update(k, init, ops)
        }
        _ => {
            let u = ctx.below(UNIONS.len());
            let v = gen_case(ctx, w, u, Size::small());
            Task::SetDisc(u, v, gen_struct(ctx, w, w.s.unions[u].root))
        }
    }
}

fn draw_caller(ctx: &mut Ctx, shared: &[(usize, Arc<Vec<u8>>)], unwind: bool) -> Caller {
    let n = ctx.range(1, 4);
    let accept = (0..ctx.range(1, 3)).map(|_| *ctx.pick(&[1usize, 2, 3, 5, 64, 1 << 20])).collect();
    let mut fail = Vec::new();
    for _ in 0..ctx.below(3) {
        let act = match ctx.weighted(&[2, 2, if unwind { 3 } else { 0 }]) {
            0 => Act::Error,
            1 => Act::Interrupt,
            _ => Act::Unwind,
        };
        fail.push((1 + ctx.below(40), act));
    }
    Caller { env: Env { accept, fail }, tasks: (0..n).map(|_| draw_task(ctx, shared)).collect() }
}

// ---------------------------------------------------------------------------------------------
// One baton: the caller that holds it runs.

struct State {
    current: usize,
    alive: Vec<bool>,
    schedule: Vec<u64>,
    pos: usize,
    switches: u64,
    trace: Vec<u8>,
}

struct Baton {
    s: Mutex<State>,
    c: Vec<Condvar>,
}

impl Baton {
    fn choose(s: &mut State) -> usize {
        let live: Vec<usize> = (0..s.alive.len()).filter(|k| s.alive[*k]).collect();
        if live.is_empty() {
            return usize::MAX;
        }
        let d = s.schedule.get(s.pos).copied();
        s.pos += 1;
        match d {
            // 0: whoever runs goes on.
            None | Some(0) if s.alive.get(s.current) == Some(&true) => s.current,
            d => live[d.unwrap_or(0) as usize % live.len()],
        }
    }

    fn yield_now(&self, me: usize) {
        let mut s = self.s.lock().unwrap();
        let next = Self::choose(&mut s);
        if next == me {
            return;
        }
        s.switches += 1;
        s.trace.push(next as u8);
        s.current = next;
        self.c[next].notify_one();
        while s.current != me {
            s = self.c[me].wait(s).unwrap();
        }
    }

    fn start(&self, me: usize) {
        let mut s = self.s.lock().unwrap();
        while s.current != me {
            s = self.c[me].wait(s).unwrap();
        }
    }

    fn done(&self, me: usize) {
        let mut s = self.s.lock().unwrap();
        s.alive[me] = false;
        let next = Self::choose(&mut s);
        s.current = next;
        if next != usize::MAX {
            s.trace.push(next as u8);
            self.c[next].notify_one();
        }
    }
}

fn nop() -> Yield {
    Arc::new(|| {})
}

fn in_thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> std::thread::JoinHandle<R> {
    std::thread::Builder::new().stack_size(1 << 20).spawn(f).expect("thread")
}

/// C13.
pub fn c13(ctx: &mut Ctx) -> Run {
    let w = world();
    let n = ctx.range(2, 4);
    // Bytes that several callers decode at the same time.
    let shared: Vec<(usize, Arc<Vec<u8>>)> = (0..2)
        .map(|_| {
            let m = ctx.below(world().general);
            let v = gen_msg(ctx, w, m, Size { level: 1, long: false });
            (m, Arc::new(encode(&w.s, m, &v).expect("valid value")))
        })
        .collect();
    let nested = ctx.below(3) == 0;
    let unwind = ctx.below(2) == 0;
    let mut callers: Vec<Caller> = (0..n).map(|_| draw_caller(ctx, &shared, unwind)).collect();
    if ctx.below(3) == 0 {
        // Callers that do the same work meet at the same places.
        let c = callers[0].tasks.clone();
        callers[1].tasks = c;
    }
    let schedule: Vec<u64> = (0..ctx.range(1, 160)).map(|_| ctx.draw(6)).collect();
    // Alone first, each on a thread of its own.
    let mut solo = Vec::new();
    for c in &callers {
        let c = c.clone();
        let (log, p) = in_thread(move || c.run(nop())).join().expect("caller");
        if let Some(p) = p {
            simcore::sut::rethrow(p);
        }
        solo.push(log);
    }
    let mut unwinds = 0;
    for (c, log) in callers.iter().zip(&solo) {
        ctx.now += 1;
        ev!(ctx, "solo", "{} tasks, {:?}", c.tasks.len(), c.env);
        unwinds += log.iter().filter(|l| l.contains("unwound")).count();
    }
    ctx.count_n("fault.caller_unwound", unwinds as u64);
    let together: Vec<Vec<String>> = if nested {
        nested_run(ctx, &callers, &schedule)?
    } else {
        let baton = Arc::new(Baton {
            s: Mutex::new(State { current: usize::MAX, alive: vec![true; n], schedule, pos: 0, switches: 0, trace: Vec::new() }),
            c: (0..n).map(|_| Condvar::new()).collect(),
        });
        let handles: Vec<_> = callers
            .iter()
            .cloned()
            .enumerate()
            .map(|(k, c)| {
                let b = baton.clone();
                in_thread(move || {
                    b.start(k);
                    let y = b.clone();
                    let r = guard(|| c.run(Arc::new(move || y.yield_now(k))));
                    b.done(k);
                    match r {
                        Ok(v) => v,
                        Err(Caught::Panic(p)) => (Vec::new(), Some(p)),
                        Err(Caught::Injected) => (vec!["unwound".into()], None),
                    }
                })
            })
            .collect();
        {
            let mut s = baton.s.lock().unwrap();
            s.current = 0;
            baton.c[0].notify_one();
        }
        let mut logs = Vec::new();
        for h in handles {
            let (log, p) = h.join().expect("caller");
            if let Some(p) = p {
                simcore::sut::rethrow(p);
            }
            logs.push(log);
        }
        let s = baton.s.lock().unwrap();
        ctx.count_n("fault.caller_switched", s.switches);
        ctx.now += s.switches;
        ctx.nontrivial = s.switches > 0;
        ctx.shape = simcore::rng::hash_bytes(ctx.shape, &s.trace);
        ctx.event("interleaved", format_args!("interleaved {} switches: {:?}", s.switches, &s.trace[..s.trace.len().min(64)]));
        logs
    };
    for (k, (a, b)) in solo.iter().zip(&together).enumerate() {
        for (t, (x, y)) in a.iter().zip(b).enumerate() {
            ensure!(x == y, "disturbed", "caller {k} task {t} ({}): alone {}, with others {}", short(&callers[k].tasks[t]), short(x), short(y));
        }
        ensure!(a.len() == b.len(), "disturbed", "caller {k} finished {} of {} tasks", b.len(), a.len());
    }
    // And nothing stays behind: the first caller once more, alone.
    let c = callers[0].clone();
    let (log, p) = c.run(nop());
    if let Some(p) = p {
        simcore::sut::rethrow(p);
    }
    ensure!(log == solo[0], "disturbed", "after all callers finished, the first one obtains something else");
    Ok(())
}

/// All on one thread: inside callbacks of the first caller the others run, task by task.
fn nested_run(ctx: &mut Ctx, callers: &[Caller], schedule: &[u64]) -> Run<Vec<Vec<String>>> {
    struct Inner {
        schedule: Vec<u64>,
        pos: usize,
        waiting: Vec<(usize, Task)>,
        logs: Vec<Vec<String>>,
        hooks: Vec<Arc<Hook>>,
        panic: Option<PanicInfo>,
        depth: usize,
        nested: u64,
    }
    let mut waiting: Vec<(usize, Task)> = Vec::new();
    let most = callers[1..].iter().map(|c| c.tasks.len()).max().unwrap_or(0);
    for t in 0..most {
        for (k, c) in callers.iter().enumerate().skip(1) {
            if let Some(t) = c.tasks.get(t) {
                waiting.push((k, t.clone()));
            }
        }
    }
    let inner = Rc::new(RefCell::new(Inner { schedule: schedule.to_vec(), pos: 0, waiting, logs: vec![Vec::new(); callers.len()], hooks: Vec::new(), panic: None, depth: 0, nested: 0 }));
    fn step(inner: &Rc<RefCell<Inner>>, force: bool) {
        let (k, t, h) = {
            let mut i = inner.borrow_mut();
            if i.waiting.is_empty() || i.panic.is_some() || i.depth >= 3 {
                return;
            }
            let d = i.schedule.get(i.pos).copied().unwrap_or(0);
            i.pos += 1;
            if d < 3 && !force {
                return;
            }
            // A caller whose task is under way cannot start its next one.
            let (k, t) = i.waiting[0].clone();
            if Arc::strong_count(&i.hooks[k]) > 1 {
                return;
            }
            i.waiting.remove(0);
            i.depth += 1;
            i.nested += 1;
            (k, t, i.hooks[k].clone())
        };
        let r = perform(&t, &h);
        drop(h);
        let mut i = inner.borrow_mut();
        i.depth -= 1;
        match r {
            Ok(s) => i.logs[k].push(s),
            Err(p) => i.panic = Some(p),
        }
    }
    // The callbacks only ever run on this thread; the pointer stays valid until the end of this function.
    struct Local(*const Rc<RefCell<Inner>>);
    unsafe impl Send for Local {}
    unsafe impl Sync for Local {}
    impl Local {
        fn go(&self) {
            step(unsafe { &*self.0 }, false)
        }
    }
    let hooks: Vec<Arc<Hook>> = callers
        .iter()
        .map(|c| {
            let l = Local(&inner);
            Arc::new(Hook { env: c.env.clone(), calls: Mutex::new(0), yield_now: Arc::new(move || l.go()) })
        })
        .collect();
    inner.borrow_mut().hooks = hooks.iter().cloned().collect();
    // One reference is held by `inner`; `step` sees more while a task runs.
    let first = hooks[0].clone();
    drop(hooks);
    for t in &callers[0].tasks {
        match perform(t, &first) {
            Ok(s) => inner.borrow_mut().logs[0].push(s),
            Err(p) => inner.borrow_mut().panic = Some(p),
        }
        if inner.borrow().panic.is_some() {
            break;
        }
    }
    while !inner.borrow().waiting.is_empty() && inner.borrow().panic.is_none() {
        step(&inner, true);
    }
    let panic = inner.borrow_mut().panic.take();
    if let Some(p) = panic {
        simcore::sut::rethrow(p);
    }
    let i = inner.borrow();
    if i.logs[0].len() < callers[0].tasks.len() {
        violation!("disturbed", "the outer caller did not finish");
    }
    ctx.count_n("fault.caller_nested", i.nested);
    ctx.now += i.nested;
    ctx.nontrivial = i.nested > 0;
    ctx.event("nested", format_args!("nested {} tasks ran inside callbacks", i.nested));
    let logs = i.logs.clone();
    drop(i);
    // Break the cycle inner -> hooks.
    inner.borrow_mut().hooks.clear();
    Ok(logs)
}

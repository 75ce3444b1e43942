//! The simulated operating system boundary: this binary's own definitions of the libc entry points the standard
//! library uses for files, directories, random bytes and time. Outside of simulated processes they pass through.
//!
//! In a simulated process every entry point first hands its operation to the scheduler in the parent process (see
//! `sched`) and waits for its turn and for the verdict: proceed, proceed partly, fail with an error, or die here.

use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EACCES: i32 = 13;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EROFS: i32 = 30;
pub const EPIPE: i32 = 32;
pub const EDQUOT: i32 = 122;

const AT_FDCWD: c_int = -100;
const O_WRONLY: c_int = 1;
const O_RDWR: c_int = 2;
const O_CREAT: c_int = 0o100;
const O_TRUNC: c_int = 0o1000;
const O_DIRECTORY: c_int = 0o200000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum Op {
    Start,
    OpenRead,
    OpenWrite,
    Read,
    Write,
    Close,
    Mkdir,
    Rename,
    Unlink,
    Rmdir,
    Sync,
    Trunc,
    Link,
    Chmod,
    Stat,
    Block,
    /// Output of the process; the data is in the place of the paths.
    Stdout,
    /// A place in the log of operations that the harness refers to.
    Mark,
    /// A mutation outside of the scratch directory: refused and recorded.
    Denied,
}

pub const OPS: [Op; 19] = [
    Op::Start,
    Op::OpenRead,
    Op::OpenWrite,
    Op::Read,
    Op::Write,
    Op::Close,
    Op::Mkdir,
    Op::Rename,
    Op::Unlink,
    Op::Rmdir,
    Op::Sync,
    Op::Trunc,
    Op::Link,
    Op::Chmod,
    Op::Stat,
    Op::Block,
    Op::Stdout,
    Op::Mark,
    Op::Denied,
];

/// Verdicts.
pub const GO: u32 = 0;
pub const SHORT: u32 = 1;
pub const FAIL: u32 = 2;
pub const DIE: u32 = 3;

/// States of a slot.
pub const RUNNING: u32 = 0;
pub const WAITING: u32 = 1;
pub const DONE: u32 = 2;
pub const DEAD: u32 = 3;

pub const RESULT_MAX: usize = 1 << 19;
const PATH_MAX: usize = 1024;

/// One actor's mailbox in memory shared between the scheduler and the simulated processes.
#[repr(C)]
pub struct Slot {
    pub state: AtomicU32,
    pub op: u32,
    pub fd: i32,
    pub len: u64,
    /// Result of the previous operation.
    pub last: i64,
    pub path_len: [u32; 2],
    pub paths: [[u8; PATH_MAX]; 2],
    pub verdict: u32,
    pub arg: u64,
    pub now: u64,
    pub result_len: u32,
    pub result: [u8; RESULT_MAX],
}

impl Slot {
    pub fn path(&self, k: usize) -> String {
        String::from_utf8_lossy(&self.paths[k][..self.path_len[k] as usize]).into_owned()
    }

    /// What is to be written to the standard output.
    pub fn data(&self) -> Vec<u8> {
        (0..2).flat_map(|k| &self.paths[k][..self.path_len[k] as usize]).copied().collect()
    }
}

thread_local! {
    static SLOT: Cell<*mut Slot> = const { Cell::new(std::ptr::null_mut()) };
    static RANDOM: Cell<u64> = const { Cell::new(0) };
    pub static STDOUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static NEXT_FAIL: Cell<i32> = const { Cell::new(0) };
}

/// Identity of this simulated process; 0: not simulated.
static PID: AtomicU32 = AtomicU32::new(0);
static DIR_ORDER: AtomicU64 = AtomicU64::new(0);
/// What the clock of this process shows: 0 the common time, otherwise a time of its own that also jumps.
static CLOCK: AtomicU64 = AtomicU64::new(0);
/// Seed of the environment variables of this process, 0 if they are those of the simulator.
static ENVIRONMENT: AtomicU64 = AtomicU64::new(0);
const EPOCH: i64 = 1_700_000_000;

pub struct Root(pub String);
static ROOT: std::sync::OnceLock<Root> = std::sync::OnceLock::new();

pub fn set_root(r: &str) {
    let _ = ROOT.set(Root(r.into()));
}

pub fn root() -> &'static str {
    ROOT.get().map(|v| &*v.0).unwrap_or("/nonexistent")
}

pub fn enter_process(pid: u32, dir_order: u64, clock: u64, environment: u64) {
    ENVIRONMENT.store(environment, Ordering::SeqCst);
    CLOCK.store(clock, Ordering::SeqCst);
    PID.store(pid, Ordering::SeqCst);
    DIR_ORDER.store(dir_order, Ordering::SeqCst);
}

pub fn enter_actor(slot: *mut Slot, random: u64) {
    RANDOM.with(|v| v.set(random));
    SLOT.with(|v| v.set(slot));
}

pub fn leave_actor() {
    SLOT.with(|v| v.set(std::ptr::null_mut()));
}

/// Run code of the harness inside of an actor without simulation.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let s = SLOT.with(|v| v.replace(std::ptr::null_mut()));
    let r = f();
    SLOT.with(|v| v.set(s));
    r
}

fn actor() -> Option<*mut Slot> {
    let s = SLOT.try_with(|v| v.get()).unwrap_or(std::ptr::null_mut());
    if s.is_null() {
        None
    } else {
        Some(s)
    }
}

#[inline]
unsafe fn sys(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut c_int;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}

fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        unsafe { *__errno_location() = -r as c_int };
        -1
    } else {
        r
    }
}

pub fn futex_wait(a: &AtomicU32, v: u32, millis: u64) {
    let ts = [(millis / 1000) as i64, (millis % 1000 * 1_000_000) as i64];
    unsafe { sys(202, a as *const _ as usize, 0, v as usize, ts.as_ptr() as usize, 0, 0) };
}

pub fn futex_wake(a: &AtomicU32) {
    unsafe { sys(202, a as *const _ as usize, 1, 1 << 30, 0, 0, 0) };
}

pub fn fork() -> i32 {
    extern "C" {
        fn fork() -> c_int;
    }
    unsafe { fork() }
}

/// Status if the process ended.
pub fn wait_pid(pid: i32, block: bool) -> Option<i32> {
    let mut st: c_int = 0;
    loop {
        let r = unsafe { sys(61, pid as usize, &mut st as *mut _ as usize, if block { 0 } else { 1 }, 0, 0, 0) };
        if r == -(EINTR as isize) {
            continue;
        }
        return if r == pid as isize { Some(st) } else { None };
    }
}

pub fn kill(pid: i32) {
    unsafe { sys(62, pid as usize, 9, 0, 0, 0, 0) };
}

pub fn exit_now(code: i32) -> ! {
    unsafe { sys(231, code as usize, 0, 0, 0, 0, 0) };
    loop {}
}

pub fn die_with_parent() {
    unsafe { sys(157, 1, 9, 0, 0, 0, 0) };
}

pub fn shared<T>() -> *mut T {
    let p = unsafe { sys(9, 0, std::mem::size_of::<T>(), 3, 0x21, usize::MAX, 0) };
    assert!(p > 0, "mmap");
    p as *mut T
}

fn set_path(s: &mut Slot, k: usize, b: &[u8]) {
    let n = b.len().min(PATH_MAX);
    s.paths[k][..n].copy_from_slice(&b[..n]);
    s.path_len[k] = n as u32;
}

/// Absolute path, lexically normalised.
pub fn normal(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", root(), p) };
    let mut out: Vec<&str> = Vec::new();
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

fn inside(p: &str) -> bool {
    let n = normal(p);
    n.strip_prefix(root()).map(|v| v.starts_with('/')).unwrap_or(false)
}

enum Verdict {
    Go,
    Short(u64),
    Fail(i32),
}

/// Hand an operation to the scheduler and wait for the turn.
fn post(s: *mut Slot, op: Op, fd: i32, len: u64, p0: &str, p1: &str) -> Verdict {
    post_bytes(s, op, fd, len, p0.as_bytes(), p1.as_bytes())
}

fn post_bytes(s: *mut Slot, op: Op, fd: i32, len: u64, p0: &[u8], p1: &[u8]) -> Verdict {
    let s = unsafe { &mut *s };
    s.op = op as u32;
    s.fd = fd;
    s.len = len;
    set_path(s, 0, p0);
    set_path(s, 1, p1);
    s.state.store(WAITING, Ordering::SeqCst);
    futex_wake(&s.state);
    let mut spins = 0;
    loop {
        match s.state.load(Ordering::SeqCst) {
            RUNNING => break,
            v => {
                spins += 1;
                if spins < 200 {
                    std::hint::spin_loop();
                } else {
                    futex_wait(&s.state, v, 1000);
                }
            }
        }
    }
    match s.verdict {
        GO => Verdict::Go,
        SHORT => Verdict::Short(s.arg),
        FAIL => Verdict::Fail(s.arg as i32),
        _ => exit_now(77),
    }
}

fn done(s: *mut Slot, r: isize) -> isize {
    unsafe { (*s).last = r as i64 };
    ret(r)
}

/// First turn of an actor.
pub fn start() {
    if let Some(s) = actor() {
        post(s, Op::Start, -1, 0, "", "");
    }
}

pub fn mark() {
    if let Some(s) = actor() {
        post(s, Op::Mark, -1, 0, "", "");
    }
}

/// Last act of an actor: hand over the result.
pub fn finish(slot: *mut Slot, result: &[u8]) {
    leave_actor();
    let s = unsafe { &mut *slot };
    let n = result.len().min(RESULT_MAX);
    s.result[..n].copy_from_slice(&result[..n]);
    s.result_len = n as u32;
    s.state.store(DONE, Ordering::SeqCst);
    futex_wake(&s.state);
}

unsafe fn text(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

/// An operation on paths: containment, then the scheduler, then `f`.
fn path_op(op: Op, mutates: bool, paths: &[&str], f: impl FnOnce() -> isize) -> isize {
    let Some(s) = actor() else { return ret(f()) };
    let p1 = paths.get(1).copied().unwrap_or("");
    if mutates && paths.iter().any(|p| !inside(p)) {
        post(s, Op::Denied, -1, 0, paths[0], p1);
        return done(s, -(EACCES as isize));
    }
    match post(s, op, -1, 0, paths[0], p1) {
        Verdict::Fail(e) => done(s, -(e as isize)),
        _ => done(s, f()),
    }
}

unsafe fn open_impl(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let raw = || sys(257, dir as isize as usize, path as usize, flags as usize, mode as usize, 0, 0);
    let Some(s) = actor() else { return ret(raw()) as c_int };
    let p = text(path);
    let p = if dir == AT_FDCWD || p.starts_with('/') { p } else { at(dir, &p) };
    let writes = flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC) != 0;
    if flags & O_DIRECTORY != 0 {
        return ret(raw()) as c_int;
    }
    if writes && !inside(&p) && p != "/dev/null" {
        post(s, Op::Denied, -1, 0, &p, "");
        return done(s, -(EACCES as isize)) as c_int;
    }
    match post(s, if writes { Op::OpenWrite } else { Op::OpenRead }, -1, 0, &p, "") {
        Verdict::Fail(e) => done(s, -(e as isize)) as c_int,
        _ => done(s, raw()) as c_int,
    }
}

/// Path of a name relative to a directory handle.
unsafe fn at(dir: c_int, name: &str) -> String {
    if dir == AT_FDCWD || name.starts_with('/') {
        return name.into();
    }
    let link = format!("/proc/self/fd/{dir}\0");
    let mut buf = [0u8; PATH_MAX];
    let n = sys(89, link.as_ptr() as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0);
    if n <= 0 {
        return name.into();
    }
    format!("{}/{}", String::from_utf8_lossy(&buf[..n as usize]), name)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open_impl(AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open_impl(dir, path, flags, mode)
}

/// Reads and writes. Descriptors 0 to 2 belong to the harness; standard output of an actor is captured.
unsafe fn io_impl(op: Op, fd: c_int, len: usize, raw: impl Fn(usize) -> isize) -> isize {
    let Some(s) = actor() else { return ret(raw(len)) };
    if fd <= 2 {
        return ret(raw(len));
    }
    match post(s, op, fd, len as u64, "", "") {
        Verdict::Fail(e) => done(s, -(e as isize)),
        Verdict::Short(n) => {
            let n = (n as usize).min(len);
            if n == 0 {
                return done(s, 0);
            }
            done(s, raw(n))
        }
        Verdict::Go => done(s, raw(len)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    io_impl(Op::Read, fd, len, |n| sys(0, fd as usize, buf as usize, n, 0, 0, 0))
}

/// Standard output of an actor: captured, as far as the scheduler takes it.
fn out_impl(s: *mut Slot, data: &[u8]) -> isize {
    // More at once is taken in part, as a pipe does.
    let data = &data[..data.len().min(2 * PATH_MAX)];
    if data.is_empty() {
        return 0;
    }
    let (a, b) = data.split_at(data.len().min(PATH_MAX));
    let n = match post_bytes(s, Op::Stdout, -1, data.len() as u64, a, b) {
        Verdict::Fail(e) => return done(s, -(e as isize)),
        Verdict::Short(n) => (n as usize).min(data.len()),
        Verdict::Go => data.len(),
    };
    STDOUT.with(|v| v.borrow_mut().extend_from_slice(&data[..n]));
    done(s, n as isize)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    if fd == 1 {
        if let Some(s) = actor() {
            return out_impl(s, std::slice::from_raw_parts(buf as *const u8, len));
        }
    }
    io_impl(Op::Write, fd, len, |n| sys(1, fd as usize, buf as usize, n, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, len: usize, off: i64) -> isize {
    io_impl(Op::Read, fd, len, |n| sys(17, fd as usize, buf as usize, n, off as usize, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: usize, off: i64) -> isize {
    io_impl(Op::Write, fd, len, |n| sys(18, fd as usize, buf as usize, n, off as usize, 0, 0))
}

#[repr(C)]
pub struct IoVec {
    base: *mut c_void,
    len: usize,
}

unsafe fn vec_impl(op: Op, nr: c_long, single: c_long, fd: c_int, v: *const IoVec, n: c_int) -> isize {
    let Some(s) = actor() else { return ret(sys(nr, fd as usize, v as usize, n as usize, 0, 0, 0)) };
    let vs = std::slice::from_raw_parts(v, n.max(0) as usize);
    if fd == 1 && op == Op::Write {
        let all: Vec<u8> = vs.iter().flat_map(|e| std::slice::from_raw_parts(e.base as *const u8, e.len)).copied().collect();
        return out_impl(s, &all);
    }
    let total: usize = vs.iter().map(|v| v.len).sum();
    let Some(first) = vs.iter().find(|v| v.len > 0) else { return 0 };
    io_impl(op, fd, total, |k| {
        if k == total {
            sys(nr, fd as usize, v as usize, n as usize, 0, 0, 0)
        } else {
            // Partly: within the first part.
            sys(single, fd as usize, first.base as usize, k.min(first.len), 0, 0, 0)
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    vec_impl(Op::Read, 19, 0, fd, v, n)
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    vec_impl(Op::Write, 20, 1, fd, v, n)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let raw = || sys(3, fd as usize, 0, 0, 0, 0, 0);
    match actor() {
        Some(s) if fd > 2 => {
            post(s, Op::Close, fd, 0, "", "");
            done(s, raw()) as c_int
        }
        _ => ret(raw()) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    let p = text(path);
    path_op(Op::Mkdir, true, &[&p], || sys(83, path as usize, mode as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (p, q) = (text(a), text(b));
    path_op(Op::Rename, true, &[&p, &q], || sys(82, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn renameat(da: c_int, a: *const c_char, db: c_int, b: *const c_char) -> c_int {
    let (p, q) = (at(da, &text(a)), at(db, &text(b)));
    path_op(Op::Rename, true, &[&p, &q], || sys(264, da as isize as usize, a as usize, db as isize as usize, b as usize, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let p = text(a);
    path_op(Op::Unlink, true, &[&p], || sys(87, a as usize, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, flags: c_int) -> c_int {
    let p = at(d, &text(a));
    path_op(if flags & 0x200 != 0 { Op::Rmdir } else { Op::Unlink }, true, &[&p], || sys(263, d as isize as usize, a as usize, flags as usize, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    let p = text(a);
    path_op(Op::Rmdir, true, &[&p], || sys(84, a as usize, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, flags: c_int) -> c_int {
    let (p, q) = (at(da, &text(a)), at(db, &text(b)));
    path_op(Op::Link, true, &[&p, &q], || sys(265, da as isize as usize, a as usize, db as isize as usize, b as usize, flags as usize, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    let q = text(b);
    path_op(Op::Link, true, &[&q], || sys(88, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, mode: c_uint) -> c_int {
    let p = text(a);
    path_op(Op::Chmod, true, &[&p], || sys(90, a as usize, mode as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn truncate64(a: *const c_char, len: i64) -> c_int {
    let p = text(a);
    path_op(Op::Trunc, true, &[&p], || sys(76, a as usize, len as usize, 0, 0, 0, 0)) as c_int
}

unsafe fn fd_op(op: Op, fd: c_int, len: u64, raw: impl Fn() -> isize) -> c_int {
    let Some(s) = actor() else { return ret(raw()) as c_int };
    match post(s, op, fd, len, "", "") {
        Verdict::Fail(e) => done(s, -(e as isize)) as c_int,
        _ => done(s, raw()) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    fd_op(Op::Trunc, fd, len as u64, || sys(77, fd as usize, len as usize, 0, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    // The scratch directory lives in memory: nothing to flush.
    fd_op(Op::Sync, fd, 0, || 0)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fd_op(Op::Sync, fd, 0, || 0)
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    let raw = || sys(332, dir as isize as usize, path as usize, flags as usize, mask as usize, buf as usize, 0);
    let Some(s) = actor() else { return ret(raw()) as c_int };
    // AT_EMPTY_PATH: the metadata of an open file.
    let p = if path.is_null() { String::new() } else { text(path) };
    if p.is_empty() {
        return ret(raw()) as c_int;
    }
    match post(s, Op::Stat, -1, 0, &p, "") {
        Verdict::Fail(e) => done(s, -(e as isize)) as c_int,
        _ => done(s, raw()) as c_int,
    }
}

fn next_random(s: &Cell<u64>) -> u64 {
    let mut x = s.get();
    let v = simcore::rng::splitmix(&mut x);
    s.set(x);
    v
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    if actor().is_none() {
        return ret(sys(318, buf as usize, len, flags as usize, 0, 0, 0));
    }
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    RANDOM.with(|r| {
        for c in out.chunks_mut(8) {
            let b = next_random(r).to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    });
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    match PID.load(Ordering::SeqCst) {
        0 => sys(39, 0, 0, 0, 0, 0, 0) as c_int,
        v => v as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
    let Some(s) = actor() else {
        return ret(sys(228, id as usize, ts as usize, 0, 0, 0, 0)) as c_int;
    };
    let now = (*s).now;
    (*ts)[0] = EPOCH + (now / 1000) as i64;
    let clock = CLOCK.load(Ordering::SeqCst);
    if clock != 0 && matches!(id, 0 | 5 | 11) {
        // Skew of years, and jumps back and forth by hours.
        (*ts)[0] += (clock % 400_000_000) as i64 - 200_000_000 + (simcore::rng::mix(clock, now / 8) % 7) as i64 * 3600;
    }
    (*ts)[1] = (now % 1000 * 1_000_000) as i64;
    0
}

/// What an environment variable may be set to.
const VALUES: [&CStr; 12] = [c"1", c"0", c"", c"true", c"false", c"release", c"debug", c"yes", c"off", c"C", c"wasm32-unknown-unknown", c"/nonexistent/elsewhere"];

/// Every variable that nothing gives a meaning is set to something or not, at random for the process.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    extern "C" {
        static environ: *const *mut c_char;
    }
    let n = CStr::from_ptr(name).to_bytes();
    let seed = ENVIRONMENT.load(Ordering::SeqCst);
    if seed != 0 && actor().is_some() && n != b"OUT_DIR" && n != b"TMPDIR" && !n.starts_with(b"RUST_") {
        let h = n.iter().fold(seed, |h, c| simcore::rng::mix(h, *c as u64));
        return match simcore::rng::mix(h, 1) % 20 {
            v if (v as usize) < VALUES.len() => VALUES[v as usize].as_ptr() as *mut c_char,
            _ => std::ptr::null_mut(),
        };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = CStr::from_ptr(*e).to_bytes();
        if v.len() > n.len() && v[n.len()] == b'=' && v.starts_with(n) {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

/// Waiting passes simulated time: it is a turn for the others.
unsafe fn pause(s: *mut Slot, millis: u64) {
    post(s, Op::Block, -1, millis, "", "");
}

unsafe fn millis(t: *const [i64; 2]) -> u64 {
    ((*t)[0].max(0) as u64).saturating_mul(1000).saturating_add((*t)[1].max(0) as u64 / 1_000_000)
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const [i64; 2], rest: *mut [i64; 2]) -> c_int {
    match actor() {
        None => ret(sys(35, t as usize, rest as usize, 0, 0, 0, 0)) as c_int,
        Some(s) => {
            pause(s, millis(t));
            0
        }
    }
}

/// Reports errors as its result.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, t: *const [i64; 2], rest: *mut [i64; 2]) -> c_int {
    match actor() {
        None => -sys(230, id as usize, flags as usize, t as usize, rest as usize, 0, 0) as c_int,
        Some(s) => {
            pause(s, if flags & 1 == 0 { millis(t) } else { millis(t).saturating_sub(EPOCH as u64 * 1000 + (*s).now) });
            0
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    match actor() {
        None => ret(sys(24, 0, 0, 0, 0, 0, 0)) as c_int,
        Some(s) => {
            pause(s, 0);
            0
        }
    }
}

/// File locks: whoever has to wait gives the turn away.
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, how: c_int) -> c_int {
    let Some(s) = actor() else { return ret(sys(73, fd as usize, how as usize, 0, 0, 0, 0)) as c_int };
    loop {
        let r = sys(73, fd as usize, (how | 4) as usize, 0, 0, 0, 0);
        if r != -11 || how & 4 != 0 {
            return ret(r) as c_int;
        }
        pause(s, 0);
    }
}

/// Copies inside the kernel are not offered: the standard library falls back to reads and writes.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, x: *mut i64, b: c_int, y: *mut i64, len: usize, flags: c_uint) -> isize {
    match actor() {
        None => ret(sys(326, a as usize, x as usize, b as usize, y as usize, len, flags as usize)),
        Some(_) => ret(-38),
    }
}

#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, off: *mut i64, len: usize) -> isize {
    match actor() {
        None => ret(sys(40, a as usize, b as usize, off as usize, len, 0, 0)),
        Some(_) => ret(-22),
    }
}

#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, x: *mut i64, b: c_int, y: *mut i64, len: usize, flags: c_uint) -> isize {
    match actor() {
        None => ret(sys(275, a as usize, x as usize, b as usize, y as usize, len, flags as usize)),
        Some(_) => ret(-22),
    }
}

/// Waiting for a lock is a turn of the scheduler; waits for threads end by themselves.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if let Some(s) = actor() {
        match n {
            202 if b & 0x7f == 0 || b & 0x7f == 9 => {
                // FUTEX_WAIT: only if it would wait.
                if (*(a as *const AtomicU32)).load(Ordering::SeqCst) != c as u32 {
                    return ret(-11) as c_long;
                }
                post(s, Op::Block, -1, 0, "", "");
                return 0;
            }
            326 => return ret(-38) as c_long,
            318 => return getrandom(a as *mut c_void, b, c as c_uint) as c_long,
            332 => return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut c_void) as c_long,
            _ => {}
        }
    }
    ret(sys(n, a, b, c, d, e, f)) as c_long
}

/// Directory listings come in an order of the scheduler's choice.
#[repr(C)]
#[derive(Clone, Copy)]
struct Dirent {
    raw: [u64; 35],
}

struct Listing {
    entries: Vec<Dirent>,
    at: usize,
}

thread_local! {
    static LISTINGS: RefCell<Vec<(usize, Listing)>> = const { RefCell::new(Vec::new()) };
}

unsafe fn real_readdir(d: *mut c_void) -> *mut Dirent {
    static REAL: AtomicU64 = AtomicU64::new(0);
    let mut f = REAL.load(Ordering::SeqCst);
    if f == 0 {
        f = dlsym(-1isize as *mut c_void, c"readdir64".as_ptr()) as u64;
        REAL.store(f, Ordering::SeqCst);
    }
    let f: extern "C" fn(*mut c_void) -> *mut Dirent = std::mem::transmute(f as usize);
    f(d)
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    if actor().is_none() {
        return real_readdir(d) as *mut c_void;
    }
    LISTINGS.with(|l| {
        let mut l = l.borrow_mut();
        let k = match l.iter().position(|v| v.0 == d as usize) {
            Some(k) if l[k].1.at <= l[k].1.entries.len() => k,
            _ => {
                l.retain(|v| v.0 != d as usize);
                let mut entries: Vec<Dirent> = Vec::new();
                loop {
                    let e = real_readdir(d);
                    if e.is_null() {
                        break;
                    }
                    // Copy no more than the entry.
                    let len = *((e as *const u8).add(16) as *const u16) as usize;
                    let mut c = Dirent { raw: [0; 35] };
                    std::ptr::copy_nonoverlapping(e as *const u8, c.raw.as_mut_ptr() as *mut u8, len.min(280));
                    entries.push(c);
                }
                let name = |e: &Dirent| CStr::from_ptr((e.raw.as_ptr() as *const c_char).add(19)).to_bytes().to_vec();
                entries.sort_by_key(name);
                let mut x = DIR_ORDER.load(Ordering::SeqCst);
                for i in (1..entries.len()).rev() {
                    let j = simcore::rng::splitmix(&mut x) as usize % (i + 1);
                    entries.swap(i, j);
                }
                l.push((d as usize, Listing { entries, at: 0 }));
                l.len() - 1
            }
        };
        let v = &mut l[k].1;
        v.at += 1;
        match v.entries.get_mut(v.at - 1) {
            Some(e) => e as *mut Dirent as *mut c_void,
            None => {
                v.at = usize::MAX;
                std::ptr::null_mut()
            }
        }
    })
}

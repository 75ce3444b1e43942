//! Boundary between harness and system under test: panic attribution, allocation accounting.

use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static ALLOCATED: Cell<u64> = const { Cell::new(0) };
    static LARGEST: Cell<u64> = const { Cell::new(0) };
    static PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}

/// Allocations of more than this in one go, made by the system under test, are refused by unwinding... the
/// allocator cannot unwind, so they are only recorded; the check turns the record into a violation.
pub struct CountingAlloc;

#[inline]
fn note(size: usize) {
    if IN_SUT.with(|v| v.get()) {
        ALLOCATED.with(|v| v.set(v.get() + size as u64));
        LARGEST.with(|v| v.set(v.get().max(size as u64)));
    }
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n.saturating_sub(l.size()));
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub file: String,
    pub line: u32,
    pub in_sut: bool,
}

struct Restore(bool);

impl Drop for Restore {
    fn drop(&mut self) {
        IN_SUT.with(|v| v.set(self.0));
    }
}

/// Run code of the system under test.
#[inline]
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(IN_SUT.with(|v| v.replace(true)));
    f()
}

/// Run harness code called back from the system under test.
#[inline]
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(IN_SUT.with(|v| v.replace(false)));
    f()
}

pub fn reset_alloc() {
    ALLOCATED.with(|v| v.set(0));
    LARGEST.with(|v| v.set(0));
}

pub fn allocated() -> u64 {
    ALLOCATED.with(|v| v.get())
}

/// Payload of an unwind injected by the simulator.
pub struct SimUnwind;

pub fn inject_unwind() -> ! {
    resume_unwind(Box::new(SimUnwind))
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let in_sut = IN_SUT.with(|v| v.get());
        let p = PanicInfo { msg, file, line, in_sut };
        host(|| PANIC.with(|v| *v.borrow_mut() = Some(p)));
    }));
}

pub enum Caught {
    /// The simulator's own unwind came back.
    Injected,
    Panic(PanicInfo),
}

impl PanicInfo {
    /// A panic raised in harness code is a defect of the harness, not of the system under test.
    pub fn is_harness(&self) -> bool {
        let f = &self.file;
        let harness_file = f.starts_with("src/") || f.contains("/verif/sim/") || f.ends_with("glue.rs") || f.contains("sim/core/src") || f == "build.rs";
        if harness_file {
            return true;
        }
        if f.contains("/repo/") || f.contains("/gen/") {
            return false;
        }
        !self.in_sut
    }
}

/// Run and catch unwinds.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    let before = IN_SUT.with(|v| v.get());
    PANIC.with(|v| *v.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            IN_SUT.with(|v| v.set(before));
            Err(caught(e))
        }
    }
}

pub fn caught(e: Box<dyn Any + Send>) -> Caught {
    if e.downcast_ref::<SimUnwind>().is_some() {
        return Caught::Injected;
    }
    let p = PANIC.with(|v| v.borrow_mut().take()).unwrap_or(PanicInfo {
        msg: "unwind without panic information".into(),
        file: String::new(),
        line: 0,
        in_sut: true,
    });
    Caught::Panic(p)
}

/// Hand a panic on to the runner.
pub fn rethrow(p: PanicInfo) -> ! {
    PANIC.with(|v| *v.borrow_mut() = Some(p));
    resume_unwind(Box::new(()))
}

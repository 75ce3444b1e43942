//! Output sinks under control of the simulator.

use crate::world::hex;
use rtsim::api::{EncErr, SutErr};
use simcore::ctx::Ctx;
use simcore::sut::{guard, host, inject_unwind, rethrow, Caught};
use std::io::{Error, ErrorKind, Write};

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Kind(ErrorKind),
    Os(i32),
    Token(u64),
    /// Accepts nothing without an error.
    Zero,
    Unwind,
}

#[derive(Debug)]
struct Token(u64);
impl std::fmt::Display for Token {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "simulated failure {}", self.0)
    }
}
impl std::error::Error for Token {}

impl Fail {
    pub fn draw(ctx: &mut Ctx, unwind: bool) -> Fail {
        match ctx.weighted(&[3, 3, 3, 2, if unwind { 2 } else { 0 }]) {
            0 => Fail::Kind(*ctx.pick(&[ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::InvalidInput, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::WriteZero])),
            1 => Fail::Os(*ctx.pick(&[28, 5, 11, 32, 104, 122, 27])),
            2 => Fail::Token(ctx.draw(1000)),
            3 => Fail::Zero,
            _ => Fail::Unwind,
        }
    }

    pub fn counter(&self) -> &'static str {
        match self {
            Fail::Kind(ErrorKind::WouldBlock) => "fault.sink_would_block",
            Fail::Kind(_) => "fault.sink_error_kind",
            Fail::Os(28) => "fault.sink_enospc",
            Fail::Os(_) => "fault.sink_os_error",
            Fail::Token(_) => "fault.sink_custom_error",
            Fail::Zero => "fault.sink_accepts_nothing",
            Fail::Unwind => "fault.sink_unwind",
        }
    }

    pub fn raise(&self) -> std::io::Result<usize> {
        match self {
            Fail::Kind(k) => Err(Error::from(*k)),
            Fail::Os(n) => Err(Error::from_raw_os_error(*n)),
            Fail::Token(n) => Err(Error::new(ErrorKind::Other, Token(*n))),
            Fail::Zero => Ok(0),
            Fail::Unwind => inject_unwind(),
        }
    }

    /// Is this the error that was raised?
    pub fn is(&self, e: &Error) -> bool {
        match self {
            Fail::Kind(k) => e.kind() == *k && e.raw_os_error().is_none(),
            Fail::Os(n) => e.raw_os_error() == Some(*n),
            Fail::Token(n) => e.get_ref().and_then(|v| v.downcast_ref::<Token>()).map(|v| v.0) == Some(*n),
            Fail::Zero => true,
            Fail::Unwind => false,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Per mille of calls that accept only a part.
    pub short: u64,
    /// Per mille of calls that are interrupted.
    pub intr: u64,
    /// Fails once this many bytes were accepted.
    pub fail_at: Option<(usize, Option<Fail>)>,
    /// Takes bytes but cannot be flushed: whoever encodes has not been asked to.
    pub flush: Option<ErrorKind>,
}

impl Plan {
    pub fn draw(ctx: &mut Ctx, len: usize, unwind: bool) -> Plan {
        let short = *ctx.pick(&[0, 0, 100, 500, 1000]);
        let intr = *ctx.pick(&[0, 0, 100, 600]);
        let fail_at = if ctx.below(5) < 3 {
            let at = match ctx.weighted(&[1, 1, 4]) {
                0 => 0,
                1 => len.saturating_sub(1),
                _ => ctx.below(len.max(1)),
            };
            Some((at, Some(Fail::draw(ctx, unwind))))
        } else {
            None
        };
        let flush = if ctx.chance(250) { Some(*ctx.pick(&[ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::Unsupported])) } else { None };
        Plan { short, intr, fail_at, flush }
    }

    pub fn none() -> Plan {
        Plan::default()
    }
}

pub struct Sink<'c> {
    pub ctx: &'c mut Ctx,
    pub got: Vec<u8>,
    pub plan: Plan,
    pub failed: Option<Fail>,
    /// Calls after the failure.
    pub after: usize,
    pub calls: usize,
    intr_run: usize,
}

impl<'c> Sink<'c> {
    pub fn new(ctx: &'c mut Ctx, plan: Plan) -> Sink<'c> {
        Sink { ctx, got: Vec::new(), plan, failed: None, after: 0, calls: 0, intr_run: 0 }
    }

    fn step(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.ctx.now += 1;
        self.calls += 1;
        if let Some(f) = &self.failed {
            self.after += 1;
            return match f {
                Fail::Unwind => Err(Error::from(ErrorKind::BrokenPipe)),
                f => f.raise(),
            };
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.plan.intr > 0 && self.intr_run < 4 && self.ctx.chance(self.plan.intr) {
            self.intr_run += 1;
            self.ctx.count("fault.sink_interrupted");
            self.ctx.event("intr", format_args!("sink interrupts"));
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.intr_run = 0;
        let mut n = buf.len();
        if let Some((at, f)) = &self.plan.fail_at {
            if self.got.len() + n > *at {
                n = at - self.got.len();
                if n == 0 {
                    let f = f.clone().unwrap();
                    self.failed = Some(f.clone());
                    self.ctx.count(f.counter());
                    self.ctx.event("sinkfail", format_args!("sink fails at byte {at}: {f:?}"));
                    return f.raise();
                }
                self.ctx.count("fault.sink_short_write");
            }
        }
        if n > 1 && self.plan.short > 0 && self.ctx.chance(self.plan.short) {
            n = 1 + self.ctx.below(n - 1);
            self.ctx.count("fault.sink_short_write");
        }
        self.got.extend_from_slice(&buf[..n]);
        self.ctx.event("write", format_args!("sink takes {n} of {}: {}", buf.len(), hex(&buf[..n])));
        Ok(n)
    }
}

impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        host(|| self.step(buf))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        host(|| match self.plan.flush {
            Some(k) => {
                self.ctx.count("fault.sink_flush");
                self.ctx.event("flush", format_args!("sink cannot be flushed: {k:?}"));
                Err(k.into())
            }
            None => Ok(()),
        })
    }
}

pub enum Out {
    Done,
    Err(EncErr),
    Unwound,
}

/// Run an encode call that may be torn down by the sink.
pub fn run<'c>(sink: &mut Sink<'c>, f: impl FnOnce(&mut dyn Write) -> Result<(), EncErr>) -> Out {
    match guard(|| f(sink)) {
        Ok(Ok(())) => Out::Done,
        Ok(Err(e)) => Out::Err(e),
        Err(Caught::Injected) => Out::Unwound,
        Err(Caught::Panic(p)) => rethrow(p),
    }
}

pub fn is_io(e: &EncErr) -> Option<&Error> {
    match e.inner() {
        SutErr::Io(e) => Some(e),
        _ => None,
    }
}

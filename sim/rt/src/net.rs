//! Simulated links and disks: a queue of deliveries ordered by simulated time, and damage to bytes at rest or under way.

use simcore::ctx::Ctx;
use std::collections::BTreeMap;

/// Deliveries ordered by (time, sequence number).
pub struct Link<T> {
    queue: BTreeMap<(u64, u64), T>,
    seq: u64,
}

impl<T> Link<T> {
    pub fn new() -> Link<T> {
        Link { queue: BTreeMap::new(), seq: 0 }
    }

    pub fn send(&mut self, ctx: &Ctx, delay: u64, v: T) {
        self.seq += 1;
        self.queue.insert((ctx.now + delay, self.seq), v);
    }

    /// Next delivery; the clock jumps to it.
    pub fn next(&mut self, ctx: &mut Ctx) -> Option<T> {
        let k = *self.queue.keys().next()?;
        let v = self.queue.remove(&k);
        ctx.now = ctx.now.max(k.0);
        v
    }
}

/// Split bytes into fragments.
pub fn fragments(ctx: &mut Ctx, data: &[u8]) -> Vec<Vec<u8>> {
    let max = *ctx.pick(&[1usize, 2, 7, 40, 4096]);
    let mut out = Vec::new();
    let mut at = 0;
    while at < data.len() {
        let n = (1 + ctx.below(max)).min(data.len() - at);
        out.push(data[at..at + n].to_vec());
        at += n;
    }
    out
}

/// One fault of a link or disk applied to stored or delivered bytes. `marks` are interesting places (field starts).
pub fn damage(ctx: &mut Ctx, b: &mut Vec<u8>, marks: &[usize]) -> &'static str {
    if b.is_empty() {
        let n = ctx.range(1, 9);
        *b = ctx.bytes(n);
        return "fault.garbage_appended";
    }
    let at = if !marks.is_empty() && ctx.below(3) > 0 {
        let m = *ctx.pick(marks);
        (m + ctx.below(4)).min(b.len() - 1)
    } else {
        ctx.below(b.len())
    };
    match ctx.weighted(&[4, 3, 3, 2, 2, 2, 2, 2]) {
        0 => {
            b[at] ^= 1 << ctx.below(8);
            "fault.bit_flipped"
        }
        1 => {
            b[at] = *ctx.pick(&[0u8, 0xFF, 1, 0x80, 0x7F]);
            "fault.byte_overwritten"
        }
        2 => {
            b.truncate(at);
            "fault.truncated"
        }
        3 => {
            let n = (1 + ctx.below(8)).min(b.len() - at);
            b.drain(at..at + n);
            "fault.bytes_lost"
        }
        4 => {
            let n = (1 + ctx.below(8)).min(b.len() - at);
            let c = b[at..at + n].to_vec();
            for (k, v) in c.into_iter().enumerate() {
                b.insert(at + k, v);
            }
            "fault.bytes_duplicated"
        }
        5 => {
            // A length or count gone wild.
            let n = (1 + ctx.below(8)).min(b.len() - at);
            for v in &mut b[at..at + n] {
                *v = 0xFF;
            }
            "fault.count_inflated"
        }
        6 => {
            let n = (1 + ctx.below(16)).min(b.len() - at);
            for v in &mut b[at..at + n] {
                *v = 0;
            }
            "fault.block_zeroed"
        }
        _ => {
            let n = 1 + ctx.below(8);
            let c = ctx.bytes(n);
            for (k, v) in c.into_iter().enumerate() {
                b.insert(at + k, v);
            }
            "fault.garbage_inserted"
        }
    }
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

const EDGE: usize = 1 << 20;

thread_local! {
    /// Memory followed by a page nobody may touch.
    static ARENA: *mut u8 = unsafe {
        let p = mmap(std::ptr::null_mut(), EDGE + 4096, 0, 0x22, -1, 0);
        assert!(p as isize != -1);
        let q = mmap(p, EDGE, 3, 0x32, -1, 0);
        assert!(q == p);
        p
    };
}

/// The same bytes at the very end of the memory of the process: whoever reads one byte further dies, always and at once.
pub fn at_edge<R>(data: &[u8], f: impl FnOnce(&[u8]) -> R) -> R {
    if data.len() > EDGE {
        return f(data);
    }
    ARENA.with(|p| unsafe {
        let at = p.add(EDGE - data.len());
        std::ptr::copy_nonoverlapping(data.as_ptr(), at, data.len());
        f(std::slice::from_raw_parts(at, data.len()))
    })
}

//! Items that take no bytes: an array or list may then declare any number of them within a handful of bytes.

use rtsim::api::*;
use rtsim::gen::base::Void;
use rtsim::gen::voids::*;
use simcore::ctx::{Ctx, Run};
use simcore::refcodec::DErr;
use simcore::sut::{allocated, reset_alloc, sut};
use simcore::{ensure, ev, violation};
use bp3d_proto::message::{FromSlice, FromSliceWithOffsets, WriteTo};
use bp3d_proto::message::util::{Array, List, ValueLE};

/// No more items than this are ever looked at.
const LOOK: usize = 300;

fn count(ctx: &mut Ctx) -> u64 {
    match ctx.weighted(&[3, 2, 2]) {
        0 => ctx.below(4) as u64,
        1 => ctx.below(LOOK + 40) as u64,
        _ => {
            ctx.count("fault.huge_count");
            *ctx.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, 1 << 62, 1 << 40, u32::MAX as u64, i64::MAX as u64])
        }
    }
}

fn cut(ctx: &mut Ctx, b: &mut Vec<u8>) {
    if ctx.below(4) == 0 {
        let n = ctx.below(b.len() + 1);
        b.truncate(n);
        ctx.count("fault.truncated");
    }
    if ctx.below(4) == 0 {
        let n = ctx.below(4);
        b.extend(ctx.bytes(n));
        ctx.count("fault.trailing_bytes");
    }
}

/// What is seen of `n` items.
fn seen(n: u64) -> usize {
    n.min(LOOK as u64) as usize
}

fn look<I: Iterator>(mut it: I) -> usize {
    sut(|| {
        let mut n = 0;
        while n < LOOK && it.next().is_some() {
            n += 1;
        }
        n
    })
}

fn arrays(ctx: &mut Ctx) -> Run {
    let (k, na, nb, z) = (ctx.below(256) as u8, ctx.below(256) as u8, count(ctx), ctx.below(256) as u8);
    let mut b = vec![k, na];
    b.extend(nb.to_le_bytes());
    b.push(z);
    cut(ctx, &mut b);
    ev!(ctx, "void-arrays", "{na} and {nb} in {} bytes", b.len());
    let got = sut(|| Voids::from_slice(&b)).map(|m| (m.size(), m.into_inner()));
    let off = sut(|| Voids::from_slice_with_offsets(&b)).map(|m| (m.size(), m.into_inner()));
    let (m, o) = match (got, off) {
        (Ok((n, m)), Ok((n1, (m1, o)))) => {
            ensure!(b.len() >= 11 && n == 11 && n1 == 11, "size", "{} bytes of Voids give sizes {n} and {n1}", b.len());
            ensure!(m1.k == m.k && m1.a.len() == m.a.len() && m1.b.len() == m.b.len() && m1.z == m.z, "offsets-differ", "Voids: decode with offsets gives another value");
            (m, o)
        }
        (Err(x), Err(y)) => {
            let (x, y) = (SutErr::from(x), SutErr::from(y));
            ensure!(b.len() < 11 && x.derr() == DErr::Truncated && y.derr() == DErr::Truncated, "error", "{} bytes of Voids give {x:?} and {y:?}", b.len());
            return Ok(());
        }
        _ => violation!("offsets-differ", "Voids: decode with and without offsets differ"),
    };
    let at = [(&o.k, 0, 1), (&o.a, 1, 2), (&o.b, 2, 10), (&o.z, 10, 11)];
    for (f, s, e) in at {
        ensure!((f.start, f.end) == (s, e), "offsets", "Voids: field at {}..{}, expected {s}..{e}", f.start, f.end);
    }
    let (k, na, nb, z) = (b[0], b[1], u64::from_le_bytes(b[2..10].try_into().expect("8 bytes")), b[10]);
    ensure!((m.k, m.a.len(), m.b.len() as u64, m.z) == (k, na as usize, nb, z), "value", "Voids: {}, {}, {}, {} from {k}, {na}, {nb}, {z}", m.k, m.a.len(), m.b.len(), m.z);
    let (a, b1) = (look(sut(|| m.a.iter::<Void<&[u8]>>())), look(sut(|| m.b.iter::<Void<&[u8]>>())));
    ensure!(a == seen(na as u64) && b1 == seen(nb), "iteration", "iteration yields {a} of {na} and {b1} of {nb} items");
    if nb > 0 {
        let i = ctx.below(seen(nb));
        sut(|| m.b.get::<Void<&[u8]>>(i));
    }
    let mut out = Vec::new();
    let r = sut(|| Voids::write_to(&m, &mut out)).map_err(SutErr::from);
    ensure!(r.is_ok() && out == b[..11], "relay", "Voids: encoding what was decoded gives {r:?}");
    Ok(())
}

fn lists(ctx: &mut Ctx) -> Run {
    let (k, n) = (ctx.below(256) as u8, count(ctx));
    let mut b = vec![k];
    b.extend(n.to_le_bytes());
    cut(ctx, &mut b);
    ev!(ctx, "void-list", "{n} in {} bytes", b.len());
    let got = sut(|| Hush::from_slice(&b)).map(|m| (m.size(), m.into_inner()));
    let off = sut(|| Hush::from_slice_with_offsets(&b)).map(|m| (m.size(), m.into_inner()));
    let m = match (got, off) {
        (Ok((n, m)), Ok((n1, (m1, o)))) => {
            ensure!(b.len() >= 9 && n == 9 && n1 == 9, "size", "{} bytes of Hush give sizes {n} and {n1}", b.len());
            ensure!(m1.k == m.k && m1.l.len() == m.l.len(), "offsets-differ", "Hush: decode with offsets gives another value");
            ensure!((o.k.start, o.k.end, o.l.start, o.l.end) == (0, 1, 1, 9), "offsets", "Hush: {o:?}");
            m
        }
        (Err(x), Err(y)) => {
            let (x, y) = (SutErr::from(x), SutErr::from(y));
            ensure!(b.len() < 9 && x.derr() == DErr::Truncated && y.derr() == DErr::Truncated, "error", "{} bytes of Hush give {x:?} and {y:?}", b.len());
            return Ok(());
        }
        _ => violation!("offsets-differ", "Hush: decode with and without offsets differ"),
    };
    let n = u64::from_le_bytes(b[1..9].try_into().expect("8 bytes"));
    ensure!(m.k == b[0] && m.l.len() as u64 == n, "value", "Hush: {}, {} from {n}", m.k, m.l.len());
    let it = look(sut(|| m.l.iter()).map(|v| v.expect("Nil")));
    let io = look(sut(|| m.l.iter_offsets()).map(|v| v.expect("Nil")));
    ensure!(it == seen(n) && io == seen(n), "iteration", "iteration yields {it} and {io} of {n} items");
    let mut out = Vec::new();
    let r = sut(|| Hush::write_to(&m, &mut out)).map_err(SutErr::from);
    ensure!(r.is_ok() && out == b[..9], "relay", "Hush: encoding what was decoded gives {r:?}");
    Ok(())
}

/// A list of lists: the outer one is read item by item, each of which may declare any number.
fn nested(ctx: &mut Ctx) -> Run {
    let n = ctx.below(6) as u8;
    let mut b = vec![ctx.below(256) as u8, n];
    for _ in 0..n {
        b.push(ctx.below(256) as u8);
        b.extend(count(ctx).to_le_bytes());
    }
    cut(ctx, &mut b);
    ev!(ctx, "void-lists", "{n} in {} bytes", b.len());
    let m = match sut(|| Hushes::from_slice(&b)) {
        Ok(m) => m.into_inner(),
        Err(e) => {
            let e = SutErr::from(e);
            ensure!(b.len() < 2 + 9 * n as usize && e.derr() == DErr::Truncated, "error", "{} bytes of Hushes give {e:?}", b.len());
            return Ok(());
        }
    };
    let n = b[1] as usize;
    ensure!(m.k == b[0] && m.l.len() == n, "value", "Hushes: {}, {} from {n}", m.k, m.l.len());
    let mut it = sut(|| m.l.iter());
    for i in 0..n {
        let at = 2 + 9 * i;
        match sut(|| it.next()) {
            Some(Ok(h)) => {
                ensure!(b.len() >= at + 9, "iteration", "item {i} read from beyond the input");
                let want = u64::from_le_bytes(b[at + 1..at + 9].try_into().expect("8 bytes"));
                ensure!(h.k == b[at] && h.l.len() as u64 == want, "value", "item {i}: {}, {} of {want}", h.k, h.l.len());
                let seen_of = look(sut(|| h.l.iter()));
                ensure!(seen_of == seen(want), "iteration", "item {i}: iteration yields {seen_of} of {want}");
            }
            Some(Err(e)) => {
                let e = SutErr::from(e);
                ensure!(b.len() < at + 9 && e.derr() == DErr::Truncated, "iteration", "item {i} of {n} in {} bytes: {e:?}", b.len());
                return Ok(());
            }
            None => violation!("iteration", "{i} items instead of {n}"),
        }
    }
    ensure!(sut(|| it.next()).is_none(), "iteration", "more than {n} items");
    Ok(())
}

/// Arrays and lists of such items, built by a sender.
fn built(ctx: &mut Ctx) -> Run {
    let most = if ctx.below(4) == 0 { 260 } else { 6 };
    let (na, nb, nl) = (ctx.below(most), ctx.below(40), ctx.below(40));
    let mut a = Array::<Vec<u8>, ValueLE<u8>, Void<&[u8]>>::new(Vec::new());
    let mut c = Array::<Vec<u8>, ValueLE<u64>, Void<&[u8]>>::new(Vec::new());
    let mut l = List::<Vec<u8>, ValueLE<u64>, Nil>::new(Vec::new());
    let v = Void::new(&[] as &[u8]);
    for _ in 0..na {
        ensure!(sut(|| a.write_item(&v)).is_ok(), "append", "item without bytes refused");
    }
    ensure!(sut(|| c.write_items(&vec![v; nb])).is_ok(), "append", "items without bytes refused");
    ensure!(sut(|| l.write_items(&vec![Nil { a: v, b: v }; nl])).is_ok(), "append", "items without bytes refused");
    ensure!((a.len(), c.len(), l.len()) == (na, nb, nl), "append", "{na}, {nb} and {nl} items are counted as {}, {} and {}", a.len(), c.len(), l.len());
    let (mut x, mut y) = (Vec::new(), Vec::new());
    let rx = sut(|| Voids::write_to(&Voids { k: 7, a: a.to_ref(), b: c.to_ref(), z: 9 }, &mut x)).map_err(SutErr::from);
    let ry = sut(|| Hush::write_to(&Hush { k: 8, l: l.to_ref() }, &mut y)).map_err(SutErr::from);
    ensure!(rx.is_ok() == (na <= 255), "encode", "{na} items: {rx:?}");
    if rx.is_ok() {
        let mut want = vec![7, na as u8];
        want.extend((nb as u64).to_le_bytes());
        want.push(9);
        ensure!(x == want, "encode", "{na} and {nb} items are encoded as {x:?}");
    }
    let mut want = vec![8];
    want.extend((nl as u64).to_le_bytes());
    ensure!(ry.is_ok() && y == want, "encode", "{nl} items are encoded as {y:?} ({ry:?})");
    ev!(ctx, "void-built", "{na}, {nb} and {nl} items");
    let n = look(sut(|| a.iter::<Void<&[u8]>>()));
    ensure!(n == seen(na as u64), "iteration", "iteration yields {n} of {na} items");
    let n = look(sut(|| c.iter_mut::<Void<&mut [u8]>>()));
    ensure!(n == nb, "iteration", "iteration yields {n} of {nb} items");
    Ok(())
}

pub fn hostile(ctx: &mut Ctx) -> Run {
    ctx.nontrivial = true;
    reset_alloc();
    match ctx.weighted(&[3, 3, 2, 2]) {
        0 => arrays(ctx)?,
        1 => lists(ctx)?,
        2 => nested(ctx)?,
        _ => return built(ctx),
    }
    let used = allocated();
    ensure!(used <= 8192, "allocation", "{used} bytes allocated for items without bytes");
    ctx.count("probe.items_without_bytes");
    Ok(())
}

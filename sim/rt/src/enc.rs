//! C01 to C05: encoding and building.

use crate::net::at_edge;
use crate::sink::*;
use crate::world::*;
use rtsim::api::*;
use rtsim::glue::{MSGS, STRUCTS, UNIONS};
use simcore::ctx::{Ctx, Run};
use simcore::refcodec::*;
use simcore::schema::*;
use simcore::sut::{guard, host, inject_unwind, rethrow, Caught};
use simcore::{ensure, ev, violation};
use std::io::Write;
use std::sync::{Arc, Mutex};

/// Something a node can write out.
enum Work {
    Msg(usize, Val),
    Struct(usize, Vec<u8>),
    Union(usize, Val, Vec<u8>),
    List(Box<dyn Builder>, Vec<u8>),
}

impl Work {
    fn name(&self) -> String {
        let w = world();
        match self {
            Work::Msg(m, _) => w.s.msgs[*m].name.clone(),
            Work::Struct(k, _) => w.s.structs[*k].name.clone(),
            Work::Union(k, ..) => w.s.unions[*k].name.clone(),
            Work::List(..) => "list".into(),
        }
    }

    fn write(&self, out: &mut dyn Write) -> Result<(), EncErr> {
        match self {
            Work::Msg(m, v) => (MSGS[*m].encode)(v, out),
            Work::Struct(k, b) => {
                let mut b = b.clone();
                b.extend_from_slice(&[0xEE, 0xDD]);
                (STRUCTS[*k].write_to)(&b, out).map_err(EncErr::Write)
            }
            Work::Union(k, v, root) => (UNIONS[*k].write)(v, root, out),
            Work::List(b, _) => b.write(out).map_err(EncErr::Write),
        }
    }

    fn wire(&self) -> Vec<u8> {
        let w = world();
        match self {
            Work::Msg(m, v) => encode(&w.s, *m, v).expect("valid value"),
            Work::Struct(_, b) => b.clone(),
            Work::Union(u, v, _) => union_wire(*u, v),
            Work::List(_, b) => b.clone(),
        }
    }

    fn draw(ctx: &mut Ctx) -> Run<Work> {
        let w = world();
        Ok(match ctx.weighted(&[8, 1, 1, 2]) {
            0 => {
                let m = ctx.below(world().general);
                Work::Msg(m, gen_msg(ctx, w, m, Size::any()))
            }
            1 => {
                let k = ctx.below(STRUCTS.len());
                Work::Struct(k, gen_struct(ctx, w, k))
            }
            2 => {
                let u = ctx.below(UNIONS.len());
                let v = gen_case(ctx, w, u, Size::small());
                let mut root = Val::Struct(gen_struct(ctx, w, w.s.unions[u].root));
                if let Val::Union(n, _) = &v {
                    set_disc(w, u, &mut root, w.s.unions[u].cases[*n].value);
                }
                let Val::Struct(root) = root else { unreachable!() };
                Work::Union(u, v, root)
            }
            _ => {
                let (m, k) = if ctx.below(2) == 0 { *ctx.pick(&w.arrays) } else { *ctx.pick(&w.lists) };
                let ops = &MSGS[m].lists[k];
                let mut b = (ops.builder)(SimBuf::plain(Vec::new()));
                let n = ctx.below(4);
                let mut items = Vec::new();
                for _ in 0..n {
                    let v = gen_item(ctx, m, ops.field);
                    if let Err(e) = b.push(&v) {
                        violation!("append-refused", "appending a valid item to a list in memory was refused: {e:?}");
                    }
                    items.push(v);
                }
                let wire = list_wire(m, ops.field, &items);
                Work::List(b, wire)
            }
        })
    }
}

pub fn union_wire(u: usize, v: &Val) -> Vec<u8> {
    let w = world();
    let Val::Union(n, p) = v else { unreachable!() };
    match (w.s.unions[u].cases[*n].item, p) {
        (Some(RRef::Msg(m)), Some(p)) => encode(&w.s, m, p).expect("valid value"),
        (Some(RRef::Struct(_)), Some(p)) => match &**p {
            Val::Struct(b) => b.clone(),
            _ => unreachable!(),
        },
        _ => Vec::new(),
    }
}

pub fn gen_item(ctx: &mut Ctx, m: usize, field: usize) -> Val {
    let w = world();
    match &w.s.msgs[m].fields[field].kind {
        MKind::Array { item, .. } => Val::Struct(gen_struct(ctx, w, *item)),
        MKind::List { item, .. } => gen_msg(ctx, w, *item, Size { level: 2, long: false }),
        _ => unreachable!(),
    }
}

pub fn item_wire(m: usize, field: usize, v: &Val) -> Vec<u8> {
    let w = world();
    match (&w.s.msgs[m].fields[field].kind, v) {
        (MKind::Array { .. }, Val::Struct(b)) => b.clone(),
        (MKind::List { item, .. }, v) => encode(&w.s, *item, v).expect("valid value"),
        _ => unreachable!(),
    }
}

pub fn list_wire(m: usize, field: usize, items: &[Val]) -> Vec<u8> {
    let w = world();
    let f = &w.s.msgs[m].fields[field];
    let prefix = match &f.kind {
        MKind::Array { prefix, .. } | MKind::List { prefix, .. } => *prefix,
        _ => unreachable!(),
    };
    let n = items.len() as u64;
    let mut o = match f.endian {
        Endian::Little => n.to_le_bytes()[..prefix].to_vec(),
        Endian::Big => n.to_be_bytes()[8 - prefix..].to_vec(),
    };
    for v in items {
        o.extend(item_wire(m, field, v));
    }
    o
}

// ---------------------------------------------------------------------------------------------

/// C01: nodes write messages to sinks that fail in every way a sink can.
pub fn c01(ctx: &mut Ctx) -> Run {
    let rounds = ctx.range(1, 4);
    for round in 0..rounds {
        let work = Work::draw(ctx)?;
        let wire = work.wire();
        // The same value again after every failure: a failed encode leaves nothing behind.
        for attempt in 0..3 {
            let plan = if attempt == 2 { Plan::none() } else { Plan::draw(ctx, wire.len(), true) };
            ev!(ctx, "encode", "round {round} attempt {attempt}: {} ({} bytes) to sink {plan:?}", work.name(), wire.len());
            let mut sink = Sink::new(ctx, plan);
            let out = run(&mut sink, |o| work.write(o));
            let Sink { got, failed, after, .. } = sink;
            if failed.is_some() {
                ctx.nontrivial = true;
            }
            ensure!(wire.starts_with(&got), "not-a-prefix", "sink holds {} which is no prefix of the wire form {}", hex(&got), hex(&wire));
            ensure!(after == 0, "write-after-failure", "{after} more calls to the sink after {failed:?}");
            match (&out, &failed) {
                (Out::Done, Some(f)) => violation!("failure-hidden", "success although the sink failed with {f:?} after {} of {} bytes", got.len(), wire.len()),
                (Out::Done, None) => {
                    ensure!(got == wire, "incomplete", "success although only {} of {} bytes were accepted", got.len(), wire.len());
                    break;
                }
                (Out::Err(EncErr::Build(e)), _) => violation!("valid-refused", "building a valid list was refused: {e:?}"),
                (Out::Err(e), None) => violation!("valid-refused", "a valid value was refused by a willing sink: {e:?}"),
                (Out::Err(e), Some(f)) => {
                    let Some(io) = is_io(e) else { violation!("wrong-error", "sink failed with {f:?}, call returned {e:?}") };
                    ensure!(f.is(io), "wrong-error", "sink failed with {f:?}, call returned {io:?}");
                }
                (Out::Unwound, _) => ensure!(failed == Some(Fail::Unwind), "unwound", "unexpected unwind"),
            }
        }
    }
    Ok(())
}

/// A sink with exactly so much room.
struct Bounded<'c> {
    ctx: &'c mut Ctx,
    room: usize,
    got: Vec<u8>,
    mode: usize,
}

impl Write for Bounded<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        host(|| {
            self.ctx.now += 1;
            if buf.is_empty() {
                return Ok(0);
            }
            let left = self.room - self.got.len();
            if left == 0 {
                self.ctx.count("fault.sink_full");
                return match self.mode {
                    0 => Ok(0),
                    _ => Err(std::io::Error::from_raw_os_error(28)),
                };
            }
            let mut n = buf.len().min(left);
            if n > 1 && self.mode == 2 {
                n = 1 + self.ctx.below(n);
            }
            self.got.extend_from_slice(&buf[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// C02: size queries against what is written, and sinks with exactly that much room.
pub fn c02(ctx: &mut Ctx) -> Run {
    let w = world();
    for _ in 0..ctx.range(1, 3) {
        if ctx.below(6) == 0 {
            let k = ctx.below(STRUCTS.len());
            let st = &STRUCTS[k];
            let want = w.s.structs[k].bytes;
            ev!(ctx, "struct", "sizes of structure {}", st.name);
            let b = gen_struct(ctx, w, k);
            let mut out = Vec::new();
            if let Err(e) = (st.write_to)(&b, &mut out) {
                violation!("valid-refused", "structure {}: {e:?}", st.name);
            }
            let stack = (st.on_stack)();
            ensure!(
                st.size_const == out.len() && st.fixed_size == out.len() && stack.len() == out.len() && out.len() == want,
                "struct-size",
                "structure {}: SIZE constant {}, FixedSize {}, new_on_stack {}, written {}, layout {want}",
                st.name,
                st.size_const,
                st.fixed_size,
                stack.len(),
                out.len()
            );
            ensure!(stack.iter().all(|v| *v == 0), "struct-size", "new_on_stack of {} is not zero", st.name);
            continue;
        }
        let work = match Work::draw(ctx)? {
            v @ (Work::Msg(..) | Work::List(..)) => v,
            _ => {
                let m = ctx.below(world().general);
                Work::Msg(m, gen_msg(ctx, w, m, Size::any()))
            }
        };
        let size = match &work {
            Work::Msg(m, v) => (MSGS[*m].size_of)(v),
            Work::List(b, _) => b.size().map_err(EncErr::Write),
            _ => unreachable!(),
        };
        let mut plain = Vec::new();
        let res = work.write(&mut plain);
        ensure!(res.is_ok(), "valid-refused", "{}: {res:?}", work.name());
        let size = match size {
            Ok(v) => v,
            Err(e) => violation!("size-query-failed", "{} encodes to {} bytes but the size query fails: {e:?}", work.name(), plain.len()),
        };
        ev!(ctx, "size", "{}: size query {size}, written {}", work.name(), plain.len());
        ensure!(size == plain.len(), "size-mismatch", "{}: size query says {size}, encoding wrote {} bytes", work.name(), plain.len());
        // Rooms around the exact one, in a drawn order.
        for _ in 0..ctx.range(1, 4) {
            ctx.nontrivial = true;
            let room = match ctx.weighted(&[3, 3, 2]) {
                0 => size,
                1 => size.saturating_sub(1),
                _ => ctx.below(size + 1),
            };
            let mode = ctx.below(4);
            ev!(ctx, "room", "sink of {room} bytes, mode {mode}");
            let (ok, got) = if mode == 3 {
                // A plain slice as sink.
                let mut store = vec![0xAA; room + 8];
                let ok = {
                    let mut slice: &mut [u8] = &mut store[..room];
                    work.write(&mut slice).is_ok()
                };
                ensure!(store[room..].iter().all(|v| *v == 0xAA), "overrun", "bytes behind the sink were written");
                store.truncate(if ok { size } else { 0 });
                (ok, store)
            } else {
                let mut b = Bounded { ctx, room, got: Vec::new(), mode };
                let ok = work.write(&mut b).is_ok();
                let got = b.got;
                (ok, got)
            };
            if room >= size {
                ensure!(ok && got == plain, "exact-room-refused", "{}: a sink with exactly {size} bytes of room was not enough", work.name());
            } else {
                ensure!(!ok, "less-room-accepted", "{}: encoding {size} bytes into {room} bytes of room succeeded", work.name());
                ensure!(plain.starts_with(&got), "not-a-prefix", "sink holds {}", hex(&got));
            }
        }
        // The size of something that cannot be encoded is not known either.
        if let Work::Msg(m, v) = &work {
            let mut v = v.clone();
            if ctx.below(4) == 0 {
                if let Some(what) = spoil(ctx, w, *m, &mut v) {
                    ev!(ctx, "spoil", "{what}");
                    if let Ok(n) = (MSGS[*m].size_of)(&v) {
                        let mut out = Vec::new();
                        let res = (MSGS[*m].encode)(&v, &mut out);
                        ensure!(res.is_ok() && out.len() == n, "size-mismatch", "size query says {n} for a value ({what}) whose encoding gives {res:?} after {} bytes", out.len());
                    }
                }
            }
        }
    }
    Ok(())
}

/// C03: a union value and its discriminant, updated independently, sent, damaged and received.
pub fn c03(ctx: &mut Ctx) -> Run {
    let w = world();
    let (m, field) = *ctx.pick(&w.unions);
    let msg = &w.s.msgs[m];
    let MKind::Union { union, on } = msg.fields[field].kind else { unreachable!() };
    let u = &w.s.unions[union];
    let (off, bits, endian) = w.s.disc_loc(union);
    let mut v = gen_msg(ctx, w, m, Size::small());
    let mut agree = true;
    for _ in 0..ctx.range(2, 8) {
        ctx.now += 1 + ctx.draw(5);
        match ctx.weighted(&[3, 3, 2, 2, 5]) {
            0 => {
                let c = gen_case(ctx, w, union, Size::small());
                ev!(ctx, "value", "value set to {}", short(&c));
                let Val::Msg(f) = &mut v else { unreachable!() };
                f[field] = c;
                agree = false;
            }
            1 => {
                // The library stores the discriminant that belongs to the value.
                let Val::Msg(f) = &mut v else { unreachable!() };
                let val = f[field].clone();
                let Val::Struct(root) = &f[on] else { unreachable!() };
                let mut got = root.clone();
                got.push(0xC3);
                (UNIONS[union].set_disc)(&val, &mut got).expect("valid payload");
                let tail = got.pop();
                let mut want = root.clone();
                let Val::Union(n, _) = &val else { unreachable!() };
                set_bits(&mut want, off, bits, endian, u.cases[*n].value);
                ev!(ctx, "setdisc", "set_discriminant for case {} gives {}", u.cases[*n].name, hex(&got));
                ensure!(got == want && tail == Some(0xC3), "set-discriminant", "set_discriminant({}) turned {} into {}, expected {}", u.cases[*n].name, hex(root), hex(&got), hex(&want));
                f[on] = Val::Struct(got);
                // Another union over the same discriminant may not agree with it.
                agree = !msg.fields.iter().enumerate().any(|(k, g)| matches!(g.kind, MKind::Union { union: u, on: o } if k != field && o == on && w.s.disc_loc(u) == w.s.disc_loc(union)));
            }
            2 => {
                let held = match &v {
                    Val::Msg(f) => match &f[field] {
                        Val::Union(n, _) => u.cases[*n].value,
                        _ => unreachable!(),
                    },
                    _ => unreachable!(),
                };
                let d = gen_disc(ctx, w, union, Some(held));
                ev!(ctx, "disc", "discriminant overwritten with {d}");
                let Val::Msg(f) = &mut v else { unreachable!() };
                set_disc(w, union, &mut f[on], d);
                agree = false;
            }
            3 => {
                // The rest of the structure is free.
                let Val::Msg(f) = &mut v else { unreachable!() };
                let d = disc_value(&w.s, union, &f[on]);
                let mut b = Val::Struct(gen_struct(ctx, w, u.root));
                set_disc(w, union, &mut b, d);
                // Other unions of the message may be ruled by the same structure.
                for g in &msg.fields {
                    if let MKind::Union { union: other, on: o } = g.kind {
                        if o == on && w.s.unions[other].path != u.path {
                            let d = disc_value(&w.s, other, &f[on]);
                            set_disc(w, other, &mut b, d);
                        }
                    }
                }
                f[on] = b;
            }
            _ => {
                ctx.nontrivial = true;
                let want = encode(&w.s, m, &v);
                let mut got = Vec::new();
                let res = (MSGS[m].encode)(&v, &mut got);
                ev!(ctx, "encode", "encode -> {}", if res.is_ok() { "ok" } else { "refused" });
                match (&want, &res) {
                    (Ok(b), Ok(())) => {
                        ensure!(&got == b, "bytes", "encoded {}, expected {}", hex(&got), hex(b));
                        // Direct union call with the same arguments.
                        let Val::Msg(f) = &v else { unreachable!() };
                        let Val::Struct(root) = &f[on] else { unreachable!() };
                        let mut direct = Vec::new();
                        let r = (UNIONS[union].write)(&f[field], root, &mut direct);
                        ensure!(r.is_ok(), "agreeing-refused", "direct write refused: {r:?}");
                        let mut walk = Walk::new(direct.len());
                        match (UNIONS[union].decode)(&direct, root, &mut walk) {
                            Ok((val, size)) => ensure!(val == f[field] && size == direct.len(), "decode", "union decoded to {} (size {size})", short(&val)),
                            Err(e) => violation!("decode", "own union refused: {e:?}"),
                        }
                    }
                    (Ok(_), Err(e)) => violation!("agreeing-refused", "value and discriminant agree, encode gives {e:?} (agree={agree})"),
                    (Err(e), Ok(())) => violation!("mismatch-accepted", "value does not belong to the discriminant ({e:?}) but encoding succeeded: {}", short(&v)),
                    (Err(EErr::Disc(d)), Err(e)) => {
                        let ok = matches!(e.inner(), SutErr::Disc(x) if x == d);
                        ensure!(ok, "wrong-error", "expected invalid discriminant {d}, got {e:?}");
                        ctx.count("fault.discriminant_mismatch");
                        continue;
                    }
                    (Err(e), Err(_)) => violation!("harness", "unexpected reference error {e:?}"),
                }
                // Over the link, sometimes with the discriminant damaged on the way.
                let mut wire = got.clone();
                let bad = ctx.below(3) == 0;
                if bad {
                    let d = decode(&w.s, m, &wire).map_err(|_| ()).expect("own bytes");
                    let (s, _) = d.off.fields[on];
                    let nd = gen_disc(ctx, w, union, Some(disc_value(&w.s, union, match &v {
                        Val::Msg(f) => &f[on],
                        _ => unreachable!(),
                    })));
                    let n = w.s.structs[u.root].bytes;
                    set_bits(&mut wire[s..s + n], off, bits, endian, nd);
                    ctx.count("fault.discriminant_damaged");
                    ev!(ctx, "damage", "discriminant damaged to {nd} on the link");
                }
                check_decode(ctx, m, &wire)?;
            }
        }
    }
    // Finally make both agree through the library: always encodes, same case and payload back.
    let Val::Msg(f) = &mut v else { unreachable!() };
    let val = f[field].clone();
    let Val::Struct(root) = &mut f[on] else { unreachable!() };
    (UNIONS[union].set_disc)(&val, root).expect("valid payload");
    // Other unions over the same discriminant follow it.
    let Val::Union(n, _) = &val else { unreachable!() };
    let d = u.cases[*n].value;
    for (k, g) in msg.fields.iter().enumerate() {
        match g.kind {
            MKind::Union { union: other, on: o } if k != field && o == on && w.s.disc_loc(other) == w.s.disc_loc(union) => {
                let Some(c) = w.s.unions[other].cases.iter().position(|c| c.value == d) else { return Ok(()) };
                f[k] = gen_case_n(ctx, w, other, c, Size::small());
            }
            _ => {}
        }
    }
    let mut got = Vec::new();
    let res = (MSGS[m].encode)(&v, &mut got);
    ensure!(res.is_ok(), "agreeing-refused", "after set_discriminant encode gives {res:?}");
    let mut walk = Walk::new(got.len());
    match (MSGS[m].decode)(&got, &mut walk) {
        Ok((d, size)) => ensure!(d == v && size == got.len(), "decode", "after set_discriminant: {}", diff(&d, &v)),
        Err(e) => violation!("decode", "own message refused: {e:?}"),
    }
    Ok(())
}

/// Decode with the library and with the reference; both have to agree. Returns the reference result.
pub fn check_decode(ctx: &mut Ctx, m: usize, data: &[u8]) -> Run<Result<Dec, DErr>> {
    let w = world();
    let want = decode(&w.s, m, data);
    let name = &w.s.msgs[m].name;
    let edge = at_edge(data, |d| (MSGS[m].decode)(d, &mut Walk::new(d.len())).ok());
    let mut walk = Walk::new(data.len());
    walk.offsets = true;
    let got = (MSGS[m].decode)(data, &mut walk);
    ensure!(edge.as_ref() == got.as_ref().ok(), "outside-input", "{name} from {}: the result depends on where the bytes are", hex(data));
    match (&got, &want) {
        (Ok((v, size)), Ok(d)) => {
            ensure!(*size <= data.len(), "size-beyond-input", "{name}: reported size {size} of {} bytes", data.len());
            ensure!(v == &d.val, "decode-value", "{name} from {}: {}", hex(data), diff(v, &d.val));
            ensure!(*size == d.size, "decode-size", "{name}: reported size {size}, expected {} of {}", d.size, data.len());
        }
        (Err(e), Err(d)) => ensure!(&e.derr() == d, "decode-error", "{name} from {}: error {e:?}, expected {d:?}", hex(data)),
        (Ok((v, _)), Err(d)) => violation!("decode-accepted", "{name} from {}: decoded to {}, expected error {d:?}", hex(data), short(v)),
        (Err(e), Ok(d)) => violation!("decode-refused", "{name} from {}: error {e:?}, expected {}", hex(data), short(&d.val)),
    }
    if let Some((c, d)) = walk.problems.first() {
        violation!(*c, "{name} from {}: {d}", hex(data));
    }
    ev!(ctx, "decode", "{name} from {} bytes -> {}", data.len(), if want.is_ok() { "ok" } else { "error" });
    Ok(want)
}

/// C04: a buffer with more in it than the items it is said to hold.
fn surplus(ctx: &mut Ctx) -> Run {
    let w = world();
    let (m, k) = *ctx.pick(&w.arrays);
    let ops = &MSGS[m].lists[k];
    let f = &w.s.msgs[m].fields[ops.field];
    let MKind::Array { prefix, item } = f.kind else { unreachable!() };
    let size = w.s.structs[item].bytes;
    let n = ctx.below(6);
    let model: Vec<u8> = (0..n).flat_map(|_| gen_struct(ctx, w, item)).collect();
    let more = match ctx.draw(4) {
        0 => 0,
        1 => 1,
        2 => size,
        _ => ctx.range(1, 3 * size.max(1)),
    };
    let mut data = model.clone();
    for _ in 0..more {
        data.push(ctx.draw(256) as u8);
    }
    let name = format!("{}.{}", w.s.msgs[m].name, f.name);
    ev!(ctx, "parts", "{name}: {} bytes as {n} items of {size}", data.len());
    ctx.nontrivial = more > 0;
    let Some(b) = (ops.from_parts)(SimBuf::plain(data), n) else {
        ensure!(more > 0, "from-parts", "{name}: {} bytes refused as {n} items of {size}", model.len());
        ctx.count("probe.surplus_refused");
        return Ok(());
    };
    ctx.count("probe.surplus_accepted");
    ensure!(b.len() == n, "misstated-content", "{name}: {n} items counted as {}", b.len());
    let mut got = Vec::new();
    if let Err(e) = b.write(&mut got) {
        violation!("valid-refused", "{name}: {n} items accepted but not written: {e:?}");
    }
    let mut want = match f.endian {
        Endian::Little => (n as u64).to_le_bytes()[..prefix].to_vec(),
        Endian::Big => (n as u64).to_be_bytes()[8 - prefix..].to_vec(),
    };
    want.extend_from_slice(&model);
    ensure!(got == want, "bytes", "{name}: {n} items out of {} bytes written as {}, expected {}", model.len() + more, hex(&got), hex(&want));
    Ok(())
}

/// C04: content lengths around the limits of every prefix, and embedded terminators.
pub fn c04(ctx: &mut Ctx) -> Run {
    let w = world();
    if ctx.below(16) == 9 {
        return surplus(ctx);
    }
    let m = *ctx.pick(&w.contents);
    let mut v = gen_msg(ctx, w, m, Size::small());
    for _ in 0..ctx.range(1, 3) {
        let mut l = Vec::new();
        leaves(w, m, &v, &mut Vec::new(), &mut l);
        l.retain(|l| matches!(&w.s.msgs[l.msg].fields[l.field].kind, MKind::Nul | MKind::Var { .. } | MKind::Array { .. } | MKind::List { .. }));
        if l.is_empty() {
            return Ok(());
        }
        let leaf = ctx.pick(&l).clone();
        let f = &w.s.msgs[leaf.msg].fields[leaf.field];
        let edge = |ctx: &mut Ctx, prefix: usize, item: usize| -> usize {
            let big = 65536 * item <= 400_000;
            match prefix {
                1 => *ctx.pick(&[0, 1, 127, 128, 254, 255, 256, 257, 300, 511, 512, 65536]).min(&if big { 65536 } else { 512 }),
                2 if big && ctx.below(6) == 0 => *ctx.pick(&[65534, 65535, 65536, 65537, 65600]),
                4 | 8 if big && ctx.below(10) == 7 => *ctx.pick(&[32768, 65535, 65536, 65537, 131072]),
                _ => *ctx.pick(&[0, 1, 255, 256, 257, 1000]),
            }
        };
        let replace = match &f.kind {
            MKind::Nul => {
                let mut s = gen_str(ctx, Size::any());
                if ctx.below(12) == 7 {
                    s.push_str(&"t".repeat(*ctx.pick(&[4096, 32767, 32768, 65534, 65535, 65536, 65537, 131072])));
                    ctx.count("probe.very_long_text");
                }
                for _ in 0..ctx.below(3) {
                    let mut at = ctx.below(s.len() + 1);
                    while !s.is_char_boundary(at) {
                        at -= 1;
                    }
                    s.insert(at, '\0');
                }
                Val::Str(s)
            }
            MKind::Var { prefix } => {
                let n = edge(ctx, *prefix, 1);
                let unit = *ctx.pick(&["x", "é", "中", "\0"]);
                let mut s = unit.repeat(n / unit.len());
                while s.len() < n {
                    s.push('y');
                }
                Val::Str(s)
            }
            MKind::Array { prefix, item } => {
                let size = w.s.structs[*item].bytes;
                let n = edge(ctx, *prefix, size);
                let a = gen_struct(ctx, w, *item);
                let b = gen_struct(ctx, w, *item);
                Val::Arr((0..n).map(|k| if k % 3 == 0 { a.clone() } else { b.clone() }).collect())
            }
            MKind::List { prefix, item, .. } => {
                let a = gen_msg(ctx, w, *item, Size { level: 3, long: false });
                let n = edge(ctx, *prefix, 10 * encode(&w.s, *item, &a).map(|v| v.len()).unwrap_or(1 << 20));
                Val::list(vec![a; n.min(600)])
            }
            _ => unreachable!(),
        };
        ev!(ctx, "content", "field {} of {} gets content of weight {}", f.name, w.s.msgs[leaf.msg].name, replace.weight());
        *field_at(&mut v, &leaf) = replace;
        ctx.nontrivial = true;
    }
    let want = encode(&w.s, m, &v);
    let mut got = Vec::new();
    let res = (MSGS[m].encode)(&v, &mut got);
    ev!(ctx, "encode", "-> {} / {} bytes", if res.is_ok() { "ok" } else { "refused" }, got.len());
    match (&want, res) {
        (Err(e), Ok(())) => {
            ctx.count("probe.unencodable_content");
            violation!("misstated-content", "{}: content that has no wire form ({e:?}) was encoded to {} bytes", w.s.msgs[m].name, got.len())
        }
        (Err(_), Err(_)) => ctx.count("probe.unencodable_content"),
        (Ok(_), Err(_)) => ctx.count("probe.encodable_refused"),
        (Ok(b), Ok(())) => {
            ctx.count("probe.encodable_content");
            ensure!(&got == b, "bytes", "{}: encoded {}, expected {}", w.s.msgs[m].name, hex(&got), hex(b));
            let mut walk = Walk::new(got.len());
            match (MSGS[m].decode)(&got, &mut walk) {
                Ok((d, size)) => ensure!(d == v && size == got.len(), "misstated-content", "{}: {}", w.s.msgs[m].name, diff(&d, &v)),
                Err(e) => violation!("misstated-content", "{}: own bytes refused: {e:?}", w.s.msgs[m].name),
            }
            match decode(&w.s, m, &got) {
                Ok(d) => ensure!(d.val == v, "misstated-content", "{}: {}", w.s.msgs[m].name, diff(&d.val, &v)),
                Err(e) => violation!("misstated-content", "{}: bytes refused by the peer: {e:?}", w.s.msgs[m].name),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

#[derive(Default)]
struct BufPlan {
    short: Vec<usize>,
    intr: usize,
    /// Fails after this many more bytes.
    fail: Option<(usize, Fail)>,
    fired: bool,
    taken: usize,
    after: usize,
}

struct FaultBuf(Mutex<BufPlan>);

impl BufHook for FaultBuf {
    fn write(&self, data: &mut Vec<u8>, buf: &[u8]) -> std::io::Result<usize> {
        let mut p = self.0.lock().unwrap();
        if buf.is_empty() {
            return Ok(0);
        }
        if p.fired {
            p.after += 1;
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        if p.intr > 0 {
            p.intr -= 1;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if let Some(k) = p.short.pop() {
            n = n.min(k.max(1));
        }
        if let Some((at, f)) = p.fail.clone() {
            n = n.min(at - p.taken.min(at));
            if n == 0 {
                p.fired = true;
                drop(p);
                return match f {
                    Fail::Unwind => inject_unwind(),
                    f => f.raise(),
                };
            }
        }
        p.taken += n;
        data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
}

/// C05: histories of appends to a list, some refused, over buffers that may fail or unwind.
pub fn c05(ctx: &mut Ctx) -> Run {
    let w = world();
    // Only message items can be refused; arrays still meet failing buffers.
    let (m, k) = if ctx.below(4) == 0 { *ctx.pick(&w.arrays) } else { *ctx.pick(&w.lists) };
    let ops = &MSGS[m].lists[k];
    let f = &w.s.msgs[m].fields[ops.field];
    let hook = Arc::new(FaultBuf(Mutex::new(BufPlan::default())));
    let mut b = (ops.builder)(SimBuf::new(hook.clone()));
    let mut model: Vec<Val> = Vec::new();
    ev!(ctx, "list", "list {}.{}", w.s.msgs[m].name, f.name);
    let good = |ctx: &mut Ctx| gen_item(ctx, m, ops.field);
    let bad = |ctx: &mut Ctx| -> Option<(Val, &'static str)> {
        let MKind::List { item, .. } = f.kind else { return None };
        let mut v = gen_msg(ctx, w, item, Size { level: 2, long: false });
        let what = spoil(ctx, w, item, &mut v)?;
        Some((v, what))
    };
    for step in 0..ctx.range(2, 9) {
        ctx.now += 1;
        // Conditions of the buffer during this step.
        let mut plan = BufPlan { intr: if ctx.below(4) == 0 { ctx.below(4) } else { 0 }, ..BufPlan::default() };
        if ctx.below(3) == 0 {
            plan.short = (0..ctx.range(1, 5)).map(|_| 1 + ctx.below(4)).collect();
        }
        let kind = ctx.weighted(&[5, 4, 2, 2, 2]);
        let mut failing = false;
        let (what, items, n_good, refuse): (&str, Vec<Val>, usize, bool) = match kind {
            1 => match bad(ctx) {
                Some((v, what)) => (what, vec![v], 0, true),
                None => ("item", vec![good(ctx)], 1, false),
            },
            2 => {
                let n = ctx.below(4);
                let items: Vec<Val> = (0..n).map(|_| good(ctx)).collect();
                ("items", items, n, false)
            }
            3 => {
                // Several items, one of which is refused.
                let n = ctx.below(3);
                let mut items: Vec<Val> = (0..n).map(|_| good(ctx)).collect();
                match bad(ctx) {
                    Some((v, what)) => {
                        items.push(v);
                        for _ in 0..ctx.below(3) {
                            items.push(good(ctx));
                        }
                        (what, items, n, true)
                    }
                    None => ("items", items, n, false),
                }
            }
            4 => {
                let v = good(ctx);
                let len = item_wire(m, ops.field, &v).len();
                let fail = Fail::draw(ctx, true);
                let at = ctx.below(len.max(1));
                ctx.count(match &fail {
                    Fail::Unwind => "fault.buffer_unwind",
                    _ => "fault.buffer_error",
                });
                plan.fail = Some((at, fail));
                failing = true;
                ("item into failing buffer", vec![v], 0, false)
            }
            _ => ("item", vec![good(ctx)], 1, false),
        };
        let many = matches!(kind, 2 | 3);
        if plan.intr > 0 || !plan.short.is_empty() {
            ctx.count("fault.buffer_short_or_interrupted");
        }
        let mut taken_fail = 0;
        *hook.0.lock().unwrap() = plan;
        let res = guard(|| if many { b.push_many(&items) } else { b.push(&items[0]) });
        let (fired, after) = {
            let p = hook.0.lock().unwrap();
            if p.fired {
                taken_fail = p.taken;
            }
            (p.fired, p.after)
        };
        *hook.0.lock().unwrap() = BufPlan::default();
        ev!(ctx, "append", "step {step}: {what}, {} items ({n_good} good): {}", items.len(), match &res { Ok(Ok(())) => "ok", Ok(Err(_)) => "refused", _ => "unwound" });
        let old = model.len();
        let failed = match res {
            Ok(Ok(())) => {
                ensure!(!failing, "buffer-failure-hidden", "append succeeded although the buffer failed");
                ensure!(!refuse, "unencodable-accepted", "item that has no wire form ({what}) was appended");
                model.extend(items.iter().cloned());
                false
            }
            Ok(Err(e)) => {
                ensure!(refuse || failing, "valid-refused", "append of valid items refused: {e:?}");
                true
            }
            Err(Caught::Injected) => true,
            Err(Caught::Panic(p)) => rethrow(p),
        };
        ensure!(after == 0, "write-after-failure", "buffer was written {after} times after it failed");
        if failed {
            ctx.nontrivial = true;
        }
        if failing {
            // Only whole items count, and they still read back.
            ensure!(fired, "harness", "planned failure did not happen");
            ensure!(b.len() == old, "partial-item-counted", "buffer failed after {taken_fail} bytes of an item, count went from {old} to {}", b.len());
            let (l, _) = match guard(|| b.items()) {
                Ok(v) => v,
                Err(Caught::Panic(p)) => rethrow(p),
                Err(_) => unreachable!(),
            };
            let back = &l.items[..l.items.len().min(old)];
            ensure!(back == &model[..], "items-changed", "after a buffer failure the {old} items read back as {}", short(&back));
            if taken_fail > 0 {
                // What a failed buffer kept of the item is for its owner to deal with.
                return Ok(());
            }
            continue;
        }
        if refuse {
            let n = b.len();
            ensure!(n >= old && n <= old + n_good, "refused-counted", "refused append ({what}, {} items, {n_good} in front): count went from {old} to {n}", items.len());
            model.extend(items[..n - old].iter().cloned());
            ctx.count("fault.append_refused");
        }
        ensure!(b.len() == model.len(), "count", "count is {}, {} items were accepted", b.len(), model.len());
        let (l, problems) = b.items();
        ensure!(l.items == model && l.err.is_none(), "items-changed", "list reads back as {}, expected {}", short(&l), short(&model));
        if let Some((c, d)) = problems.first() {
            violation!(*c, "{d}");
        }
    }
    // As if the refused appends had never been tried.
    let mut out = Vec::new();
    let res = b.write(&mut out);
    let want = list_wire(m, ops.field, &model);
    ensure!(res.is_ok(), "valid-refused", "list of {} items cannot be encoded: {res:?}", model.len());
    ensure!(out == want, "list-bytes", "list encodes to {}, expected {}", hex(&out), hex(&want));
    Ok(())
}

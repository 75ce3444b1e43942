//! C06 to C10: messages over links, in logs, damaged, iterated and mapped.

use crate::enc::check_decode;
use crate::net::*;
use crate::regs::*;
use crate::sink::{Plan, Sink};
use crate::world::*;
use rtsim::api::*;
use rtsim::glue::{MSGS, STRUCTS, UNIONS};
use simcore::ctx::{Ctx, Run};
use simcore::refcodec::*;
use simcore::schema::*;
use simcore::sut::{allocated, reset_alloc};
use simcore::{ensure, ev, violation};

/// Encode with the library.
fn real_encode(m: usize, v: &Val) -> Run<Vec<u8>> {
    let mut out = Vec::new();
    if let Err(e) = (MSGS[m].encode)(v, &mut out) {
        violation!("valid-refused", "{}: a valid value was refused: {e:?}", MSGS[m].name);
    }
    Ok(out)
}

/// A node fills in structures through views before it sends them: this implementation on one side, the reference on the other.
fn fill(ctx: &mut Ctx, m: usize, v: &mut Val) -> Run {
    let w = world();
    let mut l = Vec::new();
    leaves(w, m, v, &mut Vec::new(), &mut l);
    l.retain(|l| matches!(w.s.msgs[l.msg].fields[l.field].kind, MKind::Struct(_)));
    if l.is_empty() {
        return Ok(());
    }
    for _ in 0..ctx.range(1, 4) {
        let leaf = ctx.pick(&l).clone();
        let msg = &w.s.msgs[leaf.msg];
        let MKind::Struct(k) = msg.fields[leaf.field].kind else { unreachable!() };
        // Discriminants stay what they are.
        let on: Vec<Vec<usize>> = msg
            .fields
            .iter()
            .filter_map(|f| match f.kind {
                MKind::Union { union, on } if on == leaf.field => Some(w.s.unions[union].path.clone()),
                _ => None,
            })
            .collect();
        let regs: Vec<&Loc> = locs(k).iter().filter(|r| !on.contains(&r.path)).collect();
        if regs.is_empty() {
            continue;
        }
        let reg = *ctx.pick(&regs);
        let Val::Struct(b) = field_at(v, &leaf) else { unreachable!() };
        poke(ctx, k, reg, b)?;
    }
    Ok(())
}

/// Store something in one register of a structure, by the library or by the reference, and read it by the other.
fn poke(ctx: &mut Ctx, k: usize, reg: &Loc, b: &mut Vec<u8>) -> Run {
    let name = STRUCTS[k].name;
    let real = ctx.below(2) == 0;
    match reg.array() {
        Some((_, len, bits)) => {
            let i = ctx.below(len);
            let v = gen_raw(ctx, bits);
            ev!(ctx, "store", "{name}.{} item {i} = {v:#x} by {}", reg.f.name, if real { "library" } else { "peer" });
            if real {
                (STRUCTS[k].with)(b).write(&reg.path, &WOp::Item(i, v));
                ensure!(reg.item(b, i) == v, "view-bytes", "{name}.{}[{i}] = {v:#x} is stored as {}", reg.f.name, hex(b));
            } else {
                reg.set_item(b, i, v);
            }
        }
        None => {
            if real {
                let v = reg.draw_view(ctx);
                ev!(ctx, "store", "{name}.{} = {v:?} by library", reg.f.name);
                (STRUCTS[k].with)(b).write(&reg.path, &WOp::View(v));
                if let Some(d) = reg.check_stored(&v, reg.get(b)) {
                    violation!("view-bytes", "{name}.{}: {d}", reg.f.name);
                }
            } else {
                let mut v = gen_raw(ctx, reg.f.bits);
                if let RKind::Fixed { view: RView::Bool, .. } = &reg.f.kind {
                    v &= 1;
                }
                ev!(ctx, "store", "{name}.{} raw {v:#x} by peer", reg.f.name);
                reg.set(b, v);
            }
        }
    }
    Ok(())
}

/// Read all registers of all structures of a received message.
fn read_all(m: usize, v: &mut Val) -> Run {
    let w = world();
    let mut l = Vec::new();
    leaves(w, m, v, &mut Vec::new(), &mut l);
    for leaf in l {
        let MKind::Struct(k) = w.s.msgs[leaf.msg].fields[leaf.field].kind else { continue };
        let Val::Struct(b) = field_at(v, &leaf) else { unreachable!() };
        for reg in locs(k) {
            let ops: &[ROp] = if reg.array().is_some() { &[ROp::Iter] } else { &[ROp::Raw, ROp::View] };
            for op in ops {
                let got = (STRUCTS[k].read)(b, &reg.path, op);
                if let Some(d) = reg.check(b, op, &got) {
                    violation!("view-value", "{}.{} {op:?} of {}: {d}", STRUCTS[k].name, reg.f.name, hex(b));
                }
            }
        }
    }
    Ok(())
}

struct Packet {
    m: usize,
    sent: Val,
    wire: Vec<u8>,
    hops: usize,
    from_peer: bool,
}

/// C06: nodes of two implementations exchange messages over links that delay and reorder whole messages.
pub fn c06(ctx: &mut Ctx) -> Run {
    let w = world();
    let mut link: Link<Packet> = Link::new();
    for _ in 0..ctx.range(1, 5) {
        let m = ctx.below(world().general);
        let mut v = gen_msg(ctx, w, m, Size::any());
        fill(ctx, m, &mut v)?;
        let from_peer = ctx.below(2) == 0;
        let wire = if from_peer { encode(&w.s, m, &v).expect("valid value") } else { real_encode(m, &v)? };
        ev!(ctx, "send", "{} as {} bytes by {}", MSGS[m].name, wire.len(), if from_peer { "peer" } else { "library" });
        let delay = ctx.draw(20);
        let hops = if ctx.below(4) == 0 { 1 } else { 0 };
        link.send(ctx, delay, Packet { m, sent: v, wire, hops, from_peer });
        ctx.now += ctx.draw(3);
    }
    while let Some(mut p) = link.next(ctx) {
        let name = MSGS[p.m].name;
        if p.hops > 0 {
            // A forwarding node decodes and encodes again.
            p.hops -= 1;
            let mut out = Vec::new();
            match (MSGS[p.m].relay)(&p.wire, &mut out) {
                Ok(n) => ensure!(n == p.wire.len(), "relay", "{name}: decoded {n} of {} bytes", p.wire.len()),
                Err(e) => violation!("relay", "{name}: forwarding {} failed: {e:?}", hex(&p.wire)),
            }
            ev!(ctx, "forward", "{name} {} bytes", out.len());
            p.wire = out;
            p.from_peer = false;
            let delay = ctx.draw(10);
            ctx.count("fault.message_delayed");
            link.send(ctx, delay, p);
            continue;
        }
        ctx.nontrivial = true;
        match decode(&w.s, p.m, &p.wire) {
            Ok(d) => {
                ensure!(d.val == p.sent, "peer-value", "{name}: peer decodes {}: {}", hex(&p.wire), diff(&d.val, &p.sent));
                ensure!(d.size == p.wire.len(), "peer-size", "{name}: peer uses {} of {} bytes", d.size, p.wire.len());
            }
            Err(e) => violation!("peer-refused", "{name}: peer refuses {} with {e:?}", hex(&p.wire)),
        }
        let got = check_decode(ctx, p.m, &p.wire)?;
        ensure!(got.map(|d| d.val) == Ok(p.sent.clone()), "value", "{name}: values differ from what was sent");
        read_all(p.m, &mut p.sent)?;
        ctx.count(if p.from_peer { "probe.peer_to_library" } else { "probe.library_to_peer" });
    }
    Ok(())
}

fn decode_both(m: usize, data: &[u8]) -> Run<Result<(Val, usize), SutErr>> {
    let mut walk = Walk::new(data.len());
    let r = at_edge(data, |d| (MSGS[m].decode)(d, &mut walk));
    let mut walk2 = Walk::new(data.len());
    let r2 = (MSGS[m].decode_off)(data, &mut walk2);
    for p in walk.problems.iter().chain(&walk2.problems) {
        violation!(p.0, "{} from {}: {}", MSGS[m].name, hex(data), p.1);
    }
    match (&r, &r2) {
        (Ok((v, n)), Ok((v2, n2, _))) => ensure!(v == v2 && n == n2, "offsets-differ", "{}: decode and decode with offsets differ", MSGS[m].name),
        (Err(a), Err(b)) => ensure!(a.derr() == b.derr(), "offsets-differ", "{}: {a:?} / {b:?}", MSGS[m].name),
        _ => violation!("offsets-differ", "{}: decode and decode with offsets differ on {}", MSGS[m].name, hex(data)),
    }
    Ok(r)
}

/// Receiver that decodes from whatever has arrived.
struct Receiver {
    buf: Vec<u8>,
    next: usize,
}

impl Receiver {
    fn drain(&mut self, ctx: &mut Ctx, sent: &[(usize, Val, usize)], arrived: usize, end: &mut usize) -> Run {
        loop {
            if self.next == sent.len() {
                ensure!(self.buf.is_empty(), "left-over", "{} bytes left after the last message", self.buf.len());
                return Ok(());
            }
            let (m, v, len) = &sent[self.next];
            let complete = arrived >= *end + len;
            match decode_both(*m, &self.buf)? {
                Ok((got, n)) => {
                    ensure!(complete, "early", "{}: {} of {len} bytes have arrived and decode to {} (size {n})", MSGS[*m].name, arrived - *end, short(&got));
                    ensure!(&got == v, "stream-value", "{}: {}", MSGS[*m].name, diff(&got, v));
                    ensure!(n == *len, "stream-size", "{}: reported {n} bytes, own size is {len}", MSGS[*m].name);
                    ev!(ctx, "deliver", "message {} ({} bytes)", self.next, n);
                    self.buf.drain(..n);
                    *end += len;
                    self.next += 1;
                }
                Err(SutErr::Truncated) => {
                    ensure!(!complete, "late", "{}: all {len} bytes have arrived but the message is reported as truncated", MSGS[*m].name);
                    ctx.count("probe.incomplete_recognised");
                    return Ok(());
                }
                Err(e) => violation!("not-truncated", "{}: prefix of {} of {len} bytes reported as {e:?} instead of truncated", MSGS[*m].name, (arrived - *end).min(*len)),
            }
        }
    }
}

/// C07: streams that arrive in pieces, and logs torn by crashes.
pub fn c07(ctx: &mut Ctx) -> Run {
    let w = world();
    let kinds = ctx.range(1, 3);
    let kinds: Vec<usize> = (0..kinds).map(|_| *ctx.pick(&w.delimited)).collect();
    let mut sent: Vec<(usize, Val, usize)> = Vec::new();
    let mut bytes = Vec::new();
    let mut add = |ctx: &mut Ctx, sent: &mut Vec<(usize, Val, usize)>| -> Run<Vec<u8>> {
        let m = *ctx.pick(&kinds);
        let v = gen_msg(ctx, w, m, Size { level: 1, long: false });
        let wire = if ctx.below(3) == 0 { real_encode(m, &v)? } else { encode(&w.s, m, &v).expect("valid value") };
        sent.push((m, v, wire.len()));
        Ok(wire)
    };
    if ctx.below(3) < 2 {
        for _ in 0..ctx.range(1, 6) {
            let b = add(ctx, &mut sent)?;
            bytes.extend(b);
        }
        ev!(ctx, "stream", "{} messages, {} bytes", sent.len(), bytes.len());
        let mut link: Link<Vec<u8>> = Link::new();
        let mut delay = 0;
        for f in fragments(ctx, &bytes) {
            // In order, with stalls.
            delay += if ctx.below(8) == 0 { 50 } else { ctx.draw(3) };
            link.send(ctx, delay, f);
        }
        let mut r = Receiver { buf: Vec::new(), next: 0 };
        let mut arrived = 0;
        let mut end = 0;
        while let Some(f) = link.next(ctx) {
            arrived += f.len();
            r.buf.extend_from_slice(&f);
            ctx.count("fault.fragmented");
            if ctx.below(6) == 0 {
                // Stalled receiver: pieces pile up.
                ctx.count("fault.receiver_stalled");
                continue;
            }
            ev!(ctx, "arrive", "{} bytes, {arrived} in total", f.len());
            r.drain(ctx, &sent, arrived, &mut end)?;
        }
        r.drain(ctx, &sent, arrived, &mut end)?;
        ensure!(r.next == sent.len(), "undelivered", "{} of {} messages delivered", r.next, sent.len());
        ctx.nontrivial = sent.len() > 1;
        return Ok(());
    }
    // A log: appended in memory, made durable now and then, torn by crashes at any byte behind the durable part.
    let mut disk: Vec<u8> = Vec::new();
    let mut durable = 0;
    for _ in 0..ctx.range(2, 5) {
        for _ in 0..ctx.range(1, 3) {
            let b = add(ctx, &mut sent)?;
            disk.extend(b);
            if ctx.below(3) == 0 {
                durable = disk.len();
                ev!(ctx, "sync", "{durable} bytes durable");
            }
        }
        let keep = durable + ctx.below(disk.len() - durable + 1);
        ctx.count("fault.crash_torn_log");
        ctx.nontrivial = true;
        ev!(ctx, "crash", "log of {} bytes torn to {keep}", disk.len());
        disk.truncate(keep);
        // Recovery.
        let mut at = 0;
        let mut n = 0;
        while n < sent.len() {
            let (m, v, len) = &sent[n];
            match decode_both(*m, &disk[at..])? {
                Ok((got, size)) => {
                    ensure!(at + len <= keep, "early", "{}: recovered from {} of {len} bytes", MSGS[*m].name, keep - at);
                    ensure!(&got == v && size == *len, "log-value", "{} (size {size} / {len}): {}", MSGS[*m].name, diff(&got, v));
                    at += size;
                    n += 1;
                }
                Err(SutErr::Truncated) => {
                    ensure!(at + len > keep, "late", "{}: whole message reported as truncated", MSGS[*m].name);
                    break;
                }
                Err(e) => violation!("not-truncated", "{}: torn tail of {} of {len} bytes reported as {e:?}", MSGS[*m].name, keep - at),
            }
        }
        ev!(ctx, "recover", "{n} messages, {at} bytes");
        disk.truncate(at);
        durable = durable.min(at);
        ensure!(durable <= at, "lost", "durable messages lost");
        sent.truncate(n);
        ctx.now += 10;
    }
    Ok(())
}

/// Where fields of a valid message begin.
fn marks(off: &Off, base: usize, out: &mut Vec<usize>) {
    for (k, (a, _)) in off.fields.iter().enumerate() {
        out.push(base + a);
        if let Some(n) = &off.nested[k] {
            marks(n, base + a, out);
        }
    }
}

/// Bytes as an attacker, a broken link or a broken disk would present them.
fn hostile(ctx: &mut Ctx, m: usize) -> Vec<u8> {
    let w = world();
    if ctx.below(8) == 0 {
        let n = ctx.below(64);
        ctx.count("fault.random_bytes");
        return ctx.bytes(n);
    }
    let v = gen_msg(ctx, w, m, Size::any());
    let mut b = encode(&w.s, m, &v).expect("valid value");
    let mut ms = Vec::new();
    marks(&decode(&w.s, m, &b).map_err(|_| ()).expect("own bytes").off, 0, &mut ms);
    for _ in 0..ctx.range(0, 4) {
        let what = damage(ctx, &mut b, &ms);
        ctx.count(what);
    }
    if ctx.below(6) == 0 {
        // Two messages run together.
        let v = gen_msg(ctx, w, m, Size::small());
        let c = encode(&w.s, m, &v).expect("valid value");
        let at = ctx.below(b.len() + 1);
        let from = ctx.below(c.len() + 1);
        b.truncate(at);
        b.extend_from_slice(&c[from..]);
        ctx.count("fault.messages_spliced");
    }
    b
}

/// Upper bound on what decoding and reading may allocate.
fn alloc_bound(input: usize) -> u64 {
    4096 + 64 * input as u64
}

/// One receive buffer, one message after another in the same place: what was there before must not matter.
fn reused(ctx: &mut Ctx) -> Run {
    let w = world();
    let mut rx = vec![0u8; 256];
    let mut m = ctx.below(w.general);
    let mut last: Vec<u8> = Vec::new();
    let mut before: Vec<(usize, Vec<u8>)> = Vec::new();
    for round in 0..ctx.range(2, 6) {
        ctx.now += 1;
        match if round == 0 { 0 } else { ctx.weighted(&[2, 6, 2]) } {
            0 => {
                m = ctx.below(w.general);
                last = if ctx.below(3) == 1 { hostile(ctx, m) } else { encode(&w.s, m, &gen_msg(ctx, w, m, Size::small())).expect("valid value") };
            }
            1 => {
                // The same message, with some of its bytes changed where they are.
                ctx.count("fault.bytes_changed");
                for _ in 0..ctx.range(1, 3) {
                    if !last.is_empty() {
                        let at = ctx.below(last.len());
                        last[at] = match ctx.below(4) {
                            0 => 0xFF,
                            1 => 0xC0,
                            2 => last[at] ^ 1 << ctx.below(8),
                            _ => ctx.below(256) as u8,
                        };
                    }
                }
            }
            _ => {
                let (n, b) = ctx.pick(&before).clone();
                m = n;
                last = b;
            }
        }
        before.push((m, last.clone()));
        if rx.len() < last.len() {
            rx.resize(last.len(), 0);
        }
        rx[..last.len()].copy_from_slice(&last);
        ev!(ctx, "reuse", "{}: {}", MSGS[m].name, hex(&last));
        check_decode(ctx, m, &rx[..last.len()])?;
        ctx.nontrivial = true;
    }
    ctx.count("probe.buffer_reused");
    Ok(())
}

/// C08: damaged and hostile bytes.
pub fn c08(ctx: &mut Ctx) -> Run {
    let w = world();
    for _ in 0..ctx.range(1, 3) {
        ctx.now += 1;
        match ctx.weighted(&[12, 1, 2, 2, 1]) {
            4 => crate::voids::hostile(ctx)?,
            3 => reused(ctx)?,
            0 => {
                let m = ctx.below(world().general);
                let b = hostile(ctx, m);
                ctx.nontrivial = true;
                reset_alloc();
                let want = check_decode(ctx, m, &b)?;
                let used = allocated();
                ensure!(used <= alloc_bound(b.len()), "allocation", "{}: {used} bytes allocated for {} bytes of input", MSGS[m].name, b.len());
                ctx.count(match &want {
                    Ok(d) if d.val.has_err() => "probe.decoded_with_item_error",
                    Ok(_) => "probe.decoded",
                    Err(DErr::Truncated) => "probe.truncated",
                    Err(DErr::Utf8) => "probe.utf8",
                    Err(DErr::Disc(_)) => "probe.discriminant",
                    Err(DErr::Io(_)) => "probe.io",
                });
                // The same bytes elsewhere, with something else around them.
                let pad = ctx.range(1, 40);
                let fill = *ctx.pick(&[0u8, 0xFF, 1, b'a']);
                let mut big = vec![fill; pad];
                big.extend_from_slice(&b);
                big.extend(vec![fill; pad]);
                let inner = &big[pad..pad + b.len()];
                let mut walk = Walk::new(b.len());
                let got = (MSGS[m].decode)(inner, &mut walk);
                match (&got, &want) {
                    (Ok((v, n)), Ok(d)) => ensure!(v == &d.val && *n == d.size, "outside-input", "{}: result depends on bytes outside the input", MSGS[m].name),
                    (Err(e), Err(d)) => ensure!(&e.derr() == d, "outside-input", "{}: error depends on bytes outside the input", MSGS[m].name),
                    _ => violation!("outside-input", "{}: outcome depends on bytes outside the input", MSGS[m].name),
                }
                reset_alloc();
                let mut walk = Walk::new(b.len());
                let off = at_edge(&b, |d| (MSGS[m].decode_off)(d, &mut walk));
                let used = allocated();
                ensure!(used <= alloc_bound(b.len()), "allocation", "{}: {used} bytes allocated for {} bytes of input (with offsets)", MSGS[m].name, b.len());
                match (&off, &want) {
                    (Ok((v, n, _)), Ok(d)) => ensure!(v == &d.val && *n == d.size, "offsets-differ", "{}: decode with offsets gives another value", MSGS[m].name),
                    (Err(e), Err(d)) => ensure!(&e.derr() == d, "offsets-differ", "{}: decode with offsets gives {e:?}, expected {d:?}", MSGS[m].name),
                    _ => violation!("offsets-differ", "{}: decode with offsets differs", MSGS[m].name),
                }
                // Reading registers of whatever structures there are.
                if let Ok(d) = &want {
                    if !d.val.has_err() && ctx.below(4) == 0 {
                        read_all(m, &mut d.val.clone())?;
                    }
                }
            }
            1 => {
                let k = ctx.below(STRUCTS.len());
                let n = w.s.structs[k].bytes;
                let len = ctx.below(n + 3);
                let b = ctx.bytes(len);
                ctx.count("fault.truncated");
                match (STRUCTS[k].from_slice)(&b) {
                    Ok((v, size)) => ensure!(len >= n && size == n && v == b[..n], "struct", "{} from {len} bytes: size {size}, {}", STRUCTS[k].name, hex(&v)),
                    Err(SutErr::Truncated) => ensure!(len < n, "struct", "{}: {len} bytes reported as truncated, {n} are needed", STRUCTS[k].name),
                    Err(e) => violation!("struct", "{}: {e:?}", STRUCTS[k].name),
                }
                ev!(ctx, "struct", "{} from {len} of {n} bytes", STRUCTS[k].name);
            }
            _ => {
                let u = ctx.below(UNIONS.len());
                let un = &w.s.unions[u];
                let (off, bits, endian) = w.s.disc_loc(u);
                let mut root = gen_struct(ctx, w, un.root);
                let c = ctx.below(un.cases.len());
                let v = gen_case_n(ctx, w, u, c, Size::small());
                let mut b = crate::enc::union_wire(u, &v);
                match ctx.below(6) {
                    0 | 1 => {}
                    2 => {
                        let d = gen_disc(ctx, w, u, Some(un.cases[c].value));
                        set_bits(&mut root, off, bits, endian, d);
                    }
                    _ => set_bits(&mut root, off, bits, endian, un.cases[c].value),
                }
                if ctx.below(2) == 0 {
                    let what = damage(ctx, &mut b, &[0]);
                    ctx.count(what);
                }
                let disc = get_bits(&root, off, bits, endian);
                let want: Result<(Val, usize), DErr> = match un.cases.iter().position(|c| c.value == disc) {
                    None => Err(DErr::Disc(disc)),
                    Some(k) => match un.cases[k].item {
                        None => Ok((Val::Union(k, None), 0)),
                        Some(RRef::Struct(t)) => {
                            let n = w.s.structs[t].bytes;
                            if b.len() < n {
                                Err(DErr::Truncated)
                            } else {
                                Ok((Val::Union(k, Some(Box::new(Val::Struct(b[..n].to_vec())))), n))
                            }
                        }
                        Some(RRef::Msg(t)) => decode(&w.s, t, &b).map(|d| (Val::Union(k, Some(Box::new(d.val))), d.size)),
                    },
                };
                let mut walk = Walk::new(b.len());
                let got = (UNIONS[u].decode)(&b, &root, &mut walk);
                match (&got, &want) {
                    (Ok(a), Ok(b)) => ensure!(a == b, "union", "{}: got {}, expected {}", un.name, short(a), short(b)),
                    (Err(a), Err(b)) => ensure!(&a.derr() == b, "union", "{}: got {a:?}, expected {b:?}", un.name),
                    _ => violation!("union", "{} from {}: got {}, expected {}", un.name, hex(&b), short(&got), short(&want)),
                }
                if let Some((c, d)) = walk.problems.first() {
                    violation!(*c, "{} from {}: {d}", un.name, hex(&b));
                }
                ev!(ctx, "union", "{} from {} bytes", un.name, b.len());
            }
        }
    }
    Ok(())
}

/// C09: consumers of lists, intact and damaged.
pub fn c09(ctx: &mut Ctx) -> Run {
    let w = world();
    let (m, k) = *ctx.pick(&w.lists);
    let ops = &MSGS[m].lists[k];
    let f = &w.s.msgs[m].fields[ops.field];
    let MKind::List { prefix, item, .. } = f.kind else { unreachable!() };
    let name = format!("{}.{}", MSGS[m].name, f.name);
    let mut v = gen_msg(ctx, w, m, Size { level: 1, long: false });
    {
        // More items than usual, so that there is something in front of and behind the damage.
        let n = ctx.range(1, 6);
        let items: Vec<Val> = (0..n).map(|_| gen_msg(ctx, w, item, Size { level: 2, long: false })).collect();
        let Val::Msg(f) = &mut v else { unreachable!() };
        f[ops.field] = Val::list(items);
    }
    let mut data = encode(&w.s, m, &v).expect("valid value");
    let start = decode(&w.s, m, &data).map_err(|_| ()).expect("own bytes").off.fields[ops.field].0;
    // Damage from the count on.
    for _ in 0..ctx.below(4) {
        let mut tail = data.split_off(start.min(data.len()));
        let what = if ctx.below(4) == 0 && tail.len() >= prefix {
            let n = ctx.range(0, 12) as u64;
            let b = match f.endian {
                Endian::Little => n.to_le_bytes()[..prefix].to_vec(),
                Endian::Big => n.to_be_bytes()[8 - prefix..].to_vec(),
            };
            tail[..prefix].copy_from_slice(&b);
            "fault.count_changed"
        } else {
            damage(ctx, &mut tail, &[0, prefix])
        };
        ctx.count(what);
        data.extend(tail);
    }
    let want = decode(&w.s, m, &data);
    let list = match &want {
        Ok(d) => match &d.val {
            Val::Msg(v) => match &v[ops.field] {
                Val::List(l) => Some(l.clone()),
                _ => unreachable!(),
            },
            _ => unreachable!(),
        },
        Err(_) => None,
    };
    ev!(ctx, "list", "{name}: {} bytes, {}", data.len(), match &list { Some(l) => format!("{} declared, {} intact, {:?}", l.declared, l.items.len(), l.err), None => "refused".into() });
    // Offsets of the items relative to their own first byte.
    let mut offs = Vec::new();
    if let (Some(l), Ok(d)) = (&list, &want) {
        let mut at = d.off.fields[ops.field].0 + prefix;
        for _ in &l.items {
            let d = decode(&w.s, item, &data[at..]).map_err(|_| ()).expect("intact item");
            at += d.size;
            offs.push(d.off);
        }
        if l.err.is_some() {
            ctx.count("probe.damaged_list");
        }
        ctx.nontrivial = true;
    }
    // What consumers do, drawn ahead of the iteration.
    let consumers = ctx.range(1, 4);
    let mut plan: Vec<(bool, usize)> = Vec::new();
    for _ in 0..consumers {
        plan.push((ctx.below(2) == 0, if ctx.below(3) == 0 { ctx.below(4) } else { usize::MAX }));
    }
    let order: Vec<usize> = (0..64).map(|_| ctx.below(consumers)).collect();
    // Those that hand the iterator to something else.
    let hand: Vec<(bool, usize, Take)> = (0..ctx.range(1, 3))
        .map(|_| {
            let first = if ctx.below(2) == 1 { ctx.below(4) } else { 0 };
            let how = match ctx.below(4) {
                0 => Take::Count,
                1 => Take::Last,
                2 => Take::Nth(ctx.below(5)),
                _ => Take::All,
            };
            (ctx.below(2) == 0, first, how)
        })
        .collect();
    let mut result: Run = Ok(());
    let res = (ops.view.expect("list of messages"))(&data, &mut |view| {
        result = consume(&name, view, list.as_ref(), &offs, &plan, &order, data.len()).and_then(|()| handed(&name, view, list.as_ref(), &offs, &hand));
    });
    match (&res, &want) {
        (Ok(()), Ok(_)) => {}
        (Err(e), Err(d)) => ensure!(&e.derr() == d, "decode-error", "{name}: {e:?}, expected {d:?}"),
        _ => violation!("decode-error", "{name} from {}: got {res:?}, expected {:?}", hex(&data), want.as_ref().err()),
    }
    result
}

fn handed(name: &str, view: &dyn ListView, list: Option<&ListVal>, offs: &[Off], plan: &[(bool, usize, Take)]) -> Run {
    let Some(list) = list else { return Ok(()) };
    for (offsets, first, how) in plan {
        // Errors compare by what the model knows of them.
        let mut entries: Vec<Result<(Val, Option<Off>), DErr>> = list.items.iter().zip(offs).map(|(v, o)| Ok((v.clone(), offsets.then(|| o.clone())))).collect();
        entries.extend(list.err.iter().map(|e| Err(e.clone())));
        let got = view.adapt(*offsets, *first, *how);
        let plain = |l: Vec<Res<(Val, Option<Off>)>>| l.into_iter().map(|r| r.map_err(|e| e.derr())).collect::<Vec<_>>();
        let got = Seen2 { first: plain(got.first), hints: got.hints, count: got.count, rest: plain(got.rest) };
        if let Some(d) = got.check(&entries, *first, *how) {
            violation!("iter-adaptor", "{name}{}: {d}", if *offsets { " with offsets" } else { "" });
        }
    }
    Ok(())
}

fn consume(name: &str, view: &dyn ListView, list: Option<&ListVal>, offs: &[Off], plan: &[(bool, usize)], order: &[usize], input: usize) -> Run {
    let Some(list) = list else { return Ok(()) };
    ensure!(view.len() as u64 == list.declared, "count", "{name}: len() is {}, the prefix says {}", view.len(), list.declared);
    let mut its: Vec<Box<dyn Iterator<Item = Res<(Val, Option<Off>)>> + '_>> = plan.iter().map(|(o, _)| if *o { view.iter_offsets() } else { view.iter() }).collect();
    let mut pos = vec![0usize; plan.len()];
    let mut ended = vec![0usize; plan.len()];
    let mut step = 0;
    loop {
        // Interleave, then run every consumer to its end.
        let who = if step < order.len() { order[step] } else { (step - order.len()) % plan.len() };
        step += 1;
        if (0..plan.len()).all(|k| ended[k] >= 3 || pos[k] >= plan[k].1) || step > 400 + 4 * plan.len() * (input + 8) {
            break;
        }
        if pos[who] >= plan[who].1 || ended[who] >= 3 {
            continue;
        }
        let n = pos[who];
        let got = its[who].next();
        match got {
            Some(Ok((v, o))) => {
                ensure!((n as u64) < list.declared, "iter-more-than-declared", "{name}: entry {n} of a list of {}", list.declared);
                let Some(want) = list.items.get(n) else {
                    violation!("iter-damaged-item", "{name}: entry {n} is {}, the list is intact up to {} ({:?})", short(&v), list.items.len(), list.err)
                };
                ensure!(ended[who] == 0, "iter-after-end", "{name}: entry after the end");
                ensure!(&v == want, "iter-item", "{name}: entry {n}: {}", diff(&v, want));
                if let Some(o) = o {
                    ensure!(o == offs[n], "iter-offsets", "{name}: offsets of entry {n} are {o:?}, expected {:?}", offs[n]);
                }
                pos[who] += 1;
            }
            Some(Err(e)) => {
                ensure!(n == list.items.len() && ended[who] == 0, "iter-error-repeated", "{name}: error {e:?} at entry {n} (state {}), {} items are intact", ended[who], list.items.len());
                ensure!(Some(e.derr()) == list.err, "iter-error", "{name}: error {e:?}, expected {:?}", list.err);
                pos[who] += 1;
                // From here on only the end may follow.
                ended[who] = 1;
            }
            None => {
                if ended[who] == 0 {
                    ensure!(n == list.items.len() && list.err.is_none(), "iter-short", "{name}: iteration ended after {n} entries, {} are intact, error {:?}", list.items.len(), list.err);
                    ended[who] = 1;
                }
                ended[who] += 1;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn check_off(m: usize, o: &Off, size: usize, what: &str) -> Run {
    let w = world();
    let mut at = 0;
    for (k, (a, b)) in o.fields.iter().enumerate() {
        let f = &w.s.msgs[m].fields[k];
        ensure!(*a == at && b >= a, "offsets-gap", "{what}: field {} at {a}..{b}, the field before it ends at {at}", f.name);
        at = *b;
        if let (MKind::Msg(t), Some(n)) = (&f.kind, &o.nested[k]) {
            check_off(*t, n, b - a - f.optional as usize, &format!("{what}.{}", f.name))?;
        }
    }
    ensure!(at == size, "offsets-end", "{what}: fields end at {at}, the size is {size}");
    Ok(())
}

/// C10: offsets, and patches of stored messages at their offsets, torn or whole.
pub fn c10(ctx: &mut Ctx) -> Run {
    let w = world();
    let m = ctx.below(world().general);
    let name = MSGS[m].name;
    let v = gen_msg(ctx, w, m, Size::any());
    let mut data = encode(&w.s, m, &v).expect("valid value");
    let patches = ctx.below(5);
    for _ in 0..patches {
        ctx.now += 1;
        let mut walk = Walk::new(data.len());
        let (before, size, off) = match (MSGS[m].decode_off)(&data, &mut walk) {
            Ok(v) => v,
            Err(e) => violation!("decode-refused", "{name}: valid message refused with {e:?}: {}", hex(&data)),
        };
        let want = decode(&w.s, m, &data).map_err(|_| ()).expect("valid message");
        ensure!(before == want.val, "offsets-value", "{name}: {}", diff(&before, &want.val));
        check_off(m, &off, size, name)?;
        ensure!(off == want.off, "offsets-map", "{name}: offsets {off:?}, expected {:?}", want.off);
        // Choose a field, down through nested messages.
        let mut cur = m;
        let mut o = &off;
        let mut base = 0;
        let mut path: Vec<usize> = Vec::new();
        let mut vals = match &want.val {
            Val::Msg(v) => v,
            _ => unreachable!(),
        };
        let (a, b, k) = loop {
            let k = ctx.below(o.fields.len());
            let f = &w.s.msgs[cur].fields[k];
            let (a, b) = o.fields[k];
            path.push(k);
            if let (MKind::Msg(t), Some(n)) = (&f.kind, &o.nested[k]) {
                base += a + f.optional as usize;
                cur = *t;
                o = n;
                vals = match &vals[k] {
                    Val::Msg(v) => v,
                    Val::Opt(Some(v)) => match &**v {
                        Val::Msg(v) => v,
                        _ => unreachable!(),
                    },
                    _ => unreachable!(),
                };
                continue;
            }
            break (base + a, base + b, k);
        };
        let f = &w.s.msgs[cur].fields[k];
        let val = match &vals[k] {
            Val::Opt(None) => continue,
            Val::Opt(Some(v)) => &**v,
            v => v,
        };
        let (mut a, mut b) = (a + f.optional as usize * !matches!(f.kind, MKind::Union { .. }) as usize, b);
        let mut text = false;
        match (&f.kind, val) {
            (MKind::Fixed { .. } | MKind::Struct(_) | MKind::Payload, _) => {}
            (MKind::Nul, Val::Str(s)) if s.is_ascii() => {
                b -= 1;
                text = true;
            }
            (MKind::Var { prefix }, Val::Str(s)) if s.is_ascii() => {
                a += prefix;
                text = true;
            }
            (MKind::Array { prefix, .. }, _) => a += prefix,
            (MKind::Union { .. }, Val::Union(_, Some(p))) if matches!(**p, Val::Struct(_)) => {}
            _ => continue,
        }
        if a == b {
            continue;
        }
        let mut new = if text { (0..b - a).map(|_| b'A' + ctx.below(26) as u8).collect() } else { ctx.bytes(b - a) };
        // Discriminants keep their value: what follows them depends on it.
        for g in &w.s.msgs[cur].fields {
            if let MKind::Union { union, on } = g.kind {
                if on == k {
                    let (doff, bits, endian) = w.s.disc_loc(union);
                    let d = get_bits(&data[a..b], doff, bits, endian);
                    set_bits(&mut new, doff, bits, endian, d);
                }
            }
        }
        // Torn: only some of the bytes reach the disk. A discriminant keeps its value under any mix.
        let torn = ctx.below(2) == 0;
        let old = data.clone();
        if torn {
            ctx.count("fault.torn_patch");
            if ctx.below(2) == 0 {
                let n = ctx.below(new.len() + 1);
                data[a..a + n].copy_from_slice(&new[..n]);
            } else {
                for (k, v) in new.iter().enumerate() {
                    if ctx.below(2) == 0 {
                        data[a + k] = *v;
                    }
                }
            }
        } else {
            data[a..b].copy_from_slice(&new);
        }
        ctx.nontrivial = true;
        ev!(ctx, "patch", "{name} {path:?} ({}) at {a}..{b}{}", f.name, if torn { ", torn" } else { "" });
        let mut walk = Walk::new(data.len());
        let (after, size2, off2) = match (MSGS[m].decode_off)(&data, &mut walk) {
            Ok(v) => v,
            Err(e) => violation!("patch-broke-message", "{name}: after overwriting {} ({} -> {}) decoding gives {e:?}", f.name, hex(&old[a..b]), hex(&data[a..b])),
        };
        ensure!(size2 == size && off2 == off, "patch-moved", "{name}: overwriting {} in place moved other fields", f.name);
        let mut x = before.clone();
        let mut y = after.clone();
        mute(&mut x, &path);
        mute(&mut y, &path);
        ensure!(x == y, "patch-changed-other", "{name}: overwriting {} changed something else: {}", f.name, diff(&y, &x));
        let want = decode(&w.s, m, &data).map_err(|_| ()).expect("patched message");
        ensure!(after == want.val, "patch-value", "{name}: {} not changed as written: {}", f.name, diff(&after, &want.val));
    }
    // Damaged messages: with and without offsets the same outcome.
    for _ in 0..ctx.range(1, 3) {
        let mut ms = Vec::new();
        if let Ok(d) = decode(&w.s, m, &data) {
            marks(&d.off, 0, &mut ms);
        }
        let what = damage(ctx, &mut data, &ms);
        ctx.count(what);
        ctx.nontrivial = true;
        let want = decode(&w.s, m, &data);
        ev!(ctx, "damage", "{name}: {} bytes, {}", data.len(), if want.is_ok() { "still decodes" } else { "refused" });
        if let (Ok((v, n)), Ok(d)) = (decode_both(m, &data)?, &want) {
            let mut walk = Walk::new(data.len());
            let Ok((_, size, off)) = (MSGS[m].decode_off)(&data, &mut walk) else { violation!("offsets-differ", "{name}") };
            check_off(m, &off, size, name)?;
            ensure!(v == d.val && n == d.size && off == d.off, "offsets-map", "{name} from {}: offsets {off:?}, expected {:?}", hex(&data), d.off);
        }
    }
    Ok(())
}

/// Blank out one field.
fn mute(v: &mut Val, path: &[usize]) {
    let Val::Msg(f) = v else { unreachable!() };
    let x = &mut f[path[0]];
    if path.len() == 1 {
        *x = Val::Opt(None);
        return;
    }
    match x {
        Val::Opt(Some(v)) => mute(v, &path[1..]),
        v => mute(v, &path[1..]),
    }
}

/// A relay in this implementation: one hop of some bytes through decoder and encoder, over a sink that takes what it wants.
fn hop(ctx: &mut Ctx, m: usize, data: &[u8], want: &Dec) -> Run<Option<Vec<u8>>> {
    let w = world();
    let name = MSGS[m].name;
    let plan = Plan::draw(ctx, want.size, false);
    let may_fail = plan.fail_at.is_some();
    let mut sink = Sink::new(ctx, plan);
    let res = at_edge(data, |d| (MSGS[m].relay)(d, &mut sink));
    let (got, failed) = (std::mem::take(&mut sink.got), sink.failed.take());
    match (&res, &failed) {
        (Ok(n), None) => ensure!(*n == want.size, "relay-size", "{name} from {}: decoded {n} bytes, expected {}", hex(data), want.size),
        (Err(_), Some(f)) => {
            // The next hop gets nothing, what the sink took is the beginning of the message.
            ev!(ctx, "lost", "{name}: link down ({f:?}) after {} bytes", got.len());
            let mut whole = Vec::new();
            if let Err(e) = (MSGS[m].relay)(data, &mut whole) {
                violation!("relay-refused", "{name}: accepted {} and cannot write it: {e:?}", hex(data));
            }
            ensure!(whole.starts_with(&got), "relay-torn", "{name}: {} before the failure, {} without one", hex(&got), hex(&whole));
            return Ok(None);
        }
        (Ok(_), Some(f)) => violation!("relay-error-lost", "{name}: the sink failed with {f:?} and the relay reports success"),
        (Err(e), None) => violation!("relay-refused", "{name}: accepted {} and cannot write it{}: {e:?}", hex(data), if may_fail { " (the sink did not fail)" } else { "" }),
    }
    ensure!(got.len() == want.size, "relay-length", "{name}: accepted {} of {} and passed on {}", want.size, hex(data), hex(&got));
    // What was in the form encoders give it goes on byte for byte.
    if !want.val.has_err() {
        if let Ok(canon) = encode(&w.s, m, &want.val) {
            if canon == data[..want.size] {
                ensure!(got == canon, "relay-changed", "{name}: {} became {}", hex(&canon), hex(&got));
                ctx.count("probe.passed_unchanged");
            } else {
                ctx.count("probe.passed_other_form");
            }
        }
    } else {
        ctx.count("probe.passed_damaged_list");
    }
    match decode(&w.s, m, &got) {
        Ok(d) => {
            ensure!(d.val == want.val, "relay-value", "{name}: {} became {}: {}", hex(data), hex(&got), diff(&d.val, &want.val));
            ensure!(d.size == got.len(), "relay-length", "{name}: {} became {}, of which {} are used", hex(data), hex(&got), d.size);
        }
        Err(e) => violation!("relay-value", "{name}: {} became {}, refused with {e:?}", hex(data), hex(&got)),
    }
    Ok(Some(got))
}

/// C14: chains of relays with damage between them: what a node accepts it can pass on.
pub fn c14(ctx: &mut Ctx) -> Run {
    let w = world();
    struct Hop {
        m: usize,
        data: Vec<u8>,
        left: usize,
        /// Went through a relay and was not touched since.
        relayed: bool,
    }
    let mut link: Link<Hop> = Link::new();
    for _ in 0..ctx.range(1, 4) {
        let m = ctx.below(w.general);
        let data = hostile(ctx, m);
        let left = ctx.range(1, 4);
        let delay = ctx.draw(10);
        ev!(ctx, "send", "{}: {}", MSGS[m].name, hex(&data));
        link.send(ctx, delay, Hop { m, data, left, relayed: false });
    }
    while let Some(mut h) = link.next(ctx) {
        let name = MSGS[h.m].name;
        let want = check_decode(ctx, h.m, &h.data)?;
        let Ok(want) = want else {
            ensure!(!h.relayed, "relay-value", "{name}: {} came from a relay and is refused", hex(&h.data));
            let mut out = Vec::new();
            match (MSGS[h.m].relay)(&h.data, &mut out) {
                Err(EncErr::Build(_)) => ensure!(out.is_empty(), "relay-partial", "{name}: bytes written of a refused message"),
                r => violation!("relay-accepted", "{name}: {} is not a message, relay says {r:?}", hex(&h.data)),
            }
            ctx.count("probe.dropped");
            continue;
        };
        match (MSGS[h.m].measure)(&h.data) {
            Ok(n) => ensure!(n == want.size, "relay-measure", "{name}: decoded from {} bytes, measures {n}", want.size),
            Err(e) => violation!("relay-measure", "{name}: accepted {} and cannot measure it: {e:?}", hex(&h.data)),
        }
        if h.left == 0 {
            continue;
        }
        h.left -= 1;
        let Some(out) = hop(ctx, h.m, &h.data, &want)? else { continue };
        ctx.nontrivial = true;
        ensure!(!h.relayed || out == h.data, "relay-unstable", "{name}: a second relay turned {} into {}", hex(&h.data), hex(&out));
        ev!(ctx, "relay", "{name}: {} bytes of {}", out.len(), h.data.len());
        h.data = out;
        h.relayed = true;
        if ctx.below(3) == 0 {
            // Damage, or something else behind it, on the way.
            let mut ms = Vec::new();
            marks(&want.off, 0, &mut ms);
            let what = damage(ctx, &mut h.data, &ms);
            ctx.count(what);
            h.relayed = false;
        } else if ctx.below(4) == 0 {
            let n = ctx.range(1, 12);
            let more = ctx.bytes(n);
            h.data.extend(more);
            ctx.count("fault.garbage_appended");
            h.relayed = false;
        }
        let delay = ctx.draw(10);
        link.send(ctx, delay, h);
    }
    Ok(())
}

/// Known findings, probed one by one: (key, what fails) for those that still fail.
pub fn findings(id: &str) -> Vec<(String, String)> {
    let w = world();
    let mut out = Vec::new();
    if id == "C11" {
        return crate::reg::findings();
    }
    if id != "C06" {
        return out;
    }
    for m in (w.general..MSGS.len()).filter(|m| w.s.proto_name(w.s.msgs[*m].proto) == simcore::schemas::LIMITS) {
        let name = MSGS[m].name;
        for n in 0..8u64 {
            let mut ctx = Ctx::random(0xF1 + n, false);
            let v = gen_msg(&mut ctx, w, m, Size::small());
            let mut wire = Vec::new();
            let what = match (MSGS[m].encode)(&v, &mut wire) {
                Err(_) => continue,
                Ok(()) => match (MSGS[m].decode)(&wire, &mut Walk::new(wire.len())) {
                    Ok((d, _)) if d == v => continue,
                    Ok((d, _)) => format!("decodes to something else: {}", diff(&d, &v)),
                    Err(e) => format!("is refused by its own decoder: {e:?}"),
                },
            };
            out.push((format!("limits.{name}"), format!("message {name} encoded as {} {what}", hex(&wire))));
            break;
        }
    }
    out
}

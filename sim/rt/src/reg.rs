//! C11 and C12: enumerated fields and packed registers over shared, damaged and reloaded memory.

use crate::enc::gen_item;
use crate::regs::*;
use crate::world::*;
use rtsim::api::*;
use rtsim::glue::{MSGS, STRUCTS};
use simcore::ctx::{Ctx, Run};
use simcore::refcodec::*;
use simcore::schema::*;
use simcore::{ensure, ev, violation};

/// C11: a node writes enumerated fields, storage damages them, another node reads them.
pub fn c11(ctx: &mut Ctx) -> Run {
    let w = world();
    let (k, path, e) = ctx.pick(&w.enums).clone();
    let reg = locs(k).iter().find(|r| r.path == path).unwrap();
    let others: Vec<&Loc> = locs(k).iter().filter(|r| r.path != path && w.enums.iter().any(|x| x.0 == k && x.1 == r.path)).collect();
    let variants = variants(e, reg.f.bits);
    let name = format!("{}.{}", STRUCTS[k].name, reg.f.name);
    let size = w.s.structs[k].bytes;
    let mut mem = gen_struct(ctx, w, k);
    // A long-lived owner next to readers of the stored bytes.
    let mut reg_owner = (STRUCTS[k].reg)(SimBuf::plain(mem.clone()));
    let read = |mem: &[u8], how: &str, got: Got| -> Run {
        let raw = reg.get(mem);
        let want = variants.iter().copied().find(|v| *v == raw);
        ensure!(got == Got::View(Seen::E(want)), "variant", "{name} ({how}): raw value {raw} reads as {got:?}, declared is {want:?}");
        Ok(())
    };
    // Sweep all raw values of small fields, in a drawn rotation.
    let all = mask(reg.f.bits);
    let sweep = reg.f.bits <= 8 && ctx.below(4) == 0;
    let steps = if sweep { all as usize + 1 } else { ctx.range(2, 12) };
    let first = ctx.draw64() & all;
    for step in 0..steps {
        ctx.now += 1;
        let what = if sweep { 1 } else { ctx.weighted(&[3, 3, 3, 1]) };
        match what {
            0 => {
                let v = *ctx.pick(&variants);
                let before = mem.clone();
                ev!(ctx, "write", "{name} = variant {v}");
                (STRUCTS[k].with)(&mut mem).write(&path, &WOp::View(Seen::E(Some(v))));
                ensure!(reg.get(&mem) == v, "write-variant", "{name}: variant {v} is stored as {}", reg.get(&mem));
                let mut want = before;
                reg.set(&mut want, v);
                ensure!(mem == want, "write-variant", "{name}: storing variant {v} turned other bits: {} instead of {}", hex(&mem), hex(&want));
                reg_owner.write(&path, &WOp::View(Seen::E(Some(v))));
                read(&mem, "owner", reg_owner.read(&path, &ROp::View))?;
            }
            1 => {
                let raw = if sweep { (first + step as u64) & all } else if ctx.below(3) == 0 { (*ctx.pick(&variants) + 1) & all } else { gen_raw(ctx, reg.f.bits) };
                if ctx.below(2) == 0 {
                    (STRUCTS[k].with)(&mut mem).write(&path, &WOp::Raw(raw));
                } else {
                    reg.set(&mut mem, raw);
                }
                reg_owner.write(&path, &WOp::Raw(raw));
                ev!(ctx, "raw", "{name} raw {raw}");
                ctx.count(if variants.contains(&raw) { "probe.declared" } else { "probe.undeclared" });
                read(&mem, "owner", reg_owner.read(&path, &ROp::View))?;
            }
            2 => {
                let bit = ctx.below(size * 8);
                mem[bit / 8] ^= 1 << (bit % 8);
                ctx.count("fault.bit_flipped");
                ev!(ctx, "flip", "bit {bit}");
                reg_owner = (STRUCTS[k].reg)(SimBuf::plain(mem.clone()));
            }
            _ => {
                mem = gen_struct(ctx, w, k);
                ctx.count("fault.torn_write");
                reg_owner = (STRUCTS[k].reg)(SimBuf::plain(mem.clone()));
            }
        }
        ctx.nontrivial = true;
        read(&mem, "stored bytes", (STRUCTS[k].read)(&mem, &path, &ROp::View))?;
        ensure!((STRUCTS[k].read)(&mem, &path, &ROp::Raw) == Got::Raw(reg.get(&mem)), "raw", "{name}: raw value {} reads differently", reg.get(&mem));
        for o in &others {
            let got = (STRUCTS[k].read)(&mem, &o.path, &ROp::View);
            if let Some(d) = o.check(&mem, &ROp::View, &got) {
                violation!("variant", "{}.{}: {d}", STRUCTS[k].name, o.f.name);
            }
        }
    }
    Ok(())
}

/// C12: several owners update registers of neighbouring structures in one memory.
pub fn c12(ctx: &mut Ctx) -> Run {
    match ctx.weighted(&[14, 5, 1]) {
        0 => {}
        1 => return items(ctx),
        _ => return crate::codec::run(ctx),
    }
    let w = world();
    // Structures one after the other, something else in front and behind.
    let n = ctx.range(1, 4);
    let mut places: Vec<(usize, usize)> = Vec::new();
    let mut at = ctx.below(4);
    for _ in 0..n {
        let k = draw_struct(ctx);
        places.push((k, at));
        at += w.s.structs[k].bytes + if ctx.below(3) == 0 { ctx.below(3) } else { 0 };
    }
    let total = at + ctx.below(4);
    let mut mem = match ctx.below(3) {
        0 => vec![0; total],
        1 => vec![0xFF; total],
        _ => ctx.bytes(total),
    };
    let mut model = mem.clone();
    let mut saved = (mem.clone(), model.clone());
    // Owners that keep their structure in a buffer of their own.
    let own_k = draw_struct(ctx);
    let own_init = gen_struct(ctx, w, own_k);
    let mut own_model = own_init.clone();
    let mut own = (STRUCTS[own_k].reg)(SimBuf::plain(own_init));
    let mut kept: Vec<(usize, &Loc)> = Vec::new();
    for _ in 0..ctx.range(2, 24) {
        ctx.now += 1;
        match ctx.weighted(&[10, 2, 1, 1]) {
            0 => {
                // Interleave: sometimes go back to a register used before.
                let (p, r) = if !kept.is_empty() && ctx.below(3) == 0 {
                    *ctx.pick(&kept)
                } else {
                    let p = ctx.below(places.len());
                    let r = &locs(places[p].0)[ctx.below(locs(places[p].0).len())];
                    kept.push((p, r));
                    (p, r)
                };
                let (k, at) = places[p];
                let end = if ctx.below(2) == 0 { at + w.s.structs[k].bytes } else { total };
                let name = format!("{}.{}", STRUCTS[k].name, r.f.name);
                if ctx.below(3) == 0 {
                    let op = r.draw_read(ctx);
                    let got = (STRUCTS[k].with)(&mut mem[at..end]).read(&r.path, &op);
                    if let Some(d) = r.check(&model[at..end], &op, &got) {
                        violation!("read", "{name} {op:?} over {}: {d}", hex(&model[at..end]));
                    }
                    ensure!(mem == model, "read-changed", "reading {name} changed memory");
                } else {
                    let op = draw_write(ctx, r);
                    ev!(ctx, "write", "owner {p} {name} {op:?}");
                    let ok = (STRUCTS[k].with)(&mut mem[at..end]).write(&r.path, &op);
                    ensure!(ok, "harness", "{name} {op:?} not supported");
                    apply(r, &op, &mut model[at..end], &mem[at..end], &name)?;
                    compare(&mem, &model, &name, &op)?;
                    ctx.nontrivial = true;
                }
            }
            1 => {
                let r = &locs(own_k)[ctx.below(locs(own_k).len())];
                let name = format!("{}.{}", STRUCTS[own_k].name, r.f.name);
                let op = draw_write(ctx, r);
                let probe = if matches!(op, WOp::View(_)) && view_scale(&r.f).is_some() {
                    own.write(&r.path, &op);
                    // Scaled: take over what was stored, after checking it.
                    let Got::Raw(raw) = own.read(&r.path, &ROp::Raw) else { violation!("read", "{name}") };
                    let WOp::View(v) = &op else { unreachable!() };
                    if let Some(d) = r.check_stored(v, raw) {
                        violation!("write", "{name}: {d}");
                    }
                    r.set(&mut own_model, raw);
                    true
                } else {
                    false
                };
                if !probe {
                    own.write(&r.path, &op);
                    let m = own_model.clone();
                    apply(r, &op, &mut own_model, &m, &name)?;
                }
                ev!(ctx, "own", "{name} {op:?}");
                // Every register of the structure, the one just written included.
                for r in locs(own_k) {
                    let ops: &[ROp] = if r.array().is_some() { &[ROp::Iter] } else { &[ROp::Raw, ROp::View] };
                    for o in ops {
                        let got = own.read(&r.path, o);
                        if let Some(d) = r.check(&own_model, o, &got) {
                            violation!("read", "after {name} {op:?}: {}.{} {o:?}: {d}", STRUCTS[own_k].name, r.f.name);
                        }
                    }
                }
                ctx.nontrivial = true;
            }
            2 => {
                saved = (mem.clone(), model.clone());
                ev!(ctx, "snapshot", "{} bytes", mem.len());
            }
            _ => {
                // Crash: some prefix of the current memory made it over the snapshot.
                let n = ctx.below(total + 1);
                let mut m = mem[..n].to_vec();
                m.extend_from_slice(&saved.0[n..]);
                let mut r = model[..n].to_vec();
                r.extend_from_slice(&saved.1[n..]);
                mem = m;
                model = r;
                ctx.count("fault.crash_torn_snapshot");
                ev!(ctx, "crash", "reloaded, torn at {n}");
            }
        }
        for (k, at) in &places {
            let regs = locs(*k);
            let r = &regs[ctx.below(regs.len())];
            let op = r.draw_read(ctx);
            let b = &mem[*at..];
            let got = (STRUCTS[*k].read)(b, &r.path, &op);
            if let Some(d) = r.check(&model[*at..], &op, &got) {
                violation!("read", "{}.{} {op:?} over {}: {d}", STRUCTS[*k].name, r.f.name, hex(b));
            }
        }
    }
    Ok(())
}

fn draw_write(ctx: &mut Ctx, r: &Loc) -> WOp {
    match r.array() {
        Some((_, len, bits)) => match ctx.weighted(&[4, 2, if r.bytes() { 2 } else { 0 }]) {
            0 => WOp::Item(ctx.below(len), gen_raw(ctx, bits)),
            1 => {
                let n = ctx.range(1, 4);
                WOp::Items((0..n).map(|_| (ctx.below(len), gen_raw(ctx, bits))).collect())
            }
            _ => WOp::Bytes(ctx.bytes(len)),
        },
        None => match ctx.below(2) {
            // Wider than the field as well.
            0 => {
                let v = if ctx.below(2) == 0 { gen_raw(ctx, r.f.bits) } else { ctx.draw64() };
                WOp::Raw(v)
            }
            _ => WOp::View(r.draw_view(ctx)),
        },
    }
}

/// What an update does to the model. `after` is the memory the library left (used for scaled views only).
fn apply(r: &Loc, op: &WOp, model: &mut [u8], after: &[u8], name: &str) -> Run {
    match op {
        WOp::Raw(v) => r.set(model, v & mask(r.f.bits)),
        WOp::View(v) => {
            if view_scale(&r.f).is_some() {
                let raw = r.get(after);
                if let Some(d) = r.check_stored(v, raw) {
                    violation!("write", "{name}: {d}");
                }
                r.set(model, raw);
            } else {
                let raw = match *v {
                    Seen::U(v) => v,
                    Seen::I(v) => v as u64,
                    Seen::F32(v) => v as u64,
                    Seen::F64(v) => v,
                    Seen::B(b) => b as u64,
                    Seen::E(v) => v.unwrap(),
                };
                r.set(model, raw & mask(r.f.bits));
            }
        }
        WOp::Item(i, v) => r.set_item(model, *i, *v),
        WOp::Items(l) => {
            for (i, v) in l {
                r.set_item(model, *i, *v);
            }
        }
        WOp::Bytes(b) => model[r.off / 8..r.off / 8 + b.len()].copy_from_slice(b),
    }
    Ok(())
}

fn compare(mem: &[u8], model: &[u8], name: &str, op: &WOp) -> Run {
    if let Some(k) = (0..mem.len()).find(|k| mem[*k] != model[*k]) {
        violation!("update", "{name} {op:?}: byte {k} is {:02x}, expected {:02x} ({} / {})", mem[k], model[k], hex(mem), hex(model));
    }
    Ok(())
}

/// Structures as items of a list under construction.
fn items(ctx: &mut Ctx) -> Run {
    let w = world();
    let (m, k) = *ctx.pick(&w.arrays);
    let ops = &MSGS[m].lists[k];
    let MKind::Array { item, .. } = w.s.msgs[m].fields[ops.field].kind else { unreachable!() };
    let size = w.s.structs[item].bytes;
    let regs = locs(item);
    let name = format!("{}.{}", MSGS[m].name, w.s.msgs[m].fields[ops.field].name);
    // Now and then enough items for indices of more than one byte.
    let many = ctx.below(12) == 7;
    let n = if many { ctx.range(250, 700) } else { ctx.below(6) };
    let mut model: Vec<Vec<u8>> = if many {
        let a = gen_struct(ctx, w, item);
        ctx.count("probe.many_items");
        (0..n).map(|k| if k % 97 == 5 { gen_struct(ctx, w, item) } else { a.clone() }).collect()
    } else {
        (0..n).map(|_| gen_struct(ctx, w, item)).collect()
    };
    let flat = model.concat();
    let mut b = match (ops.from_parts)(SimBuf::plain(flat.clone()), n) {
        Some(b) => b,
        None => violation!("from-parts", "{name}: {} bytes refused as {n} items of {size}", flat.len()),
    };
    for (len, count) in [(flat.len().saturating_sub(1), n), (flat.len(), n + 1)] {
        // Not enough bytes for so many items.
        if len < count * size && (ops.from_parts)(SimBuf::plain(flat[..len].to_vec()), count).is_some() {
            violation!("from-parts", "{name}: {len} bytes accepted as {count} items of {size}");
        }
    }
    for _ in 0..ctx.range(1, 12) {
        ctx.now += 1;
        match ctx.weighted(&[5, 3, 2]) {
            0 if !model.is_empty() => {
                let i = ctx.below(model.len());
                let r = &regs[ctx.below(regs.len())];
                let op = draw_write(ctx, r);
                ev!(ctx, "item", "{name}[{i}].{} {op:?}", r.f.name);
                b.item_write(i, &r.path, &op);
                take(&*b, r, i, &op, &mut model, &name)?;
                ctx.nontrivial = true;
            }
            1 if !model.is_empty() => {
                let r = &regs[ctx.below(regs.len())];
                let from = if ctx.below(3) == 1 { ctx.below(model.len()) } else { 0 };
                let n = ctx.range(1, (model.len() - from).min(8));
                let l: Vec<WOp> = (0..n).map(|_| draw_write(ctx, r)).collect();
                ev!(ctx, "items", "{name}[{from}..][..{n}].{} {l:?}", r.f.name);
                let count = b.items_mut();
                ensure!(count == model.len(), "iter-mut", "{name}: mutable iteration has {count} of {} items", model.len());
                let done = b.items_write(from, &r.path, &l);
                ensure!(done == n, "iter-mut", "{name}: mutable iteration reached {done} of {n} items");
                for (i, op) in l.iter().enumerate() {
                    take(&*b, r, from + i, op, &mut model, &name)?;
                }
                ctx.nontrivial = true;
            }
            _ => {
                let v = gen_item(ctx, m, ops.field);
                if let Err(e) = b.push(&v) {
                    violation!("valid-refused", "{name}: append refused: {e:?}");
                }
                ev!(ctx, "append", "{name}");
                let Val::Struct(s) = v else { unreachable!() };
                model.push(s);
            }
        }
        ensure!(b.len() == model.len(), "count", "{name}: count is {}, expected {}", b.len(), model.len());
        let (l, problems) = b.items();
        let want: Vec<Val> = model.iter().cloned().map(Val::Struct).collect();
        ensure!(l.items == want, "update", "{name}: items are {}, expected {}", short(&l.items), short(&want));
        if let Some((c, d)) = problems.first() {
            violation!(*c, "{d}");
        }
        if !model.is_empty() {
            let i = ctx.below(model.len());
            let r = &regs[ctx.below(regs.len())];
            let op = r.draw_read(ctx);
            let got = b.item_read(i, &r.path, &op);
            if let Some(d) = r.check(&model[i], &op, &got) {
                violation!("read", "{name}[{i}].{} {op:?}: {d}", r.f.name);
            }
        }
    }
    Ok(())
}

fn take(b: &dyn Builder, r: &Loc, i: usize, op: &WOp, model: &mut [Vec<u8>], name: &str) -> Run {
    let after = match op {
        WOp::View(_) if view_scale(&r.f).is_some() => {
            let (l, _) = b.items();
            match l.items.get(i) {
                Some(Val::Struct(s)) => s.clone(),
                _ => violation!("update", "{name}[{i}] is gone"),
            }
        }
        _ => Vec::new(),
    };
    apply(r, op, &mut model[i], &after, name)
}

/// Known findings of C11: variants whose value the field cannot hold.
pub fn findings() -> Vec<(String, String)> {
    let w = world();
    let mut out = Vec::new();
    for (k, path, e) in &w.enums {
        let reg = locs(*k).iter().find(|r| r.path == *path).unwrap();
        for (name, v) in w.s.enums[*e].variants.iter().filter(|v| v.1 > mask(reg.f.bits)) {
            let mut mem = vec![0; w.s.structs[*k].bytes];
            (STRUCTS[*k].with)(&mut mem).write(path, &WOp::View(Seen::E(Some(*v))));
            let got = (STRUCTS[*k].read)(&mem, path, &ROp::View);
            if got != Got::View(Seen::E(Some(*v))) {
                let at = format!("{}.{}", STRUCTS[*k].name, reg.f.name);
                out.push((format!("narrow.{at}"), format!("variant {name} = {v} stored in {at} ({} bits) reads back as {got:?}", reg.f.bits)));
            }
        }
    }
    out
}

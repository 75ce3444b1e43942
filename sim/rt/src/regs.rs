//! Registers inside structures: where they are, what reading and writing them has to do.

use crate::world::*;
use rtsim::api::*;
use rtsim::glue::STRUCTS;
use simcore::ctx::Ctx;
use simcore::refcodec::*;
use simcore::schema::*;
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct Loc {
    pub path: Vec<usize>,
    pub f: RField,
    /// Bit offset from the start of the outermost structure.
    pub off: usize,
}

fn walk(s: &Schema, k: usize, base: usize, path: &mut Vec<usize>, out: &mut Vec<Loc>) {
    for (n, f) in s.structs[k].fields.iter().enumerate() {
        path.push(n);
        match &f.kind {
            RKind::Struct(t) => walk(s, *t, base + f.bit_off, path, out),
            _ => out.push(Loc { path: path.clone(), f: f.clone(), off: base + f.bit_off }),
        }
        path.pop();
    }
}

/// Registers of a structure, nested ones included.
pub fn locs(k: usize) -> &'static [Loc] {
    static L: OnceLock<Vec<Vec<Loc>>> = OnceLock::new();
    &L.get_or_init(|| {
        let s = &world().s;
        (0..s.structs.len())
            .map(|k| {
                let mut v = Vec::new();
                walk(s, k, 0, &mut Vec::new(), &mut v);
                v
            })
            .collect()
    })[k]
}

/// The values of an enumeration which a field of so many bits can hold.
pub fn variants(e: usize, bits: usize) -> Vec<u64> {
    world().s.enums[e].variants.iter().map(|v| v.1).filter(|v| *v <= mask(bits)).collect()
}

/// A structure with at least one register.
pub fn draw_struct(ctx: &mut Ctx) -> usize {
    let n = STRUCTS.len();
    let k = ctx.below(n);
    (k..k + n).map(|k| k % n).find(|k| !locs(*k).is_empty()).expect("a register")
}

/// Raw bits of an array item as its accessor returns them.
fn widen(ty: Ty, bits: usize, v: u64) -> u64 {
    match ty {
        Ty::I(n) => sign_extend(v, bits) as u64 & mask(n),
        _ => v,
    }
}

impl Loc {
    pub fn get(&self, mem: &[u8]) -> u64 {
        get_bits(mem, self.off, self.f.bits, self.f.endian)
    }

    pub fn set(&self, mem: &mut [u8], v: u64) {
        set_bits(mem, self.off, self.f.bits, self.f.endian, v)
    }

    pub fn array(&self) -> Option<(Ty, usize, usize)> {
        match self.f.kind {
            RKind::Array { ty, len, item_bits } => Some((ty, len, item_bits)),
            _ => None,
        }
    }

    pub fn bytes(&self) -> bool {
        matches!(self.array(), Some((Ty::U(8), _, 8)))
    }

    pub fn item(&self, mem: &[u8], i: usize) -> u64 {
        let (_, _, bits) = self.array().unwrap();
        get_bits(mem, self.off + i * bits, bits, self.f.endian)
    }

    pub fn set_item(&self, mem: &mut [u8], i: usize, v: u64) {
        let (_, _, bits) = self.array().unwrap();
        set_bits(mem, self.off + i * bits, bits, self.f.endian, v)
    }

    pub fn draw_read(&self, ctx: &mut Ctx) -> ROp {
        match self.array() {
            Some((_, len, _)) => match ctx.weighted(&[4, 1, 2, if self.bytes() { 2 } else { 0 }]) {
                0 => ROp::Item(ctx.below(len)),
                1 => ROp::Len,
                2 => ROp::Iter,
                _ => ROp::Bytes,
            },
            None => match ctx.below(2) {
                0 => ROp::Raw,
                _ => ROp::View,
            },
        }
    }

    /// None: the reading is right.
    pub fn check(&self, mem: &[u8], op: &ROp, got: &Got) -> Option<String> {
        let want = match (self.array(), op) {
            (Some((ty, _, bits)), ROp::Item(i)) => Got::Raw(widen(ty, bits, self.item(mem, *i))),
            (Some((_, len, _)), ROp::Len) => Got::Len(len),
            (Some((ty, len, bits)), ROp::Iter) => Got::Many((0..len).map(|i| widen(ty, bits, self.item(mem, i))).collect()),
            (Some((_, len, _)), ROp::Bytes) => Got::Bytes(mem[self.off / 8..self.off / 8 + len].to_vec()),
            (None, ROp::Raw) => Got::Raw(self.get(mem)),
            (None, ROp::View) => match view_exact(&world().s, &self.f, self.get(mem)) {
                Some(v) => Got::View(v),
                None => {
                    let (scale, base) = view_scale(&self.f).unwrap();
                    let Got::View(v) = got else { return Some(format!("{got:?}")) };
                    let want = self.get(mem) as f64 * scale + base;
                    return if self.close(want, num(v)) { None } else { Some(format!("got {}, expected about {want}", num(v))) };
                }
            },
            _ => panic!("no such reading"),
        };
        if &want == got {
            None
        } else {
            Some(format!("got {got:?}, expected {want:?}"))
        }
    }

    /// Equal within the resolution of the view.
    pub fn close(&self, a: f64, b: f64) -> bool {
        let (scale, base) = view_scale(&self.f).unwrap();
        let top = base.abs().max((base + scale * mask(self.f.bits) as f64).abs());
        let eps = match &self.f.kind {
            RKind::Fixed { ty: Ty::F32, .. } => top * (2f64).powi(-22),
            _ => top * (2f64).powi(-50),
        };
        (a - b).abs() <= scale.abs() * 1.01 + eps
    }

    /// A value to store through the view.
    pub fn draw_view(&self, ctx: &mut Ctx) -> Seen {
        let RKind::Fixed { ty, view } = &self.f.kind else { panic!("not a scalar") };
        let raw = gen_raw(ctx, self.f.bits);
        match view {
            RView::None => Seen::U(raw),
            RView::Signed => Seen::I(sign_extend(raw, self.f.bits)),
            RView::Bool => Seen::B(raw & 1 != 0),
            RView::Float => match ty {
                Ty::F32 => Seen::F32(no_nan32(raw as u32)),
                _ => Seen::F64(no_nan64(raw)),
            },
            RView::Enum(e) => {
                let v = variants(*e, self.f.bits);
                Seen::E(Some(v[ctx.below(v.len())]))
            }
            RView::Range(..) | RView::Mult(_) => {
                let (scale, base) = view_scale(&self.f).unwrap();
                let mut v = raw as f64 * scale + base;
                // Between two steps, as long as there is a step above.
                if raw < mask(self.f.bits) {
                    v += scale * *ctx.pick(&[0.0, 0.25, 0.5, 0.75, 0.999]);
                }
                match ty {
                    Ty::F32 => Seen::F32((v as f32).to_bits()),
                    _ => Seen::F64(v.to_bits()),
                }
            }
        }
    }

    /// What storing a value through the view has to leave in the field, given what was in fact stored.
    pub fn check_stored(&self, v: &Seen, raw: u64) -> Option<String> {
        if view_scale(&self.f).is_some() {
            let (scale, base) = view_scale(&self.f).unwrap();
            let now = raw as f64 * scale + base;
            return if self.close(num(v), now) { None } else { Some(format!("stored {}, field holds raw {raw} which stands for {now}", num(v))) };
        }
        let want = match *v {
            Seen::U(v) => v & mask(self.f.bits),
            Seen::I(v) => v as u64 & mask(self.f.bits),
            Seen::F32(v) => v as u64,
            Seen::F64(v) => v,
            Seen::B(b) => b as u64,
            Seen::E(v) => v.unwrap(),
        };
        if want == raw {
            None
        } else {
            Some(format!("stored {v:?}, field holds raw {raw:#x} instead of {want:#x}"))
        }
    }
}

fn no_nan32(v: u32) -> u32 {
    if f32::from_bits(v).is_nan() {
        v & 0x803F_FFFF
    } else {
        v
    }
}

fn no_nan64(v: u64) -> u64 {
    if f64::from_bits(v).is_nan() {
        v & 0x8007_FFFF_FFFF_FFFF
    } else {
        v
    }
}

pub fn num(v: &Seen) -> f64 {
    match *v {
        Seen::U(v) => v as f64,
        Seen::I(v) => v as f64,
        Seen::F32(v) => f32::from_bits(v) as f64,
        Seen::F64(v) => f64::from_bits(v),
        Seen::B(v) => v as u8 as f64,
        Seen::E(v) => v.unwrap_or(0) as f64,
    }
}

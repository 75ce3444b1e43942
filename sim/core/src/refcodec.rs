//! Reference codec: a bit-level interpreter of the schema. Total decoder, encoder, offsets, struct registers.
//! Shares no code with /repo.

use crate::schema::*;

/// Raw value of a field, message or list, independent of any generated type.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// Raw bits of an inlined fixed field.
    Fixed(u64),
    Struct(Vec<u8>),
    Msg(Vec<Val>),
    Str(String),
    Opt(Option<Box<Val>>),
    Arr(Vec<Vec<u8>>),
    List(ListVal),
    Union(usize, Option<Box<Val>>),
    Payload(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ListVal {
    /// Count found in (or to be put in) the prefix.
    pub declared: u64,
    pub items: Vec<Val>,
    /// The error that ended the iteration, if one did.
    pub err: Option<DErr>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DErr {
    Truncated,
    Utf8,
    Disc(u64),
    /// Any error carrying an io::Error (kind).
    Io(String),
}

impl Val {
    pub fn list(items: Vec<Val>) -> Val {
        Val::List(ListVal { declared: items.len() as u64, items, err: None })
    }

    /// Rough measure used by generators and reports.
    pub fn weight(&self) -> usize {
        match self {
            Val::Fixed(_) => 1,
            Val::Struct(v) | Val::Payload(v) => v.len(),
            Val::Str(s) => s.len(),
            Val::Msg(v) => v.iter().map(|v| v.weight()).sum(),
            Val::Opt(v) | Val::Union(_, v) => v.as_ref().map(|v| v.weight()).unwrap_or(0),
            Val::Arr(v) => v.iter().map(|v| v.len()).sum(),
            Val::List(l) => l.items.iter().map(|v| v.weight()).sum(),
        }
    }

    /// Contains an error somewhere (a lazily decoded list that was cut).
    pub fn has_err(&self) -> bool {
        match self {
            Val::Msg(v) => v.iter().any(|v| v.has_err()),
            Val::Opt(v) | Val::Union(_, v) => v.as_ref().map(|v| v.has_err()).unwrap_or(false),
            Val::List(l) => l.err.is_some() || l.items.iter().any(|v| v.has_err()),
            _ => false,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Bits

pub fn get_bits(data: &[u8], off: usize, bits: usize, endian: Endian) -> u64 {
    let mut v: u64 = 0;
    for k in 0..bits {
        let p = off + k;
        match endian {
            Endian::Little => {
                let bit = (data[p / 8] >> (p % 8)) & 1;
                v |= (bit as u64) << k;
            }
            Endian::Big => {
                let bit = (data[p / 8] >> (7 - p % 8)) & 1;
                v = v << 1 | bit as u64;
            }
        }
    }
    v
}

pub fn set_bits(data: &mut [u8], off: usize, bits: usize, endian: Endian, v: u64) {
    for k in 0..bits {
        let p = off + k;
        let (sh, bit) = match endian {
            Endian::Little => (p % 8, (v >> k) & 1),
            Endian::Big => (7 - p % 8, (v >> (bits - 1 - k)) & 1),
        };
        data[p / 8] = data[p / 8] & !(1 << sh) | (bit as u8) << sh;
    }
}

fn put_int(out: &mut Vec<u8>, v: u64, bytes: usize, endian: Endian) {
    match endian {
        Endian::Little => out.extend_from_slice(&v.to_le_bytes()[..bytes]),
        Endian::Big => out.extend_from_slice(&v.to_be_bytes()[8 - bytes..]),
    }
}

fn get_int(data: &[u8], bytes: usize, endian: Endian) -> u64 {
    let mut v = 0;
    for k in 0..bytes {
        let b = match endian {
            Endian::Little => data[bytes - 1 - k],
            Endian::Big => data[k],
        };
        v = v << 8 | b as u64;
    }
    v
}

pub fn sign_extend(v: u64, bits: usize) -> i64 {
    if bits >= 64 {
        v as i64
    } else {
        ((v << (64 - bits)) as i64) >> (64 - bits)
    }
}

pub fn mask(bits: usize) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1 << bits) - 1
    }
}

// ---------------------------------------------------------------------------------------------
// Encoder

/// Why a value has no wire form.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EErr {
    /// Union value does not belong to the discriminant stored in the message.
    Disc(u64),
    /// Content does not fit its prefix, or contains its own terminator.
    Content(&'static str),
}

pub struct Enc {
    pub bytes: Vec<u8>,
}

pub fn encode(s: &Schema, m: usize, v: &Val) -> Result<Vec<u8>, EErr> {
    let mut out = Vec::new();
    encode_into(s, m, v, &mut out)?;
    Ok(out)
}

/// Appends the wire form; on error `out` holds everything in front of the field that has no wire form
/// (including a prefix of that field).
pub fn encode_into(s: &Schema, m: usize, v: &Val, out: &mut Vec<u8>) -> Result<(), EErr> {
    let Val::Msg(vals) = v else { panic!("not a message value") };
    for (k, f) in s.msgs[m].fields.iter().enumerate() {
        let v = &vals[k];
        if f.optional && !matches!(f.kind, MKind::Union { .. }) {
            match v {
                Val::Opt(None) => out.push(0),
                Val::Opt(Some(v)) => {
                    out.push(1);
                    encode_field(s, m, vals, f, v, out)?;
                }
                _ => panic!("optional expected"),
            }
        } else {
            encode_field(s, m, vals, f, v, out)?;
        }
    }
    Ok(())
}

fn check_len(len: u64, prefix: usize) -> Result<(), EErr> {
    if prefix < 8 && len > mask(prefix * 8) {
        Err(EErr::Content("length does not fit the prefix"))
    } else {
        Ok(())
    }
}

fn encode_field(s: &Schema, _m: usize, vals: &[Val], f: &RMField, v: &Val, out: &mut Vec<u8>) -> Result<(), EErr> {
    match (&f.kind, v) {
        (MKind::Fixed { ty: Ty::Bool }, Val::Fixed(v)) => out.push((*v != 0) as u8),
        (MKind::Fixed { ty }, Val::Fixed(v)) => put_int(out, *v, ty.bytes(), f.endian),
        (MKind::Struct(k), Val::Struct(b)) => {
            assert_eq!(b.len(), s.structs[*k].bytes);
            out.extend_from_slice(b)
        }
        (MKind::Msg(k), v) => encode_into(s, *k, v, out)?,
        (MKind::Nul, Val::Str(t)) => {
            if t.as_bytes().contains(&0) {
                return Err(EErr::Content("text contains its terminator"));
            }
            out.extend_from_slice(t.as_bytes());
            out.push(0);
        }
        (MKind::Var { prefix }, Val::Str(t)) => {
            check_len(t.len() as u64, *prefix)?;
            put_int(out, t.len() as u64, *prefix, f.endian);
            out.extend_from_slice(t.as_bytes());
        }
        (MKind::Array { prefix, item }, Val::Arr(v)) => {
            check_len(v.len() as u64, *prefix)?;
            put_int(out, v.len() as u64, *prefix, f.endian);
            for b in v {
                assert_eq!(b.len(), s.structs[*item].bytes);
                out.extend_from_slice(b);
            }
        }
        (MKind::List { prefix, item, .. }, Val::List(l)) => {
            check_len(l.declared, *prefix)?;
            put_int(out, l.declared, *prefix, f.endian);
            for v in &l.items {
                encode_into(s, *item, v, out)?;
            }
        }
        (MKind::Union { union, on }, Val::Union(case, p)) => {
            let d = disc_value(s, *union, &vals[*on]);
            let u = &s.unions[*union];
            if u.cases[*case].value != d {
                return Err(EErr::Disc(d));
            }
            match (u.cases[*case].item, p) {
                (None, None) => {}
                (Some(RRef::Struct(k)), Some(b)) => match &**b {
                    Val::Struct(b) => {
                        assert_eq!(b.len(), s.structs[k].bytes);
                        out.extend_from_slice(b)
                    }
                    _ => panic!("union payload"),
                },
                (Some(RRef::Msg(k)), Some(v)) => encode_into(s, k, v, out)?,
                _ => panic!("union payload"),
            }
        }
        (MKind::Payload, Val::Payload(b)) => out.extend_from_slice(b),
        (k, v) => panic!("value {v:?} does not fit field {} ({k:?})", f.name),
    }
    Ok(())
}

pub fn disc_value(s: &Schema, union: usize, root: &Val) -> u64 {
    let (off, bits, endian) = s.disc_loc(union);
    match root {
        Val::Struct(b) => get_bits(b, off, bits, endian),
        _ => panic!("discriminant is not a structure"),
    }
}

// ---------------------------------------------------------------------------------------------
// Decoder

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Off {
    pub fields: Vec<(usize, usize)>,
    /// Offsets of nested messages, by field; None for other fields and for absent optionals.
    pub nested: Vec<Option<Box<Off>>>,
}

pub struct Dec {
    pub val: Val,
    pub size: usize,
    pub off: Off,
}

/// How much data the reference walked; used to bound the implementation's work.
pub fn decode(s: &Schema, m: usize, data: &[u8]) -> Result<Dec, DErr> {
    let mut at = 0;
    let mut vals: Vec<Val> = Vec::new();
    let mut off = Off::default();
    for f in &s.msgs[m].fields {
        let start = at;
        let mut nested = None;
        let optional = f.optional && !matches!(f.kind, MKind::Union { .. });
        if optional {
            let b = *data.get(at).ok_or(DErr::Truncated)?;
            at += 1;
            if b == 0 {
                vals.push(Val::Opt(None));
                off.fields.push((start, at));
                off.nested.push(None);
                continue;
            }
        }
        let (v, size) = decode_field(s, f, &vals, &data[at..], &mut nested)?;
        at += size;
        vals.push(if optional { Val::Opt(Some(Box::new(v))) } else { v });
        off.fields.push((start, at));
        off.nested.push(nested);
    }
    Ok(Dec { val: Val::Msg(vals), size: at, off })
}

fn need(data: &[u8], n: u64) -> Result<usize, DErr> {
    if (data.len() as u64) < n {
        Err(DErr::Truncated)
    } else {
        Ok(n as usize)
    }
}

fn decode_field(s: &Schema, f: &RMField, vals: &[Val], data: &[u8], nested: &mut Option<Box<Off>>) -> Result<(Val, usize), DErr> {
    match &f.kind {
        MKind::Fixed { ty } => {
            let n = need(data, ty.bytes() as u64)?;
            let mut v = get_int(data, n, f.endian);
            if *ty == Ty::Bool {
                v = (v != 0) as u64;
            }
            Ok((Val::Fixed(v), n))
        }
        MKind::Struct(k) => {
            let n = need(data, s.structs[*k].bytes as u64)?;
            Ok((Val::Struct(data[..n].to_vec()), n))
        }
        MKind::Msg(k) => {
            let d = decode(s, *k, data)?;
            *nested = Some(Box::new(d.off));
            Ok((d.val, d.size))
        }
        MKind::Nul => {
            let n = data.iter().position(|b| *b == 0).ok_or(DErr::Truncated)?;
            let t = String::from_utf8(data[..n].to_vec()).map_err(|_| DErr::Utf8)?;
            Ok((Val::Str(t), n + 1))
        }
        MKind::Var { prefix } => {
            need(data, *prefix as u64)?;
            let len = get_int(data, *prefix, f.endian);
            let body = &data[*prefix..];
            let n = need(body, len)?;
            let t = String::from_utf8(body[..n].to_vec()).map_err(|_| DErr::Utf8)?;
            Ok((Val::Str(t), prefix + n))
        }
        MKind::Array { prefix, item } => {
            need(data, *prefix as u64)?;
            let len = get_int(data, *prefix, f.endian);
            let size = s.structs[*item].bytes;
            let body = &data[*prefix..];
            let total = (len as u128) * (size as u128);
            if (body.len() as u128) < total {
                return Err(DErr::Truncated);
            }
            let total = total as usize;
            Ok((Val::Arr(body[..total].chunks(size).map(|c| c.to_vec()).collect()), prefix + total))
        }
        MKind::List { prefix, item, delimited } => {
            need(data, *prefix as u64)?;
            let len = get_int(data, *prefix, f.endian);
            let (l, used) = decode_items(s, *item, len, &data[*prefix..]);
            if *delimited {
                if let Some(e) = l.err {
                    return Err(e);
                }
                Ok((Val::List(l), prefix + used))
            } else {
                Ok((Val::List(l), data.len()))
            }
        }
        MKind::Union { union, on } => {
            let d = disc_value(s, *union, &vals[*on]);
            let u = &s.unions[*union];
            let k = u.cases.iter().position(|c| c.value == d).ok_or(DErr::Disc(d))?;
            match u.cases[k].item {
                None => Ok((Val::Union(k, None), 0)),
                Some(RRef::Struct(t)) => {
                    let n = need(data, s.structs[t].bytes as u64)?;
                    Ok((Val::Union(k, Some(Box::new(Val::Struct(data[..n].to_vec())))), n))
                }
                Some(RRef::Msg(t)) => {
                    let d = decode(s, t, data)?;
                    Ok((Val::Union(k, Some(Box::new(d.val))), d.size))
                }
            }
        }
        MKind::Payload => Ok((Val::Payload(data.to_vec()), data.len())),
    }
}

/// Items of a list, up to the first that is not there or not valid.
pub fn decode_items(s: &Schema, item: usize, declared: u64, data: &[u8]) -> (ListVal, usize) {
    let mut at = 0;
    let mut l = ListVal { declared, items: Vec::new(), err: None };
    while (l.items.len() as u64) < declared {
        match decode(s, item, &data[at..]) {
            Ok(d) => {
                at += d.size;
                l.items.push(d.val);
            }
            Err(e) => {
                l.err = Some(e);
                break;
            }
        }
    }
    (l, at)
}

// ---------------------------------------------------------------------------------------------
// Structure registers

/// What a view delivers.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Seen {
    U(u64),
    I(i64),
    F32(u32),
    F64(u64),
    B(bool),
    /// Variant value, or none.
    E(Option<u64>),
}

/// Expected result of reading a fixed field through its view, for the views that are exact.
pub fn view_exact(s: &Schema, f: &RField, raw: u64) -> Option<Seen> {
    let RKind::Fixed { ty, view } = &f.kind else { return None };
    Some(match view {
        RView::None => Seen::U(raw),
        RView::Signed => Seen::I(sign_extend(raw, f.bits)),
        RView::Bool => Seen::B(raw != 0),
        RView::Float => match ty {
            Ty::F32 => Seen::F32(raw as u32),
            _ => Seen::F64(raw),
        },
        RView::Enum(e) => Seen::E(s.enums[*e].variants.iter().map(|v| v.1).find(|v| *v == raw)),
        RView::Range(..) | RView::Mult(_) => return None,
    })
}

/// Scale (value per raw step) and offset of a scaled view.
pub fn view_scale(f: &RField) -> Option<(f64, f64)> {
    let RKind::Fixed { view, .. } = &f.kind else { return None };
    match view {
        RView::Range(a, b) => Some(((b - a) / mask(f.bits) as f64, *a)),
        RView::Mult(m) => Some((*m, 0.0)),
        _ => None,
    }
}

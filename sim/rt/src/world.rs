//! The schemas of this binary, values of their types, and ways to make a value that has no wire form.

use rtsim::glue;
use simcore::ctx::Ctx;
use simcore::refcodec::*;
use simcore::schema::*;
use std::sync::OnceLock;

pub struct World {
    pub s: Schema,
    /// Messages that take part in the simulations; those of the known findings come after them.
    pub general: usize,
    /// Messages whose end follows from their content.
    pub delimited: Vec<usize>,
    /// (message, index into MsgOps::lists), lists of messages only.
    pub lists: Vec<(usize, usize)>,
    /// (message, index into MsgOps::lists), arrays of structures only.
    pub arrays: Vec<(usize, usize)>,
    /// Messages with a union of their own.
    pub unions: Vec<(usize, usize)>,
    /// (structure, path, enum): enumerated fields, also nested ones.
    pub enums: Vec<(usize, Vec<usize>, usize)>,
    /// Messages with something to spoil.
    pub texts: Vec<usize>,
    /// Messages that reach a prefixed or terminated content field.
    pub contents: Vec<usize>,
}

pub fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let s = Schema::resolve(simcore::schemas::all(glue::SCHEMA_SEED));
        assert_eq!(s.msgs.len(), glue::MSGS.len());
        assert_eq!(s.structs.len(), glue::STRUCTS.len());
        let general = s.msgs.iter().position(|m| s.proto_name(m.proto) == simcore::schemas::LIMITS).unwrap_or(s.msgs.len());
        let mut w = World { general, delimited: vec![], lists: vec![], arrays: vec![], unions: vec![], enums: vec![], texts: vec![], contents: vec![], s };
        for (m, msg) in w.s.msgs.iter().enumerate().take(general) {
            if msg.delimited {
                w.delimited.push(m);
            }
            for (k, l) in glue::MSGS[m].lists.iter().enumerate() {
                if l.array {
                    w.arrays.push((m, k));
                } else {
                    w.lists.push((m, k));
                }
            }
            for (k, f) in msg.fields.iter().enumerate() {
                if let MKind::Union { .. } = f.kind {
                    w.unions.push((m, k));
                }
            }
            if msg.fields.iter().any(|f| !matches!(f.kind, MKind::Fixed { .. } | MKind::Struct(_) | MKind::Payload)) {
                w.contents.push(m);
            }
        }
        for k in 0..w.s.structs.len() {
            let mut v = Vec::new();
            enum_paths(&w.s, k, &mut Vec::new(), &mut v);
            w.enums.extend(v.into_iter().map(|(p, e)| (k, p, e)));
        }
        w
    })
}

fn enum_paths(s: &Schema, k: usize, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize)>) {
    for (n, f) in s.structs[k].fields.iter().enumerate() {
        path.push(n);
        match &f.kind {
            RKind::Fixed { view: RView::Enum(e), .. } => out.push((path.clone(), *e)),
            RKind::Struct(t) => enum_paths(s, *t, path, out),
            _ => {}
        }
        path.pop();
    }
}

/// How large generated values get.
#[derive(Clone, Copy)]
pub struct Size {
    pub level: usize,
    pub long: bool,
}

impl Size {
    pub fn small() -> Size {
        Size { level: 0, long: false }
    }
    pub fn any() -> Size {
        Size { level: 0, long: true }
    }
}

const CHARS: [char; 12] = ['a', 'Z', '0', ' ', '~', '\u{1}', 'é', 'ß', '→', '中', '😀', '\u{7f}'];

/// Characters somebody may want to treat in a special way.
const ODD: [char; 20] = [
    '\u{feff}', '\u{200b}', '\u{a0}', '\t', '\n', '\r', ' ', '\u{85}', '\u{2028}', '\u{fffd}', '\u{fffe}', '\u{10ffff}', '\u{301}', '\u{202e}', '\u{1b}', '\\', '"', '%', '\u{d7ff}', '\u{e000}',
];

pub fn gen_str(ctx: &mut Ctx, sz: Size) -> String {
    let n = match ctx.weighted(&[2, 10, 4, if sz.long { 1 } else { 0 }]) {
        0 => 0,
        1 => ctx.range(1, 6),
        2 => ctx.range(7, 30),
        _ => ctx.range(31, 180),
    };
    let mut s = String::new();
    let plain = ctx.below(2) == 0;
    while s.len() < n {
        let c = if plain { (b'a' + ctx.below(26) as u8) as char } else { *ctx.pick(&CHARS) };
        s.push(c);
    }
    if ctx.below(8) == 5 {
        // One at the start, at the end or on its own.
        let c = *ctx.pick(&ODD);
        match ctx.below(4) {
            0 => s.insert(0, c),
            1 => s.push(c),
            2 => s = c.to_string(),
            _ => {
                s.insert(0, c);
                s.push(c);
            }
        }
    }
    s
}

/// A length around one of the places where something changes: widths of prefixes, sizes of buffers.
fn edge_len(ctx: &mut Ctx) -> usize {
    match ctx.weighted(&[40, 12, 1]) {
        0 => *ctx.pick(&[255usize, 256, 257, 127, 128, 511, 512, 513]),
        1 => *ctx.pick(&[4096usize, 4095, 4097, 1024, 8192, 8193, 10_000]),
        _ => *ctx.pick(&[65535usize, 65536, 65537, 70_000, 32768]),
    }
}

/// Text for a field whose prefix has this many bytes (0: no prefix).
pub fn gen_text(ctx: &mut Ctx, sz: Size, prefix: usize) -> String {
    if !sz.long || sz.level > 1 || ctx.below(60) != 7 {
        return gen_str(ctx, sz);
    }
    let n = match prefix {
        0 | 4 | 8 => edge_len(ctx),
        p => {
            let max = mask(p * 8) as usize;
            if ctx.below(if p == 1 { 3 } else { 30 }) == 1 { max } else { edge_len(ctx).min(max) }
        }
    };
    ctx.count("probe.long_text");
    let from = ctx.below(26) as u8;
    let mut s = String::with_capacity(n);
    if n > 3 && ctx.below(2) == 1 {
        // Characters of several bytes, across whatever boundaries there are.
        let lead = (0..n % 2).map(|_| 'x');
        s.extend(lead);
        while s.len() < n {
            s.push('é');
        }
    }
    while s.len() < n {
        s.push((b'a' + (from as usize + s.len()) as u8 % 26) as char);
    }
    s
}

/// Number of items of an array whose prefix has this many bytes.
fn gen_items(ctx: &mut Ctx, sz: Size, prefix: usize, item: usize) -> usize {
    if !sz.long || sz.level > 0 || ctx.below(100) != 7 {
        return gen_count(ctx, sz);
    }
    ctx.count("probe.long_array");
    let max = if prefix >= 8 { usize::MAX } else { mask(prefix * 8) as usize };
    let n = if prefix == 1 && ctx.below(2) == 1 { max } else { edge_len(ctx) };
    n.min(max).min(if item > 8 { 1000 } else { 70_000 })
}

fn many(ctx: &mut Ctx, w: &World, item: usize, n: usize) -> Vec<Vec<u8>> {
    if n <= 16 {
        return (0..n).map(|_| gen_struct(ctx, w, item)).collect();
    }
    let few: Vec<Vec<u8>> = (0..3).map(|_| gen_struct(ctx, w, item)).collect();
    (0..n).map(|k| few[(k / 3 + k) % 3].clone()).collect()
}

/// A discriminant: a case, anything, or something close to a case (`cur` or one of the others) in a way that a
/// narrower integer, a lost bit or an off-by-one would confuse with it.
pub fn gen_disc(ctx: &mut Ctx, w: &World, u: usize, cur: Option<u64>) -> u64 {
    let (_, bits, _) = w.s.disc_loc(u);
    let c = &w.s.unions[u].cases;
    match ctx.weighted(&[3, 2, 4]) {
        0 => c[ctx.below(c.len())].value,
        1 => gen_raw(ctx, bits),
        _ => {
            let from = match cur {
                Some(v) if ctx.below(2) == 0 => v,
                _ => c[ctx.below(c.len())].value,
            };
            let by = match ctx.weighted(&[2, 4]) {
                0 => 1 << ctx.below(bits),
                _ => {
                    let l: Vec<u64> = [1u64, 1 << 8, 1 << 16, 1 << 32, 1 << 31].into_iter().filter(|v| *v <= mask(bits)).collect();
                    *ctx.pick(&l)
                }
            };
            match ctx.below(3) {
                0 => from ^ by,
                1 => from.wrapping_add(by) & mask(bits),
                _ => from.wrapping_sub(by) & mask(bits),
            }
        }
    }
}

pub fn gen_raw(ctx: &mut Ctx, bits: usize) -> u64 {
    let m = mask(bits);
    match ctx.weighted(&[2, 2, 1, 5]) {
        0 => 0,
        1 => m,
        2 => 1 << ctx.below(bits),
        _ => ctx.draw64() & m,
    }
}

pub fn gen_struct(ctx: &mut Ctx, w: &World, k: usize) -> Vec<u8> {
    let n = w.s.structs[k].bytes;
    match ctx.weighted(&[1, 1, 6]) {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        _ => ctx.bytes(n),
    }
}

pub fn gen_count(ctx: &mut Ctx, sz: Size) -> usize {
    if sz.level >= 3 {
        return ctx.below(2);
    }
    match ctx.weighted(&[2, 4, 4, if sz.long && sz.level == 0 { 1 } else { 0 }]) {
        0 => 0,
        1 => 1,
        2 => ctx.range(2, 4),
        _ => ctx.range(5, 12),
    }
}

pub fn gen_case(ctx: &mut Ctx, w: &World, u: usize, sz: Size) -> Val {
    let n = ctx.below(w.s.unions[u].cases.len());
    gen_case_n(ctx, w, u, n, sz)
}

pub fn gen_case_n(ctx: &mut Ctx, w: &World, u: usize, n: usize, sz: Size) -> Val {
    let p = match w.s.unions[u].cases[n].item {
        None => None,
        Some(RRef::Struct(k)) => Some(Box::new(Val::Struct(gen_struct(ctx, w, k)))),
        Some(RRef::Msg(k)) => Some(Box::new(gen_msg(ctx, w, k, Size { level: sz.level + 1, ..sz }))),
    };
    Val::Union(n, p)
}

pub fn set_disc(w: &World, u: usize, root: &mut Val, v: u64) {
    let (off, bits, endian) = w.s.disc_loc(u);
    match root {
        Val::Struct(b) => set_bits(b, off, bits, endian, v),
        _ => panic!("discriminant is not a structure"),
    }
}

fn gen_field(ctx: &mut Ctx, w: &World, f: &RMField, sz: Size) -> Val {
    let sub = Size { level: sz.level + 1, ..sz };
    match &f.kind {
        MKind::Fixed { ty: Ty::Bool } => Val::Fixed(ctx.draw(2)),
        MKind::Fixed { ty } => Val::Fixed(gen_raw(ctx, ty.bytes() * 8)),
        MKind::Struct(k) => Val::Struct(gen_struct(ctx, w, *k)),
        MKind::Msg(k) => gen_msg(ctx, w, *k, sub),
        MKind::Nul => Val::Str(gen_text(ctx, sz, 0)),
        MKind::Var { prefix } => Val::Str(gen_text(ctx, sz, *prefix)),
        MKind::Array { item, prefix } => {
            let n = gen_items(ctx, sz, *prefix, w.s.structs[*item].bytes);
            Val::Arr(many(ctx, w, *item, n))
        }
        MKind::List { item, prefix, .. } => {
            if sz.long && sz.level == 0 && ctx.below(200) == 7 {
                ctx.count("probe.long_list");
                let few: Vec<Val> = (0..2).map(|_| gen_msg(ctx, w, *item, Size { level: 3, long: false })).collect();
                let n = if *prefix == 1 { 255 } else { *ctx.pick(&[255usize, 256, 257, 300]) };
                return Val::list((0..n).map(|k| few[k % 2].clone()).collect());
            }
            let n = gen_count(ctx, sz);
            Val::list((0..n).map(|_| gen_msg(ctx, w, *item, sub)).collect())
        }
        MKind::Union { union, .. } => gen_case(ctx, w, *union, sz),
        MKind::Payload => {
            if sz.long && sz.level <= 1 && ctx.below(60) == 7 {
                ctx.count("probe.long_payload");
                let n = edge_len(ctx);
                let b = ctx.bytes(16);
                return Val::Payload((0..n).map(|k| b[k % 16].wrapping_add((k / 16) as u8)).collect());
            }
            let n = ctx.below(24);
            Val::Payload(ctx.bytes(n))
        }
    }
}

/// A value that has a wire form.
pub fn gen_msg(ctx: &mut Ctx, w: &World, m: usize, sz: Size) -> Val {
    let mut vals: Vec<Val> = Vec::new();
    for f in &w.s.msgs[m].fields {
        let optional = f.optional && !matches!(f.kind, MKind::Union { .. });
        // Two unions over one discriminant agree.
        let same = match f.kind {
            MKind::Union { union, on } => w.s.msgs[m].fields[..vals.len()].iter().zip(&vals).find_map(|(g, v)| match (&g.kind, v) {
                (MKind::Union { union: u, on: o }, Val::Union(n, _)) if *o == on && w.s.disc_loc(*u) == w.s.disc_loc(union) => {
                    let d = w.s.unions[*u].cases[*n].value;
                    Some((union, w.s.unions[union].cases.iter().position(|c| c.value == d).expect("unions over one discriminant")))
                }
                _ => None,
            }),
            _ => None,
        };
        let v = if let Some((u, c)) = same {
            gen_case_n(ctx, w, u, c, sz)
        } else if optional {
            if ctx.below(3) == 0 {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(gen_field(ctx, w, f, sz))))
            }
        } else {
            gen_field(ctx, w, f, sz)
        };
        vals.push(v);
        if let (MKind::Union { union, on }, Some(Val::Union(n, _))) = (&f.kind, vals.last()) {
            let d = w.s.unions[*union].cases[*n].value;
            set_disc(w, *union, &mut vals[*on], d);
        }
    }
    Val::Msg(vals)
}

// ---------------------------------------------------------------------------------------------
// Places inside a value

/// Steps from a message to a nested one: field, and item for lists.
pub type Path = Vec<(usize, usize)>;

#[derive(Clone, Debug)]
pub struct Leaf {
    pub path: Path,
    pub msg: usize,
    pub field: usize,
}

pub fn leaves(w: &World, m: usize, v: &Val, path: &mut Path, out: &mut Vec<Leaf>) {
    let Val::Msg(vals) = v else { panic!("message expected") };
    for (k, f) in w.s.msgs[m].fields.iter().enumerate() {
        let x = match &vals[k] {
            Val::Opt(None) => continue,
            Val::Opt(Some(v)) => &**v,
            v => v,
        };
        out.push(Leaf { path: path.clone(), msg: m, field: k });
        match (&f.kind, x) {
            (MKind::Msg(t), v) => {
                path.push((k, 0));
                leaves(w, *t, v, path, out);
                path.pop();
            }
            (MKind::List { item, .. }, Val::List(l)) => {
                for (i, v) in l.items.iter().enumerate() {
                    path.push((k, i));
                    leaves(w, *item, v, path, out);
                    path.pop();
                }
            }
            (MKind::Union { union, .. }, Val::Union(n, Some(p))) => {
                if let Some(RRef::Msg(t)) = w.s.unions[*union].cases[*n].item {
                    path.push((k, 0));
                    leaves(w, t, p, path, out);
                    path.pop();
                }
            }
            _ => {}
        }
    }
}

pub fn vals_at<'a>(v: &'a mut Val, path: &[(usize, usize)]) -> &'a mut Vec<Val> {
    let Val::Msg(vals) = v else { panic!("message expected") };
    let Some((k, i)) = path.first() else { return vals };
    let x = match &mut vals[*k] {
        Val::Opt(Some(v)) => &mut **v,
        v => v,
    };
    let next = match x {
        Val::List(l) => &mut l.items[*i],
        Val::Union(_, Some(p)) => &mut **p,
        v => v,
    };
    vals_at(next, &path[1..])
}

pub fn field_at<'a>(v: &'a mut Val, leaf: &Leaf) -> &'a mut Val {
    match &mut vals_at(v, &leaf.path)[leaf.field] {
        Val::Opt(Some(v)) => v,
        v => v,
    }
}

/// Make the value impossible to encode. Returns what was done.
pub fn spoil(ctx: &mut Ctx, w: &World, m: usize, v: &mut Val) -> Option<&'static str> {
    let mut l = Vec::new();
    leaves(w, m, v, &mut Vec::new(), &mut l);
    l.retain(|l| match &w.s.msgs[l.msg].fields[l.field].kind {
        MKind::Nul | MKind::Union { .. } => true,
        MKind::Var { prefix } => *prefix <= 2,
        MKind::Array { prefix, item } => *prefix <= 2 && w.s.structs[*item].bytes < 16,
        _ => false,
    });
    if l.len() > 1 && ctx.below(8) > 0 {
        // Those that take a lot of data are rare.
        let few: Vec<Leaf> = l.iter().filter(|l| !matches!(w.s.msgs[l.msg].fields[l.field].kind, MKind::Var { prefix: 2 } | MKind::Array { prefix: 2, .. })).cloned().collect();
        if !few.is_empty() {
            l = few;
        }
    }
    if l.is_empty() {
        return None;
    }
    let leaf = l[ctx.below(l.len())].clone();
    let f = &w.s.msgs[leaf.msg].fields[leaf.field];
    match &f.kind {
        MKind::Nul => {
            let Val::Str(s) = field_at(v, &leaf) else { unreachable!() };
            let mut at = ctx.below(s.len() + 1);
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.insert(at, '\0');
            Some("terminator in text")
        }
        MKind::Var { prefix } => {
            let Val::Str(s) = field_at(v, &leaf) else { unreachable!() };
            let n = if *prefix == 1 { *ctx.pick(&[256usize, 257, 300, 512, 511]) } else { *ctx.pick(&[65536usize, 65537, 70_000, 131072]) };
            while s.len() < n {
                s.push('x');
            }
            Some("text too long")
        }
        MKind::Array { item, prefix } => {
            let b = gen_struct(ctx, w, *item);
            let n = if *prefix == 1 { *ctx.pick(&[256usize, 257, 300, 512]) } else { *ctx.pick(&[65536usize, 65537]) };
            let Val::Arr(a) = field_at(v, &leaf) else { unreachable!() };
            while a.len() < n {
                a.push(b.clone());
            }
            Some("too many items")
        }
        MKind::Union { union, on } => {
            let cur = match field_at(v, &leaf) {
                Val::Union(n, _) => w.s.unions[*union].cases[*n].value,
                _ => unreachable!(),
            };
            let (_, bits, _) = w.s.disc_loc(*union);
            let mut d = gen_disc(ctx, w, *union, Some(cur));
            if d == cur {
                d = (d ^ 1) & mask(bits);
            }
            let on = *on;
            set_disc(w, *union, &mut vals_at(v, &leaf.path)[on], d);
            Some("discriminant mismatch")
        }
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------------------------------------
// Printing

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (k, v) in b.iter().enumerate() {
        if k == 48 {
            s += &format!("..({} bytes)", b.len());
            break;
        }
        s += &format!("{v:02x}");
    }
    s
}

pub fn short(v: &impl std::fmt::Debug) -> String {
    let s = format!("{v:?}");
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}..", &s[..n])
    } else {
        s
    }
}

/// Describe the first difference of two values.
pub fn diff(a: &Val, b: &Val) -> String {
    match (a, b) {
        (Val::Msg(x), Val::Msg(y)) if x.len() == y.len() => {
            for (k, (p, q)) in x.iter().zip(y).enumerate() {
                if p != q {
                    return format!("field {k}: {}", diff(p, q));
                }
            }
            "equal".into()
        }
        (Val::Opt(Some(x)), Val::Opt(Some(y))) => diff(x, y),
        (Val::List(x), Val::List(y)) if x.items.len() == y.items.len() && x.err == y.err && x.declared == y.declared => {
            for (k, (p, q)) in x.items.iter().zip(&y.items).enumerate() {
                if p != q {
                    return format!("item {k}: {}", diff(p, q));
                }
            }
            "equal".into()
        }
        (a, b) => format!("got {}, expected {}", short(a), short(b)),
    }
}

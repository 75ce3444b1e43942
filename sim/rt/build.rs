//! Runs the compiler of /repo over the schemas of a seed and generates the glue between the generated code and
//! `simcore`'s schema-independent values.

use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::Loader;
use simcore::schema::*;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

/// The compiler under test could not handle a schema it has to handle.
fn protoc_failed(what: String) -> ! {
    eprintln!("PROTOC-FAILED {what}");
    std::process::exit(9)
}

fn cap(s: &str) -> String {
    let mut c = s.chars();
    match c.next() {
        Some(f) => f.to_ascii_uppercase().to_string() + c.as_str(),
        None => String::new(),
    }
}

struct Glue {
    s: Schema,
    o: String,
}

impl Glue {
    fn sp(&self, k: usize) -> String {
        let v = &self.s.structs[k];
        format!("crate::gen::{}::{}", self.s.proto_name(v.proto), v.name)
    }

    fn mp(&self, k: usize) -> String {
        let v = &self.s.msgs[k];
        format!("crate::gen::{}::{}", self.s.proto_name(v.proto), v.name)
    }

    fn has_lifetime(&self, k: usize) -> bool {
        self.s.msgs[k].fields.iter().any(|f| !matches!(f.kind, MKind::Fixed { .. }))
    }

    fn mt(&self, k: usize, lt: &str) -> String {
        format!("{}{}", self.mp(k), if self.has_lifetime(k) { format!("<{lt}>") } else { String::new() })
    }

    fn up(&self, k: usize) -> String {
        let v = &self.s.unions[k];
        format!("crate::gen::{}::{}", self.s.proto_name(v.proto), v.name)
    }

    fn union_lt(&self, k: usize) -> bool {
        self.s.unions[k].cases.iter().any(|c| c.item.is_some())
    }

    fn ut(&self, k: usize, lt: &str) -> String {
        format!("{}{}", self.up(k), if self.union_lt(k) { format!("<{lt}>") } else { String::new() })
    }

    fn alias(&self, m: usize, f: usize) -> String {
        format!("{}{}", self.mp(m), cap(&self.s.msgs[m].fields[f].name))
    }

    fn structs(&mut self) {
        for k in 0..self.s.structs.len() {
            let st = self.s.structs[k].clone();
            let p = self.sp(k);
            let mut rd = String::new();
            let mut wr = String::new();
            for (n, f) in st.fields.iter().enumerate() {
                let x = &f.name;
                match &f.kind {
                    RKind::Fixed { view, .. } => {
                        let view_get = match view {
                            RView::Enum(_) => format!("Seen::E(sut(|| s.get_{x}()).map(|v| v as u64))"),
                            _ => format!("Raw::seen(sut(|| s.get_{x}()))"),
                        };
                        let _ = writeln!(
                            rd,
                            "        Some({n}) => match op {{ ROp::Raw => Got::Raw(Raw::raw(sut(|| s.get_raw_{x}()))), ROp::View => Got::View({view_get}), _ => Got::No }},"
                        );
                        let view_set = match view {
                            RView::Enum(e) => {
                                let en = &self.s.enums[*e];
                                let pre = format!("crate::gen::{}::{}", self.s.proto_name(en.proto), en.name);
                                let arms: String = en.variants.iter().map(|(n, v)| format!("Seen::E(Some({v})) => {pre}::{n}, ")).collect();
                                format!("{{ let v = match v {{ {arms} _ => return false }}; sut(|| {{ s.set_{x}(v); }}) }}")
                            }
                            _ => format!("{{ let v = Raw::from_seen(*v); sut(|| {{ s.set_{x}(v); }}) }}"),
                        };
                        let _ = writeln!(
                            wr,
                            "        Some({n}) => match op {{ WOp::Raw(v) => {{ let v = Raw::from_raw(*v); sut(|| {{ s.set_raw_{x}(v); }}) }}, WOp::View(v) => {view_set}, _ => return false }},"
                        );
                    }
                    RKind::Array { ty, item_bits, .. } => {
                        let bytes = *ty == Ty::U(8) && *item_bits == 8;
                        let b = if bytes { format!("ROp::Bytes => Got::Bytes(sut(|| AsRef::<[u8]>::as_ref(&s.get_{x}()).to_vec())), ") } else { String::new() };
                        let _ = writeln!(
                            rd,
                            "        Some({n}) => match op {{ ROp::Item(i) => Got::Raw(Raw::raw(sut(|| s.get_{x}().get_raw(*i)))), ROp::Len => Got::Len(sut(|| s.get_{x}().len())), ROp::Iter => Got::Many(sut(|| s.get_{x}().iter_raw().map(Raw::raw).take(1 << 20).collect())), {b}_ => Got::No }},"
                        );
                        let b = if bytes { format!("WOp::Bytes(v) => sut(|| s.get_{x}_mut().as_mut().copy_from_slice(v)), ") } else { String::new() };
                        let _ = writeln!(
                            wr,
                            "        Some({n}) => match op {{ WOp::Item(i, v) => {{ let v = Raw::from_raw(*v); sut(|| {{ s.get_{x}_mut().set_raw(*i, v); }}) }}, WOp::Items(l) => sut(|| {{ let mut a = s.get_{x}_mut(); let mut c = &mut a; for (i, v) in l {{ c = c.set_raw(*i, Raw::from_raw(*v)); }} let _ = c; }}), {b}_ => return false }},"
                        );
                    }
                    RKind::Struct(t) => {
                        let _ = writeln!(rd, "        Some({n}) => {{ let t = sut(|| s.get_{x}()); rd_{t}(&t, &path[1..], op) }},");
                        let _ = writeln!(wr, "        Some({n}) => {{ let mut t = sut(|| s.get_{x}_mut()); return wr_{t}(&mut t, &path[1..], op) }},");
                    }
                }
            }
            let _ = write!(
                self.o,
                "
fn rd_{k}<T: AsRef<[u8]>>(s: &{p}<T>, path: &[usize], op: &ROp) -> Got {{
    match path.first() {{
{rd}        _ => Got::No,
    }}
}}

fn wr_{k}<T: AsMut<[u8]>>(s: &mut {p}<T>, path: &[usize], op: &WOp) -> bool {{
    match path.first() {{
{wr}        _ => return false,
    }}
    true
}}

struct Reg{k}<T>({p}<T>);
impl<T: AsRef<[u8]> + AsMut<[u8]>> Reg for Reg{k}<T> {{
    fn read(&self, path: &[usize], op: &ROp) -> Got {{
        rd_{k}(&self.0, path, op)
    }}
    fn write(&mut self, path: &[usize], op: &WOp) -> bool {{
        wr_{k}(&mut self.0, path, op)
    }}
}}
fn reg_{k}(b: SimBuf) -> Box<dyn Reg + Send> {{
    Box::new(Reg{k}({p}::new(b)))
}}
fn with_{k}<'x>(b: &'x mut [u8]) -> Box<dyn Reg + 'x> {{
    Box::new(Reg{k}({p}::new(b)))
}}
fn rdb_{k}(b: &[u8], path: &[usize], op: &ROp) -> Got {{
    rd_{k}(&{p}::new(b), path, op)
}}
fn sfs_{k}(b: &[u8]) -> Res<(Vec<u8>, usize)> {{
    let m = sut(|| <{p}<&[u8]> as FromSlice>::from_slice(b))?;
    let size = m.size();
    Ok((st_val(&m.into_inner()), size))
}}
fn swt_{k}(b: &[u8], out: &mut dyn Write) -> Res<()> {{
    let s = {p}::new(b);
    sut(|| <{p}<&[u8]> as WriteTo>::write_to(&s, out))?;
    Ok(())
}}
fn sst_{k}() -> Vec<u8> {{
    let s = sut(|| {p}::new_on_stack());
    st_val(&s.to_ref())
}}
"
            );
        }
        let _ = writeln!(self.o, "pub static STRUCTS: &[StructOps] = &[");
        for k in 0..self.s.structs.len() {
            let st = &self.s.structs[k];
            let p = self.sp(k);
            let _ = writeln!(
                self.o,
                "    StructOps {{ name: \"{}\", idx: {k}, size_const: crate::gen::{}::SIZE_{}, fixed_size: <{p}<()> as FixedSize>::SIZE, reg: reg_{k}, with: with_{k}, read: rdb_{k}, from_slice: sfs_{k}, write_to: swt_{k}, on_stack: sst_{k} }},",
                st.name,
                self.s.proto_name(st.proto),
                st.name.to_uppercase(),
            );
        }
        let _ = writeln!(self.o, "];");
    }

    fn build_expr(&self, m: usize, f: usize, v: &str) -> String {
        match &self.s.msgs[m].fields[f].kind {
            MKind::Fixed { .. } => format!("Raw::from_raw(fixed({v}))"),
            MKind::Struct(k) => format!("{}::new(ar.st({v}))", self.sp(*k)),
            MKind::Msg(k) => format!("b_{k}({v}, ar)?"),
            MKind::Nul | MKind::Var { .. } => format!("ar.str({v})"),
            MKind::Array { item, .. } => {
                let a = self.alias(m, f);
                format!(
                    "{{ let mut w = {a}::<'static, Vec<u8>>::new(Vec::new()); for b in arr_items({v}) {{ let s = {}::new(ar.st_bytes(b)); sut(|| w.write_item(&s))?; }} ar.keep(w).to_ref() }}",
                    self.sp(*item)
                )
            }
            MKind::List { item, .. } => {
                let a = self.alias(m, f);
                format!(
                    "{{ let mut w = {a}::<'static, Vec<u8>>::new(Vec::new()); for i in list_items({v}) {{ let i = b_{item}(i, ar)?; sut(|| w.write_item(&i))?; }} ar.keep(w).to_ref::<{}>() }}",
                    self.mt(*item, "'a")
                )
            }
            MKind::Union { union, .. } => format!("bu_{union}({v}, ar)?"),
            MKind::Payload => format!("ar.payload({v})"),
        }
    }

    fn val_expr(&self, m: usize, f: usize, e: &str) -> String {
        match &self.s.msgs[m].fields[f].kind {
            MKind::Fixed { .. } => format!("Val::Fixed(Raw::raw({e}))"),
            MKind::Struct(_) => format!("Val::Struct(st_val(&{e}))"),
            MKind::Msg(k) => format!("v_{k}(&{e}, w)"),
            MKind::Nul | MKind::Var { .. } => format!("Val::Str({e}.to_string())"),
            MKind::Array { item, .. } => format!("arr_val::<_, _, {}<&[u8]>>(&{e}, w)", self.sp(*item)),
            MKind::List { item, .. } => {
                let l = format!("lv_{m}_{f}");
                let _ = item;
                format!("{l}(&{e}, w)")
            }
            MKind::Union { union, .. } => format!("vu_{union}(&{e}, w)"),
            MKind::Payload => format!("Val::Payload({e}.to_vec())"),
        }
    }

    fn unions(&mut self) {
        for k in 0..self.s.unions.len() {
            let u = self.s.unions[k].clone();
            let p = self.up(k);
            let t = self.ut(k, "'a");
            let root = self.sp(u.root);
            let mut build = String::new();
            let mut val = String::new();
            let mut helpers = String::new();
            for (n, c) in u.cases.iter().enumerate() {
                let lower = c.name.to_lowercase();
                match c.item {
                    None => {
                        let _ = writeln!(build, "        Val::Union({n}, _) => {p}::{},", c.name);
                        let _ = writeln!(val, "        {p}::{} => Val::Union({n}, None),", c.name);
                        let _ = writeln!(helpers, "    l.push(({n}, u.is_{lower}()));");
                    }
                    Some(RRef::Struct(s)) => {
                        let _ = writeln!(build, "        Val::Union({n}, Some(v)) => {p}::{}({}::new(ar.st(v))),", c.name, self.sp(s));
                        let _ = writeln!(val, "        {p}::{}(v) => Val::Union({n}, Some(Box::new(Val::Struct(st_val(v))))),", c.name);
                        let _ = writeln!(helpers, "    l.push(({n}, u.as_{lower}().is_some()));");
                    }
                    Some(RRef::Msg(m)) => {
                        let _ = writeln!(build, "        Val::Union({n}, Some(v)) => {p}::{}(b_{m}(v, ar)?),", c.name);
                        let _ = writeln!(val, "        {p}::{}(v) => Val::Union({n}, Some(Box::new(v_{m}(v, w)))),", c.name);
                        let _ = writeln!(helpers, "    l.push(({n}, u.as_{lower}().is_some()));");
                    }
                }
            }
            let _ = write!(
                self.o,
                "
fn bu_{k}<'a>(v: &Val, ar: &'a Arena) -> Res<{t}> {{
    Ok(match v {{
{build}        v => panic!(\"union value expected: {{v:?}}\"),
    }})
}}
fn vu_{k}<'a>(u: &'a {t}, w: &mut Walk) -> Val {{
    let v = match u {{
{val}    }};
    let mut l: Vec<(usize, bool)> = Vec::new();
{helpers}
    w.union(&v, &l);
    v
}}
fn usd_{k}(v: &Val, b: &mut [u8]) -> Res<()> {{
    let ar = Arena::new();
    let ar = &ar;
    let u = bu_{k}(v, ar)?;
    let mut d = {root}::new(b);
    sut(|| u.set_discriminant(&mut d));
    Ok(())
}}
fn ufs_{k}(b: &[u8], root: &[u8], w: &mut Walk) -> Res<(Val, usize)> {{
    let d = {root}::new(root);
    let m = sut(|| {p}::from_slice(b, &d))?;
    let size = m.size();
    let u = m.into_inner();
    Ok((vu_{k}(&u, w), size))
}}
fn uwt_{k}(v: &Val, root: &[u8], out: &mut dyn Write) -> Result<(), EncErr> {{
    let ar = Arena::new();
    let ar = &ar;
    let u = bu_{k}(v, ar).map_err(EncErr::Build)?;
    let d = {root}::new(ar.bytes(root));
    sut(|| {p}::write_to(&u, &d, out)).map_err(|e| EncErr::Write(e.into()))
}}
"
            );
        }
        let _ = writeln!(self.o, "pub static UNIONS: &[UnionOps] = &[");
        for k in 0..self.s.unions.len() {
            let _ = writeln!(self.o, "    UnionOps {{ name: \"{}\", idx: {k}, set_disc: usd_{k}, decode: ufs_{k}, write: uwt_{k} }},", self.s.unions[k].name);
        }
        let _ = writeln!(self.o, "];");
    }

    fn msgs(&mut self) {
        for m in 0..self.s.msgs.len() {
            let msg = self.s.msgs[m].clone();
            let p = self.mp(m);
            let t = self.mt(m, "'a");
            let mut build = String::new();
            let mut val = String::new();
            let mut offs = String::new();
            let mut nested = String::new();
            for (n, f) in msg.fields.iter().enumerate() {
                let x = &f.name;
                let optional = f.optional && !matches!(f.kind, MKind::Union { .. });
                if optional {
                    let _ = writeln!(build, "        {x}: match opt(&f[{n}]) {{ None => None, Some(v) => Some({}) }},", self.build_expr(m, n, "v"));
                    let _ = writeln!(val, "        match &m.{x} {{ None => Val::Opt(None), Some(v) => Val::Opt(Some(Box::new({}))) }},", self.val_expr(m, n, "(*v)"));
                } else {
                    let _ = writeln!(build, "        {x}: {},", self.build_expr(m, n, &format!("&f[{n}]")));
                    let _ = writeln!(val, "        {},", self.val_expr(m, n, &format!("m.{x}")));
                }
                let _ = write!(offs, "extent(&o.{x}), ");
                match (&f.kind, optional) {
                    (MKind::Msg(k), false) => {
                        let _ = write!(nested, "Some(Box::new(o_{k}(&o.{x}_offsets))), ");
                    }
                    (MKind::Msg(k), true) => {
                        let _ = write!(nested, "o.{x}_offsets.as_ref().map(|o| Box::new(o_{k}(o))), ");
                    }
                    _ => nested += "None, ",
                }
                let a = self.alias(m, n);
                match &f.kind {
                    MKind::Array { item, .. } => {
                        let st = self.sp(*item);
                        let _ = write!(
                            self.o,
                            "
struct LB_{m}_{n}({a}<'static, SimBuf>);
impl Builder for LB_{m}_{n} {{
    fn push(&mut self, v: &Val) -> Res<()> {{
        let ar = Arena::new();
        let s = {st}::new(ar.st(v));
        sut(|| self.0.write_item(&s))?;
        Ok(())
    }}
    fn push_many(&mut self, v: &[Val]) -> Res<()> {{
        let ar = Arena::new();
        let l: Vec<{st}<&[u8]>> = v.iter().map(|v| {st}::new(ar.st(v))).collect();
        sut(|| self.0.write_items(&l))?;
        Ok(())
    }}
    fn len(&self) -> usize {{
        sut(|| self.0.len())
    }}
    fn write(&self, out: &mut dyn Write) -> Res<()> {{
        write_ref(&sut(|| self.0.to_ref()), out)
    }}
    fn size(&self) -> Res<usize> {{
        size_ref(&sut(|| self.0.to_ref()))
    }}
    fn items(&self) -> (ListVal, Vec<(&'static str, String)>) {{
        let mut w = Walk::new(1 << 20);
        let r = sut(|| self.0.to_ref());
        let v = arr_val::<_, _, {st}<&[u8]>>(&r, &mut w);
        let n = self.len();
        let direct: Vec<Vec<u8>> = sut(|| self.0.iter()).take(n).map(|s| st_val(&s)).collect();
        let one: Vec<Vec<u8>> = (0..n).map(|i| st_val(&sut(|| self.0.get(i)))).collect();
        arr_items_of(v, n, direct, one, w)
    }}
    fn item_read(&self, i: usize, path: &[usize], op: &ROp) -> Got {{
        let s = sut(|| self.0.get(i));
        rd_{item}(&s, path, op)
    }}
    fn item_write(&mut self, i: usize, path: &[usize], op: &WOp) -> bool {{
        let mut s = sut(|| self.0.get_mut(i));
        wr_{item}(&mut s, path, op)
    }}
    fn items_mut(&mut self) -> usize {{
        sut(|| self.0.iter_mut().count())
    }}
    fn items_write(&mut self, from: usize, path: &[usize], ops: &[WOp]) -> usize {{
        let mut n = 0;
        let mut it = sut(|| self.0.iter_mut());
        for (k, op) in ops.iter().enumerate() {{
            let next = if k == 0 && from > 0 {{ sut(|| it.nth(from)) }} else {{ sut(|| it.next()) }};
            let Some(mut s) = next else {{ break }};
            if wr_{item}(&mut s, path, op) {{
                n += 1;
            }}
        }}
        n
    }}
}}
fn lb_{m}_{n}(b: SimBuf) -> Box<dyn Builder> {{
    Box::new(LB_{m}_{n}({a}::new(b)))
}}
fn lp_{m}_{n}(b: SimBuf, len: usize) -> Option<Box<dyn Builder>> {{
    sut(|| {a}::from_parts(b, len)).map(|v| Box::new(LB_{m}_{n}(v)) as Box<dyn Builder>)
}}
"
                        );
                    }
                    MKind::List { item, .. } => {
                        let it = self.mt(*item, "'_");
                        let _ = write!(
                            self.o,
                            "
struct LB_{m}_{n}({a}<'static, SimBuf>);
impl Builder for LB_{m}_{n} {{
    fn push(&mut self, v: &Val) -> Res<()> {{
        let ar = Arena::new();
        let i = b_{item}(v, &ar)?;
        sut(|| self.0.write_item(&i))?;
        Ok(())
    }}
    fn push_many(&mut self, v: &[Val]) -> Res<()> {{
        let ar = Arena::new();
        let l: Vec<{it}> = v.iter().map(|v| b_{item}(v, &ar)).collect::<Res<Vec<_>>>()?;
        sut(|| self.0.write_items(&l))?;
        Ok(())
    }}
    fn len(&self) -> usize {{
        sut(|| self.0.len())
    }}
    fn write(&self, out: &mut dyn Write) -> Res<()> {{
        write_ref(&self.0, out)
    }}
    fn size(&self) -> Res<usize> {{
        size_ref(&self.0)
    }}
    fn items(&self) -> (ListVal, Vec<(&'static str, String)>) {{
        let mut w = Walk::new(1 << 20);
        w.offsets = true;
        let r = sut(|| self.0.to_ref::<{it}>());
        match lv_{m}_{n}(&r, &mut w) {{
            Val::List(l) => (l, w.problems),
            _ => unreachable!(),
        }}
    }}
}}
fn lb_{m}_{n}(b: SimBuf) -> Box<dyn Builder> {{
    Box::new(LB_{m}_{n}({a}::new(b)))
}}
fn lp_{m}_{n}(_b: SimBuf, _len: usize) -> Option<Box<dyn Builder>> {{
    None
}}
fn lv_{m}_{n}<'a>(l: &'a {a}<'a, &'a [u8]>, w: &mut Walk) -> Val {{
    let n = sut(|| l.len());
    let mut it = sut(|| l.iter());
    let v = w.list(n, || it.next(), |v, w| v_{item}(&v, w));
    if w.offsets {{
        let mut it = sut(|| l.iter_offsets());
        let o = w.list(n, || it.next(), |(v, _), w| v_{item}(&v, w));
        w.same(&v, &o);
    }}
    Val::List(v)
}}
struct LV_{m}_{n}<'a>({a}<'a, &'a [u8]>);
impl ListView for LV_{m}_{n}<'_> {{
    fn adapt(&self, offsets: bool, first: usize, how: Take) -> Seen2<Res<(Val, Option<Off>)>> {{
        let l: &{a}<'_, &[u8]> = &self.0;
        if offsets {{
            adapt(sut(|| l.iter_offsets()), first, how, |r| match r {{
                Ok((v, o)) => Ok((v_{item}(&v, &mut Walk::new(1 << 24)), Some(o_{item}(&o)))),
                Err(e) => Err(e.into()),
            }})
        }} else {{
            adapt(sut(|| l.iter()), first, how, |r| match r {{
                Ok(v) => Ok((v_{item}(&v, &mut Walk::new(1 << 24)), None)),
                Err(e) => Err(e.into()),
            }})
        }}
    }}
    fn len(&self) -> usize {{
        sut(|| self.0.len())
    }}
    fn iter<'s>(&'s self) -> Box<dyn Iterator<Item = Res<(Val, Option<Off>)>> + 's> {{
        let l: &'s {a}<'s, &'s [u8]> = &self.0;
        let mut it = sut(|| l.iter());
        Box::new(std::iter::from_fn(move || sut(|| it.next()).map(|r| match r {{
            Ok(v) => Ok((v_{item}(&v, &mut Walk::new(1 << 24)), None)),
            Err(e) => Err(e.into()),
        }})))
    }}
    fn iter_offsets<'s>(&'s self) -> Box<dyn Iterator<Item = Res<(Val, Option<Off>)>> + 's> {{
        let l: &'s {a}<'s, &'s [u8]> = &self.0;
        let mut it = sut(|| l.iter_offsets());
        Box::new(std::iter::from_fn(move || sut(|| it.next()).map(|r| match r {{
            Ok((v, o)) => Ok((v_{item}(&v, &mut Walk::new(1 << 24)), Some(o_{item}(&o)))),
            Err(e) => Err(e.into()),
        }})))
    }}
}}
fn lw_{m}_{n}<'x, 'y>(b: &'x [u8], f: &'y mut dyn FnMut(&dyn ListView)) -> Res<()> {{
    let m = sut(|| <{p} as FromSlice>::from_slice(b))?.into_inner();
    f(&LV_{m}_{n}(m.{x}));
    Ok(())
}}
"
                        );
                    }
                    _ => {}
                }
            }
            let _ = write!(
                self.o,
                "
fn b_{m}<'a>(v: &Val, ar: &'a Arena) -> Res<{t}> {{
    let f = fields(v);
    Ok({p} {{
{build}    }})
}}
fn v_{m}<'a>(m: &'a {t}, w: &mut Walk) -> Val {{
    Val::Msg(vec![
{val}    ])
}}
fn o_{m}(o: &{p}Offsets) -> Off {{
    Off {{ fields: vec![{offs}], nested: vec![{nested}] }}
}}
fn e_{m}(v: &Val, out: &mut dyn Write) -> Result<(), EncErr> {{
    let ar = Arena::new();
    let m = b_{m}(v, &ar).map_err(EncErr::Build)?;
    sut(|| <{p} as WriteTo>::write_to(&m, out)).map_err(|e| EncErr::Write(e.into()))
}}
fn sz_{m}(v: &Val) -> Result<usize, EncErr> {{
    let ar = Arena::new();
    let m = b_{m}(v, &ar).map_err(EncErr::Build)?;
    sut(|| bp3d_proto::message::util::size_of(&m)).map_err(|e| EncErr::Write(e.into()))
}}
fn d_{m}(b: &[u8], w: &mut Walk) -> Res<(Val, usize)> {{
    let m = sut(|| <{p} as FromSlice>::from_slice(b))?;
    let size = m.size();
    let m = m.into_inner();
    Ok((v_{m}(&m, w), size))
}}
fn do_{m}(b: &[u8], w: &mut Walk) -> Res<(Val, usize, Off)> {{
    let m = sut(|| <{p} as FromSliceWithOffsets>::from_slice_with_offsets(b))?;
    let size = m.size();
    let (m, o) = m.into_inner();
    Ok((v_{m}(&m, w), size, o_{m}(&o)))
}}
fn rl_{m}(b: &[u8], out: &mut dyn Write) -> Result<usize, EncErr> {{
    let m = sut(|| <{p} as FromSlice>::from_slice(b)).map_err(|e| EncErr::Build(e.into()))?;
    let size = m.size();
    let m = m.into_inner();
    sut(|| <{p} as WriteTo>::write_to(&m, out)).map_err(|e| EncErr::Write(e.into()))?;
    Ok(size)
}}
fn ms_{m}(b: &[u8]) -> Result<usize, EncErr> {{
    let m = sut(|| <{p} as FromSlice>::from_slice(b)).map_err(|e| EncErr::Build(e.into()))?;
    let m = m.into_inner();
    sut(|| bp3d_proto::message::util::size_of(&m)).map_err(|e| EncErr::Write(e.into()))
}}
"
            );
        }
        let _ = writeln!(self.o, "pub static MSGS: &[MsgOps] = &[");
        for m in 0..self.s.msgs.len() {
            let msg = &self.s.msgs[m];
            let mut lists = String::new();
            for (n, f) in msg.fields.iter().enumerate() {
                let (array, view) = match f.kind {
                    MKind::Array { .. } => (true, "None".into()),
                    MKind::List { .. } => (false, format!("Some(lw_{m}_{n})")),
                    _ => continue,
                };
                let _ = write!(lists, "ListOps {{ field: {n}, array: {array}, builder: lb_{m}_{n}, from_parts: lp_{m}_{n}, view: {view} }}, ");
            }
            let _ = writeln!(
                self.o,
                "    MsgOps {{ name: \"{}\", idx: {m}, encode: e_{m}, size_of: sz_{m}, decode: d_{m}, decode_off: do_{m}, lists: &[{lists}], relay: rl_{m}, measure: ms_{m} }},",
                msg.name
            );
        }
        let _ = writeln!(self.o, "];");
    }
}

fn compile(protos: &[Proto], dir: &Path) -> Vec<PathBuf> {
    let out = dir.join("gen");
    let src = dir.join("schemas");
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).expect("output directory");
    std::fs::create_dir_all(&src).expect("schema directory");
    let mut paths = Vec::new();
    for (k, p) in protos.iter().enumerate() {
        let file = src.join(format!("{}.json5", p.name));
        std::fs::write(&file, p.json5()).expect("schema");
        let res = std::panic::catch_unwind(|| -> Result<Vec<PathBuf>, String> {
            let mut l = Loader::new();
            for q in &protos[..k] {
                l.import(src.join(format!("{}.json5", q.name)), format!("crate::gen::{}", q.name)).map_err(|e| format!("import: {e}"))?;
            }
            l.load(&file).map_err(|e| format!("load: {e}"))?;
            let c = l.compile(SimpleImportSolver::new("::")).map_err(|e| format!("compile: {e}"))?;
            let r = c.set_reads_messages(true).set_writes_messages(true).generate::<GeneratorRust>(&out).map_err(|e| format!("generate: {e}"))?;
            Ok(r.into_iter().map(|v| v.path).collect())
        });
        match res {
            Ok(Ok(v)) => paths.extend(v),
            Ok(Err(e)) => protoc_failed(format!("{}: {e}", file.display())),
            Err(_) => protoc_failed(format!("{}: panic", file.display())),
        }
    }
    paths
}

fn main() {
    println!("cargo:rerun-if-env-changed=SIM_SCHEMA_SEED");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("SIM_SCHEMA_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let dir = PathBuf::from(std::env::var("OUT_DIR").expect("OUT_DIR"));
    let protos = simcore::schemas::all(seed);
    let paths = compile(&protos, &dir);
    let mut g = Glue { s: Schema::resolve(protos), o: String::new() };
    let _ = writeln!(g.o, "pub const SCHEMA_SEED: u64 = {seed};");
    g.structs();
    g.unions();
    g.msgs();
    std::fs::write(dir.join("glue.rs"), &g.o).expect("glue");
    let mut m = String::new();
    for p in paths {
        let _ = writeln!(m, "include!({:?});", p.display().to_string());
    }
    std::fs::write(dir.join("gen_mod.rs"), m).expect("mod");
}

//! Schema model: what a schema file says, its JSON5 form, and its resolved form (layout) used by the
//! reference codec and by the glue generator. Shares no code with /repo.

use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Endian {
    Little,
    Big,
}

#[derive(Clone, Debug)]
pub enum Info {
    Signed(usize),
    Unsigned(usize),
    Float(usize),
    Bool(usize),
    Struct(String),
}

#[derive(Clone, Debug)]
pub enum View {
    None,
    Enum(String),
    Range(f64, f64),
    Mult(f64),
}

#[derive(Clone, Debug)]
pub struct SField {
    pub name: String,
    pub info: Info,
    pub view: View,
    pub array_len: usize,
}

#[derive(Clone, Debug)]
pub struct Struct {
    pub name: String,
    pub fields: Vec<SField>,
}

#[derive(Clone, Debug)]
pub struct Enum {
    pub name: String,
    pub variants: Vec<(String, u64)>,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub name: String,
    pub case: String,
    pub item: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Union {
    pub name: String,
    pub disc: String,
    pub cases: Vec<Case>,
}

#[derive(Clone, Debug)]
pub enum MInfo {
    Item(String),
    List(u64, String),
    Str(Option<u64>),
    Payload,
    Union(String, String),
}

#[derive(Clone, Debug)]
pub struct MField {
    pub name: String,
    pub info: MInfo,
    pub optional: bool,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub name: String,
    pub fields: Vec<MField>,
}

#[derive(Clone, Debug, Default)]
pub struct Proto {
    pub name: String,
    pub endian: Option<Endian>,
    pub imports: Vec<(String, String)>,
    pub enums: Vec<Enum>,
    pub structs: Vec<Struct>,
    pub unions: Vec<Union>,
    pub msgs: Vec<Msg>,
}

// ---------------------------------------------------------------------------------------------
// Builder helpers

pub fn f(name: &str, info: Info) -> SField {
    SField { name: name.into(), info, view: View::None, array_len: 1 }
}
pub fn u(name: &str, bits: usize) -> SField {
    f(name, Info::Unsigned(bits))
}
pub fn i(name: &str, bits: usize) -> SField {
    f(name, Info::Signed(bits))
}
pub fn fl(name: &str, bits: usize) -> SField {
    f(name, Info::Float(bits))
}
pub fn b(name: &str, bits: usize) -> SField {
    f(name, Info::Bool(bits))
}
pub fn sub(name: &str, ty: &str) -> SField {
    f(name, Info::Struct(ty.into()))
}
impl SField {
    pub fn en(mut self, e: &str) -> SField {
        self.view = View::Enum(e.into());
        self
    }
    pub fn range(mut self, lo: f64, hi: f64) -> SField {
        self.view = View::Range(lo, hi);
        self
    }
    pub fn mult(mut self, m: f64) -> SField {
        self.view = View::Mult(m);
        self
    }
    pub fn arr(mut self, n: usize) -> SField {
        self.array_len = n;
        self
    }
}
pub fn st(name: &str, fields: Vec<SField>) -> Struct {
    Struct { name: name.into(), fields }
}
pub fn en(name: &str, v: &[(&str, u64)]) -> Enum {
    Enum { name: name.into(), variants: v.iter().map(|(a, b)| (a.to_string(), *b)).collect() }
}
pub fn un(name: &str, disc: &str, cases: &[(&str, &str, &str)]) -> Union {
    Union {
        name: name.into(),
        disc: disc.into(),
        cases: cases
            .iter()
            .map(|(n, c, t)| Case {
                name: n.to_string(),
                case: c.to_string(),
                item: if t.is_empty() { None } else { Some(t.to_string()) },
            })
            .collect(),
    }
}
pub fn item(name: &str, ty: &str) -> MField {
    MField { name: name.into(), info: MInfo::Item(ty.into()), optional: false }
}
pub fn list(name: &str, max: u64, ty: &str) -> MField {
    MField { name: name.into(), info: MInfo::List(max, ty.into()), optional: false }
}
pub fn nul(name: &str) -> MField {
    MField { name: name.into(), info: MInfo::Str(None), optional: false }
}
pub fn vstr(name: &str, max: u64) -> MField {
    MField { name: name.into(), info: MInfo::Str(Some(max)), optional: false }
}
pub fn payload(name: &str) -> MField {
    MField { name: name.into(), info: MInfo::Payload, optional: false }
}
pub fn union(name: &str, on: &str, ty: &str) -> MField {
    MField { name: name.into(), info: MInfo::Union(on.into(), ty.into()), optional: false }
}
impl MField {
    pub fn opt(mut self) -> MField {
        self.optional = true;
        self
    }
}
pub fn msg(name: &str, fields: Vec<MField>) -> Msg {
    Msg { name: name.into(), fields }
}

// ---------------------------------------------------------------------------------------------
// JSON5 form

fn num(v: f64) -> String {
    format!("{:?}", v)
}

impl Proto {
    pub fn json5(&self) -> String {
        let mut s = String::new();
        let _ = write!(s, "{{\n    name: \"{}\"", self.name);
        match self.endian {
            Some(Endian::Little) => s += ",\n    endianness: \"little\"",
            Some(Endian::Big) => s += ",\n    endianness: \"big\"",
            None => {}
        }
        if !self.imports.is_empty() {
            s += ",\n    imports: [\n";
            for (p, t) in &self.imports {
                let _ = write!(s, "        {{ protocol: \"{p}\", type: \"{t}\" }},\n");
            }
            s += "    ]";
        }
        if !self.enums.is_empty() {
            s += ",\n    enums: [\n";
            for e in &self.enums {
                let _ = write!(s, "        {{ name: \"{}\", variants: {{ ", e.name);
                for (i, (k, v)) in e.variants.iter().enumerate() {
                    let _ = write!(s, "{}{k}: {v}", if i > 0 { ", " } else { "" });
                }
                s += " } },\n";
            }
            s += "    ]";
        }
        if !self.structs.is_empty() {
            s += ",\n    structs: [\n";
            for e in &self.structs {
                let _ = write!(s, "        {{ name: \"{}\", fields: [\n", e.name);
                for v in &e.fields {
                    let _ = write!(s, "            {{ name: \"{}\", info: ", v.name);
                    let _ = match &v.info {
                        Info::Signed(b) => write!(s, "{{ type: \"signed\", bits: {b} }}"),
                        Info::Unsigned(b) => write!(s, "{{ type: \"unsigned\", bits: {b} }}"),
                        Info::Float(b) => write!(s, "{{ type: \"float\", bits: {b} }}"),
                        Info::Bool(b) => write!(s, "{{ type: \"boolean\", bits: {b} }}"),
                        Info::Struct(t) => write!(s, "{{ type: \"struct\", item_type: \"{t}\" }}"),
                    };
                    let _ = match &v.view {
                        View::None => Ok(()),
                        View::Enum(n) => write!(s, ", view: {{ type: \"enum\", name: \"{n}\" }}"),
                        View::Range(a, b) => write!(s, ", view: {{ type: \"float-range\", min: {}, max: {} }}", num(*a), num(*b)),
                        View::Mult(m) => write!(s, ", view: {{ type: \"float-multiplier\", multiplier: {} }}", num(*m)),
                    };
                    if v.array_len != 1 {
                        let _ = write!(s, ", array_len: {}", v.array_len);
                    }
                    s += " },\n";
                }
                s += "        ] },\n";
            }
            s += "    ]";
        }
        if !self.unions.is_empty() {
            s += ",\n    unions: [\n";
            for e in &self.unions {
                let _ = write!(s, "        {{ name: \"{}\", discriminant: \"{}\", cases: [\n", e.name, e.disc);
                for v in &e.cases {
                    let _ = write!(s, "            {{ name: \"{}\", case: \"{}\"", v.name, v.case);
                    if let Some(t) = &v.item {
                        let _ = write!(s, ", item_type: \"{t}\"");
                    }
                    s += " },\n";
                }
                s += "        ] },\n";
            }
            s += "    ]";
        }
        if !self.msgs.is_empty() {
            s += ",\n    messages: [\n";
            for e in &self.msgs {
                let _ = write!(s, "        {{ name: \"{}\", fields: [\n", e.name);
                for v in &e.fields {
                    let _ = write!(s, "            {{ name: \"{}\", info: ", v.name);
                    let _ = match &v.info {
                        MInfo::Item(t) => write!(s, "{{ type: \"item\", item_type: \"{t}\" }}"),
                        MInfo::List(m, t) => write!(s, "{{ type: \"list\", max_len: {m}, item_type: \"{t}\" }}"),
                        MInfo::Str(None) => write!(s, "{{ type: \"string\" }}"),
                        MInfo::Str(Some(m)) => write!(s, "{{ type: \"string\", max_len: {m} }}"),
                        MInfo::Payload => write!(s, "{{ type: \"payload\" }}"),
                        MInfo::Union(on, t) => write!(s, "{{ type: \"union\", on: \"{on}\", item_type: \"{t}\" }}"),
                    };
                    if v.optional {
                        s += ", optional: true";
                    }
                    s += " },\n";
                }
                s += "        ] },\n";
            }
            s += "    ]";
        }
        s += "\n}\n";
        s
    }
}

// ---------------------------------------------------------------------------------------------
// Resolved form

/// Native type a field is exposed as.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    U(usize),
    I(usize),
    F32,
    F64,
    Bool,
}

impl Ty {
    pub fn bytes(self) -> usize {
        match self {
            Ty::U(b) | Ty::I(b) => b / 8,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Bool => 1,
        }
    }

    pub fn rust(self) -> String {
        match self {
            Ty::U(b) => format!("u{b}"),
            Ty::I(b) => format!("i{b}"),
            Ty::F32 => "f32".into(),
            Ty::F64 => "f64".into(),
            Ty::Bool => "bool".into(),
        }
    }
}

pub fn word(bits: usize) -> usize {
    match bits {
        0..=8 => 8,
        9..=16 => 16,
        17..=32 => 32,
        _ => 64,
    }
}

fn native(info: &Info) -> Ty {
    match info {
        Info::Signed(b) => Ty::I(word(*b)),
        Info::Unsigned(b) => Ty::U(word(*b)),
        Info::Bool(_) => Ty::Bool,
        Info::Float(32) => Ty::F32,
        Info::Float(b) if *b <= 16 => Ty::F32,
        Info::Float(_) => Ty::F64,
        Info::Struct(_) => unreachable!(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum RView {
    /// Unsigned value as is.
    None,
    /// Two's complement in `bits` bits.
    Signed,
    Bool,
    /// IEEE bits.
    Float,
    Range(f64, f64),
    Mult(f64),
    Enum(usize),
}

#[derive(Clone, Debug)]
pub enum RKind {
    Fixed { ty: Ty, view: RView },
    Array { ty: Ty, len: usize, item_bits: usize },
    Struct(usize),
}

#[derive(Clone, Debug)]
pub struct RField {
    pub name: String,
    pub bit_off: usize,
    pub bits: usize,
    pub endian: Endian,
    pub kind: RKind,
}

#[derive(Clone, Debug)]
pub struct RStruct {
    pub proto: usize,
    pub name: String,
    pub fields: Vec<RField>,
    pub bits: usize,
    pub bytes: usize,
}

#[derive(Clone, Debug)]
pub struct REnum {
    pub proto: usize,
    pub name: String,
    pub variants: Vec<(String, u64)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RRef {
    Struct(usize),
    Msg(usize),
}

#[derive(Clone, Debug)]
pub struct RCase {
    pub name: String,
    pub value: u64,
    pub item: Option<RRef>,
}

#[derive(Clone, Debug)]
pub struct RUnion {
    pub proto: usize,
    pub name: String,
    pub root: usize,
    /// Field indices from the root structure to the discriminant field.
    pub path: Vec<usize>,
    pub cases: Vec<RCase>,
}

#[derive(Clone, Debug)]
pub enum MKind {
    Fixed { ty: Ty },
    Struct(usize),
    Msg(usize),
    Nul,
    Var { prefix: usize },
    Array { prefix: usize, item: usize },
    List { prefix: usize, item: usize, delimited: bool },
    Union { union: usize, on: usize },
    Payload,
}

#[derive(Clone, Debug)]
pub struct RMField {
    pub name: String,
    pub optional: bool,
    pub endian: Endian,
    pub kind: MKind,
}

#[derive(Clone, Debug)]
pub struct RMsg {
    pub proto: usize,
    pub name: String,
    pub fields: Vec<RMField>,
    /// Used (directly or through nesting) as an item of a list of its own protocol: its lists are delimited.
    pub embedded: bool,
    /// The end of the message follows from its own content.
    pub delimited: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub protos: Vec<Proto>,
    pub structs: Vec<RStruct>,
    pub enums: Vec<REnum>,
    pub unions: Vec<RUnion>,
    pub msgs: Vec<RMsg>,
}

#[derive(Clone, Copy)]
enum Any {
    E(usize),
    S(usize),
    U(usize),
    M(usize),
}

fn prefix_bytes(max: u64) -> usize {
    if max > u32::MAX as u64 {
        8
    } else if max > u16::MAX as u64 {
        4
    } else if max > u8::MAX as u64 {
        2
    } else {
        1
    }
}

impl Schema {
    pub fn resolve(protos: Vec<Proto>) -> Schema {
        let mut s = Schema::default();
        let mut names: Vec<BTreeMap<String, Any>> = Vec::new();
        for (pi, p) in protos.iter().enumerate() {
            let mut scope: BTreeMap<String, Any> = BTreeMap::new();
            let endian = p.endian.unwrap_or(Endian::Little);
            for (from, ty) in &p.imports {
                let k = protos.iter().position(|v| &v.name == from).expect("import");
                scope.insert(ty.clone(), names[k][ty]);
            }
            for e in &p.enums {
                let mut variants = e.variants.clone();
                variants.sort_by_key(|v| v.1);
                scope.insert(e.name.clone(), Any::E(s.enums.len()));
                s.enums.push(REnum { proto: pi, name: e.name.clone(), variants });
            }
            for e in &p.structs {
                let mut off = 0;
                let mut fields = Vec::new();
                for v in &e.fields {
                    let (kind, bits) = match &v.info {
                        Info::Struct(t) => match scope[t] {
                            Any::S(k) => (RKind::Struct(k), s.structs[k].bits),
                            _ => panic!("not a struct"),
                        },
                        Info::Signed(b) | Info::Unsigned(b) | Info::Float(b) | Info::Bool(b) => {
                            let ty = native(&v.info);
                            if v.array_len > 1 {
                                (RKind::Array { ty, len: v.array_len, item_bits: *b }, b * v.array_len)
                            } else {
                                let view = match (&v.view, &v.info) {
                                    (View::Enum(n), _) => match scope[n] {
                                        Any::E(k) => RView::Enum(k),
                                        _ => panic!("not an enum"),
                                    },
                                    (View::Range(a, b), _) => RView::Range(*a, *b),
                                    (View::Mult(m), _) => RView::Mult(*m),
                                    (View::None, Info::Signed(_)) => RView::Signed,
                                    (View::None, Info::Unsigned(_)) => RView::None,
                                    (View::None, Info::Float(_)) => RView::Float,
                                    (View::None, Info::Bool(_)) => RView::Bool,
                                    _ => unreachable!(),
                                };
                                (RKind::Fixed { ty, view }, *b)
                            }
                        }
                    };
                    fields.push(RField { name: v.name.clone(), bit_off: off, bits, endian, kind });
                    off += bits;
                }
                scope.insert(e.name.clone(), Any::S(s.structs.len()));
                s.structs.push(RStruct { proto: pi, name: e.name.clone(), fields, bits: off, bytes: (off + 7) / 8 });
            }
            let lookup = |scope: &BTreeMap<String, Any>, n: &str| match scope[n] {
                Any::S(k) => RRef::Struct(k),
                Any::M(k) => RRef::Msg(k),
                _ => panic!("not a struct or message: {n}"),
            };
            // The compiler resolves unions before messages, so cases only see structs and imported types.
            for e in &p.unions {
                let mut parts = e.disc.split('.');
                let root = match scope[parts.next().unwrap()] {
                    Any::S(k) => k,
                    _ => panic!("discriminant root"),
                };
                let mut leaf = root;
                let mut path = Vec::new();
                let mut view = None;
                for n in parts {
                    let k = s.structs[leaf].fields.iter().position(|v| v.name == n).expect("discriminant path");
                    path.push(k);
                    match &s.structs[leaf].fields[k].kind {
                        RKind::Struct(t) => leaf = *t,
                        RKind::Fixed { view: v, .. } => view = Some(v.clone()),
                        RKind::Array { .. } => panic!("discriminant array"),
                    }
                }
                let cases = e
                    .cases
                    .iter()
                    .map(|c| RCase {
                        name: c.name.clone(),
                        value: match view.as_ref().unwrap() {
                            RView::Enum(k) => s.enums[*k].variants.iter().find(|v| v.0 == c.case).expect("case").1,
                            _ => c.case.parse().expect("case"),
                        },
                        item: c.item.as_ref().map(|t| lookup(&scope, t)),
                    })
                    .collect();
                scope.insert(e.name.clone(), Any::U(s.unions.len()));
                s.unions.push(RUnion { proto: pi, name: e.name.clone(), root, path, cases });
            }
            for e in &p.msgs {
                let mut fields: Vec<RMField> = Vec::new();
                for v in &e.fields {
                    let kind = match &v.info {
                        MInfo::Item(t) => match lookup(&scope, t) {
                            RRef::Msg(k) => MKind::Msg(k),
                            RRef::Struct(k) => match s.inlined(k) {
                                Some(ty) => MKind::Fixed { ty },
                                None => MKind::Struct(k),
                            },
                        },
                        MInfo::List(max, t) => match lookup(&scope, t) {
                            RRef::Struct(k) => MKind::Array { prefix: prefix_bytes(*max), item: k },
                            RRef::Msg(k) => MKind::List { prefix: prefix_bytes(*max), item: k, delimited: false },
                        },
                        MInfo::Str(None) => MKind::Nul,
                        MInfo::Str(Some(max)) => MKind::Var { prefix: prefix_bytes(*max) },
                        MInfo::Payload => MKind::Payload,
                        MInfo::Union(on, t) => MKind::Union {
                            on: fields.iter().position(|f| &f.name == on).expect("union on"),
                            union: match scope[t] {
                                Any::U(k) => k,
                                _ => panic!("not a union"),
                            },
                        },
                    };
                    fields.push(RMField { name: v.name.clone(), optional: v.optional, endian, kind });
                }
                scope.insert(e.name.clone(), Any::M(s.msgs.len()));
                s.msgs.push(RMsg { proto: pi, name: e.name.clone(), fields, embedded: false, delimited: false });
            }
            names.push(scope);
        }
        s.protos = protos;
        // A list item, and everything nested in one, has to carry its own end.
        let mut work: Vec<(usize, usize)> = Vec::new();
        for m in &s.msgs {
            for f in &m.fields {
                if let MKind::List { item, .. } = f.kind {
                    work.push((m.proto, item));
                }
            }
        }
        while let Some((p, k)) = work.pop() {
            // Imported messages keep the form they were generated with.
            if s.msgs[k].proto != p || s.msgs[k].embedded {
                continue;
            }
            s.msgs[k].embedded = true;
            for f in s.msgs[k].fields.clone() {
                match f.kind {
                    MKind::Msg(n) => work.push((p, n)),
                    MKind::Union { union, .. } => {
                        for c in &s.unions[union].cases {
                            if let Some(RRef::Msg(n)) = c.item {
                                work.push((p, n));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        for k in 0..s.msgs.len() {
            let emb = s.msgs[k].embedded;
            for f in &mut s.msgs[k].fields {
                if let MKind::List { delimited, .. } = &mut f.kind {
                    *delimited = emb;
                }
            }
        }
        for k in 0..s.msgs.len() {
            s.msgs[k].delimited = s.msg_delimited(k);
        }
        s
    }

    fn inlined(&self, k: usize) -> Option<Ty> {
        let st = &self.structs[k];
        if st.fields.len() != 1 || st.fields[0].bits % 8 != 0 {
            return None;
        }
        match &st.fields[0].kind {
            RKind::Fixed { ty, view: RView::None | RView::Bool | RView::Float } => Some(*ty),
            RKind::Fixed { ty, view: RView::Signed } if matches!(st.fields[0].bits, 8 | 16 | 32 | 64) => Some(*ty),
            _ => None,
        }
    }

    fn msg_delimited(&self, k: usize) -> bool {
        self.msgs[k].fields.iter().all(|f| match &f.kind {
            MKind::Payload => false,
            MKind::List { delimited, .. } => *delimited,
            MKind::Msg(n) => self.msg_delimited(*n),
            MKind::Union { union, .. } => self.unions[*union].cases.iter().all(|c| match c.item {
                Some(RRef::Msg(n)) => self.msg_delimited(n),
                _ => true,
            }),
            _ => true,
        })
    }

    pub fn proto_name(&self, k: usize) -> &str {
        &self.protos[k].name
    }

    /// Smallest encoding of a message, in bytes.
    pub fn min_size(&self, k: usize) -> usize {
        self.msgs[k]
            .fields
            .iter()
            .map(|f| {
                if f.optional {
                    return 1;
                }
                match &f.kind {
                    MKind::Fixed { ty } => ty.bytes(),
                    MKind::Struct(s) => self.structs[*s].bytes,
                    MKind::Msg(m) => self.min_size(*m),
                    MKind::Nul => 1,
                    MKind::Var { prefix } | MKind::Array { prefix, .. } | MKind::List { prefix, .. } => *prefix,
                    MKind::Union { .. } | MKind::Payload => 0,
                }
            })
            .sum()
    }

    /// The discriminant field of a union inside its root structure: (bit offset, bits, endian).
    pub fn disc_loc(&self, u: usize) -> (usize, usize, Endian) {
        let un = &self.unions[u];
        self.path_loc(un.root, &un.path)
    }

    pub fn path_loc(&self, root: usize, path: &[usize]) -> (usize, usize, Endian) {
        let mut off = 0;
        let mut cur = root;
        for (n, k) in path.iter().enumerate() {
            let f = &self.structs[cur].fields[*k];
            off += f.bit_off;
            if n + 1 == path.len() {
                return (off, f.bits, f.endian);
            }
            match f.kind {
                RKind::Struct(t) => cur = t,
                _ => unreachable!(),
            }
        }
        unreachable!()
    }
}

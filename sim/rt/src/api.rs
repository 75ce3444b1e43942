//! Bridge between schema-independent values and the generated types. The generated glue (build.rs) fills it in.

use bp3d_proto::message::Error;
use simcore::refcodec::{DErr, ListVal, Off, Seen, Val};
use simcore::sut::{host, sut};
use std::any::Any;
use std::cell::RefCell;
use std::io::Write;
use std::sync::Arc;

#[derive(Debug)]
pub enum SutErr {
    Truncated,
    Utf8,
    Disc(u64),
    Io(std::io::Error),
}

impl From<Error> for SutErr {
    fn from(e: Error) -> SutErr {
        match e {
            Error::InvalidUtf8 => SutErr::Utf8,
            Error::Truncated => SutErr::Truncated,
            Error::InvalidUnionDiscriminant(v) => SutErr::Disc(v as u64),
            Error::Io(e) => SutErr::Io(e),
        }
    }
}

impl SutErr {
    pub fn derr(&self) -> DErr {
        match self {
            SutErr::Truncated => DErr::Truncated,
            SutErr::Utf8 => DErr::Utf8,
            SutErr::Disc(v) => DErr::Disc(*v),
            SutErr::Io(e) => DErr::Io(format!("{:?}", e.kind())),
        }
    }
}

pub type Res<T> = Result<T, SutErr>;

// ---------------------------------------------------------------------------------------------
// Arena: what built messages borrow from.

#[derive(Default)]
pub struct Arena {
    keep: RefCell<Vec<Box<dyn Any>>>,
}

impl Arena {
    pub fn new() -> Arena {
        Arena::default()
    }

    pub fn keep<T: 'static>(&self, v: T) -> &T {
        host(|| {
            let b = Box::new(v);
            let p: *const T = &*b;
            self.keep.borrow_mut().push(b);
            // The box is never dropped or moved out of before the arena is.
            unsafe { &*p }
        })
    }

    pub fn bytes(&self, v: &[u8]) -> &[u8] {
        self.keep(v.to_vec())
    }

    /// Structures are given more bytes than they need: only their own may be used.
    pub fn st(&self, v: &Val) -> &[u8] {
        match v {
            Val::Struct(b) => {
                let mut b = b.clone();
                b.extend_from_slice(&[0xEE, 0xDD]);
                self.keep(b)
            }
            v => panic!("structure expected: {v:?}"),
        }
    }

    pub fn st_bytes(&self, b: &[u8]) -> &[u8] {
        let mut b = b.to_vec();
        b.extend_from_slice(&[0xEE, 0xDD]);
        self.keep(b)
    }

    pub fn str(&self, v: &Val) -> &str {
        match v {
            Val::Str(s) => self.keep(s.clone()).as_str(),
            v => panic!("string expected: {v:?}"),
        }
    }

    pub fn payload(&self, v: &Val) -> &[u8] {
        match v {
            Val::Payload(b) => self.bytes(b),
            v => panic!("payload expected: {v:?}"),
        }
    }
}

pub fn fixed(v: &Val) -> u64 {
    match v {
        Val::Fixed(v) => *v,
        v => panic!("fixed field expected: {v:?}"),
    }
}

pub fn fields(v: &Val) -> &[Val] {
    match v {
        Val::Msg(v) => v,
        v => panic!("message expected: {v:?}"),
    }
}

pub fn arr_items(v: &Val) -> &[Vec<u8>] {
    match v {
        Val::Arr(v) => v,
        v => panic!("array expected: {v:?}"),
    }
}

pub fn list_items(v: &Val) -> &[Val] {
    match v {
        Val::List(v) => &v.items,
        v => panic!("list expected: {v:?}"),
    }
}

pub fn opt(v: &Val) -> Option<&Val> {
    match v {
        Val::Opt(v) => v.as_deref(),
        v => panic!("optional expected: {v:?}"),
    }
}

pub trait Raw: Copy {
    fn raw(self) -> u64;
    fn from_raw(v: u64) -> Self;
    fn seen(self) -> Seen;
    fn from_seen(v: Seen) -> Self;
}

macro_rules! raw_u {
    ($($t: ty)*) => { $(
        impl Raw for $t {
            fn raw(self) -> u64 { self as u64 }
            fn from_raw(v: u64) -> Self { v as $t }
            fn seen(self) -> Seen { Seen::U(self as u64) }
            fn from_seen(v: Seen) -> Self { match v { Seen::U(v) => v as $t, v => panic!("{v:?}") } }
        }
    )* };
}
macro_rules! raw_i {
    ($($t: ty: $u: ty)*) => { $(
        impl Raw for $t {
            fn raw(self) -> u64 { self as $u as u64 }
            fn from_raw(v: u64) -> Self { v as $t }
            fn seen(self) -> Seen { Seen::I(self as i64) }
            fn from_seen(v: Seen) -> Self { match v { Seen::I(v) => v as $t, v => panic!("{v:?}") } }
        }
    )* };
}
raw_u!(u8 u16 u32 u64);
raw_i!(i8: u8 i16: u16 i32: u32 i64: u64);
impl Raw for f32 {
    fn raw(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_raw(v: u64) -> f32 {
        f32::from_bits(v as u32)
    }
    fn seen(self) -> Seen {
        Seen::F32(self.to_bits())
    }
    fn from_seen(v: Seen) -> f32 {
        match v {
            Seen::F32(v) => f32::from_bits(v),
            v => panic!("{v:?}"),
        }
    }
}
impl Raw for f64 {
    fn raw(self) -> u64 {
        self.to_bits()
    }
    fn from_raw(v: u64) -> f64 {
        f64::from_bits(v)
    }
    fn seen(self) -> Seen {
        Seen::F64(self.to_bits())
    }
    fn from_seen(v: Seen) -> f64 {
        match v {
            Seen::F64(v) => f64::from_bits(v),
            v => panic!("{v:?}"),
        }
    }
}
impl Raw for bool {
    fn raw(self) -> u64 {
        self as u64
    }
    fn from_raw(v: u64) -> bool {
        v != 0
    }
    fn seen(self) -> Seen {
        Seen::B(self)
    }
    fn from_seen(v: Seen) -> bool {
        match v {
            Seen::B(v) => v,
            v => panic!("{v:?}"),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Walking decoded values

/// The extent of a field, by its ends and by the size it says it has.
pub fn extent(o: &bp3d_proto::message::FieldOffset) -> (usize, usize) {
    match o.end < o.start || o.size() == o.end - o.start {
        true => (o.start, o.end),
        false => (o.start, o.start.wrapping_add(o.size())),
    }
}

#[derive(Default)]
pub struct Walk {
    /// Contradictions between different ways to read the same thing.
    pub problems: Vec<(&'static str, String)>,
    /// Bound on list entries: no list of the input can hold more items than bytes.
    pub budget: usize,
    /// Read lists also through `iter_offsets`.
    pub offsets: bool,
}

impl Walk {
    pub fn new(input: usize) -> Walk {
        Walk { problems: Vec::new(), budget: input + 16, offsets: false }
    }

    pub fn problem(&mut self, class: &'static str, d: String) {
        host(|| {
            if self.problems.len() < 8 {
                self.problems.push((class, d))
            }
        })
    }

    pub fn list<T>(&mut self, declared: usize, mut next: impl FnMut() -> Option<Result<T, Error>>, mut conv: impl FnMut(T, &mut Walk) -> Val) -> ListVal {
        let mut l = ListVal { declared: declared as u64, items: Vec::new(), err: None };
        let mut n = 0usize;
        loop {
            match sut(&mut next) {
                None => {
                    if (n as u64) < declared as u64 && l.err.is_none() {
                        self.problem("iter-short", format!("iterator ended after {n} of {declared} items without an error"));
                    }
                    return l;
                }
                Some(r) => {
                    n += 1;
                    if n > declared {
                        self.problem("iter-more-than-declared", format!("iterator yielded more than the declared {declared} entries"));
                        return l;
                    }
                    if l.err.is_some() {
                        self.problem("iter-after-error", "iterator yielded another entry after an error".into());
                        return l;
                    }
                    if n > self.budget {
                        self.problem("iter-unbounded", format!("{n} entries from {} bytes", self.budget));
                        return l;
                    }
                    match r {
                        Ok(v) => {
                            let v = conv(v, self);
                            l.items.push(v);
                        }
                        Err(e) => l.err = Some(SutErr::from(e).derr()),
                    }
                }
            }
        }
    }
}

/// Bytes of a structure view, through its own encoder.
pub fn st_val<S: bp3d_proto::message::WriteTo<Input = S>>(s: &S) -> Vec<u8> {
    // The buffer is the harness's own: it does not count as an allocation of the library.
    let mut v = Vec::with_capacity(512);
    sut(|| S::write_to(s, &mut v)).expect("structure to memory");
    v
}

// ---------------------------------------------------------------------------------------------
// Buffers owned by the simulator

pub trait BufHook: Send + Sync {
    fn write(&self, data: &mut Vec<u8>, buf: &[u8]) -> std::io::Result<usize>;
    fn flush(&self) -> std::io::Result<()> {
        Ok(())
    }
    /// Called before the library gets hold of the bytes.
    fn touch(&self, _mutable: bool) {}
}

pub struct PlainHook;
impl BufHook for PlainHook {
    fn write(&self, data: &mut Vec<u8>, buf: &[u8]) -> std::io::Result<usize> {
        data.extend_from_slice(buf);
        Ok(buf.len())
    }
}

/// A caller-supplied buffer: growable, readable and writable in place, every call goes through the simulator.
pub struct SimBuf {
    pub data: Vec<u8>,
    pub hook: Arc<dyn BufHook>,
}

impl SimBuf {
    pub fn new(hook: Arc<dyn BufHook>) -> SimBuf {
        SimBuf { data: Vec::new(), hook }
    }
    pub fn plain(data: Vec<u8>) -> SimBuf {
        SimBuf { data, hook: Arc::new(PlainHook) }
    }
}

impl Write for SimBuf {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        host(|| self.hook.write(&mut self.data, buf))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        host(|| self.hook.flush())
    }
}

impl AsRef<[u8]> for SimBuf {
    fn as_ref(&self) -> &[u8] {
        host(|| self.hook.touch(false));
        &self.data
    }
}

impl AsMut<[u8]> for SimBuf {
    fn as_mut(&mut self) -> &mut [u8] {
        host(|| self.hook.touch(true));
        &mut self.data
    }
}

// ---------------------------------------------------------------------------------------------
// Structures

#[derive(Clone, Debug)]
pub enum ROp {
    Raw,
    View,
    Item(usize),
    Len,
    /// All items through the iterator.
    Iter,
    /// Byte arrays only: the slice behind the array.
    Bytes,
}

#[derive(Clone, Debug)]
pub enum WOp {
    Raw(u64),
    View(Seen),
    Item(usize, u64),
    /// Several items through one codec (chained setters).
    Items(Vec<(usize, u64)>),
    /// Byte arrays only.
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Raw(u64),
    View(Seen),
    Len(usize),
    Many(Vec<u64>),
    Bytes(Vec<u8>),
    No,
}

/// A structure over some buffer.
pub trait Reg {
    fn read(&self, path: &[usize], op: &ROp) -> Got;
    fn write(&mut self, path: &[usize], op: &WOp) -> bool;
}

pub struct StructOps {
    pub name: &'static str,
    pub idx: usize,
    pub size_const: usize,
    pub fixed_size: usize,
    /// Structure over a caller-supplied buffer.
    pub reg: fn(SimBuf) -> Box<dyn Reg + Send>,
    /// Structure over borrowed bytes.
    pub with: for<'x> fn(&'x mut [u8]) -> Box<dyn Reg + 'x>,
    /// Reading only, over borrowed bytes.
    pub read: fn(&[u8], &[usize], &ROp) -> Got,
    /// `from_slice`: bytes of the view and reported size.
    pub from_slice: fn(&[u8]) -> Res<(Vec<u8>, usize)>,
    pub write_to: fn(&[u8], &mut dyn Write) -> Res<()>,
    pub on_stack: fn() -> Vec<u8>,
}

// ---------------------------------------------------------------------------------------------
// Lists and arrays under construction

pub trait Builder {
    fn push(&mut self, v: &Val) -> Res<()>;
    fn push_many(&mut self, v: &[Val]) -> Res<()>;
    fn len(&self) -> usize;
    fn write(&self, out: &mut dyn Write) -> Res<()>;
    /// Size query.
    fn size(&self) -> Res<usize>;
    /// Read everything back.
    fn items(&self) -> (ListVal, Vec<(&'static str, String)>);
    /// Arrays: one item as a register.
    fn item_read(&self, _i: usize, _path: &[usize], _op: &ROp) -> Got {
        Got::No
    }
    fn item_write(&mut self, _i: usize, _path: &[usize], _op: &WOp) -> bool {
        false
    }
    /// Arrays: the same field of consecutive items, through the mutable iterator.
    fn items_write(&mut self, _from: usize, _path: &[usize], _ops: &[WOp]) -> usize {
        0
    }
    /// Arrays: the number of items the mutable iterator says it has.
    fn items_mut(&mut self) -> usize {
        0
    }
}

/// What a consumer does with the rest of an iterator.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Take {
    Count,
    Last,
    Nth(usize),
    All,
}

/// What it saw.
pub struct Seen2<T> {
    pub first: Vec<T>,
    pub hints: Vec<(usize, Option<usize>)>,
    pub count: usize,
    pub rest: Vec<T>,
}

/// Run an iterator through the methods it may override.
/// Entries looked at when all are consumed at once; the others are counted.
const KEPT: usize = 1 << 16;

pub fn adapt<X, T, I: Iterator<Item = X>>(mut it: I, first: usize, how: Take, conv: impl Fn(X) -> T) -> Seen2<T> {
    let mut s = Seen2 { first: vec![], hints: vec![], count: 0, rest: vec![] };
    s.hints.push(sut(|| it.size_hint()));
    for _ in 0..first {
        match sut(|| it.next()) {
            Some(v) => s.first.push(conv(v)),
            None => break,
        }
        s.hints.push(sut(|| it.size_hint()));
    }
    match how {
        Take::Count => s.count = sut(|| it.count()),
        Take::Last => s.rest.extend(sut(|| it.last()).map(conv)),
        Take::Nth(n) => s.rest.extend(sut(|| it.nth(n)).map(conv)),
        Take::All => {
            let (l, n) = sut(|| {
                it.fold((Vec::new(), 0), |(mut l, n), v| {
                    if l.len() < KEPT {
                        l.push(v);
                    }
                    (l, n + 1)
                })
            });
            s.count = n;
            s.rest.extend(l.into_iter().map(conv));
        }
    }
    s
}

impl<T: PartialEq + Clone + std::fmt::Debug> Seen2<T> {
    /// The entries are known: what should have been seen?
    pub fn check(&self, entries: &[T], first: usize, how: Take) -> Option<String> {
        let first = first.min(entries.len());
        let left = &entries[first..];
        if self.first != entries[..first] {
            return Some(format!("first {first} entries are {:?}, expected {:?}", self.first, &entries[..first]));
        }
        for (k, (lo, hi)) in self.hints.iter().enumerate() {
            let n = entries.len() - k.min(entries.len());
            if *lo > n || hi.is_some_and(|hi| hi < n) {
                return Some(format!("after {k} entries size_hint() is {lo}..{hi:?} with {n} to come"));
            }
        }
        let want: Vec<T> = match how {
            Take::Count => {
                return if self.count == left.len() { None } else { Some(format!("after {first} entries count() is {}, {} are to come", self.count, left.len())) };
            }
            Take::Last => left.last().cloned().into_iter().collect(),
            Take::Nth(n) => left.get(n).cloned().into_iter().collect(),
            Take::All => {
                if self.count != left.len() {
                    return Some(format!("after {first} entries {} more are seen, {} are to come", self.count, left.len()));
                }
                left[..left.len().min(KEPT)].to_vec()
            }
        };
        if self.rest != want {
            return Some(format!("after {first} entries {how:?} gives {:?}, expected {want:?}", self.rest));
        }
        None
    }
}

pub trait ListView {
    /// A fresh iterator (with offsets), some entries, then one of the consuming methods.
    fn adapt(&self, offsets: bool, first: usize, how: Take) -> Seen2<Res<(Val, Option<Off>)>>;
    fn len(&self) -> usize;
    fn iter<'s>(&'s self) -> Box<dyn Iterator<Item = Res<(Val, Option<Off>)>> + 's>;
    fn iter_offsets<'s>(&'s self) -> Box<dyn Iterator<Item = Res<(Val, Option<Off>)>> + 's>;
}

pub struct ListOps {
    /// Index of the field in the message.
    pub field: usize,
    /// Array of structures or list of messages.
    pub array: bool,
    pub builder: fn(SimBuf) -> Box<dyn Builder>,
    /// Arrays: view existing bytes as that many items.
    pub from_parts: fn(SimBuf, usize) -> Option<Box<dyn Builder>>,
    /// Lists: decode the message and look at the list in this field.
    pub view: Option<for<'x, 'y> fn(&'x [u8], &'y mut dyn FnMut(&dyn ListView)) -> Res<()>>,
}

// ---------------------------------------------------------------------------------------------
// Messages and unions

pub struct MsgOps {
    pub name: &'static str,
    pub idx: usize,
    /// Build (lists through the list builders) and write; a failing build is `Err(Err(e))`.
    pub encode: fn(&Val, &mut dyn Write) -> Result<(), EncErr>,
    pub size_of: fn(&Val) -> Result<usize, EncErr>,
    pub decode: fn(&[u8], &mut Walk) -> Res<(Val, usize)>,
    pub decode_off: fn(&[u8], &mut Walk) -> Res<(Val, usize, Off)>,
    pub lists: &'static [ListOps],
    /// Decode and write the decoded value again.
    pub relay: fn(&[u8], &mut dyn Write) -> Result<usize, EncErr>,
    /// Decode and measure the decoded value.
    pub measure: fn(&[u8]) -> Result<usize, EncErr>,
}

#[derive(Debug)]
pub enum EncErr {
    /// While building the value (appending items to its lists).
    Build(SutErr),
    /// While measuring or writing it.
    Write(SutErr),
}

impl EncErr {
    pub fn inner(&self) -> &SutErr {
        match self {
            EncErr::Build(e) | EncErr::Write(e) => e,
        }
    }
}

pub struct UnionOps {
    pub name: &'static str,
    pub idx: usize,
    /// Store the discriminant of a value into (a copy of) the root structure.
    pub set_disc: fn(&Val, &mut [u8]) -> Res<()>,
    pub decode: fn(&[u8], &[u8], &mut Walk) -> Res<(Val, usize)>,
    pub write: fn(&Val, &[u8], &mut dyn Write) -> Result<(), EncErr>,
}

// ---------------------------------------------------------------------------------------------
// Helpers of the glue

use bp3d_proto::message::util::Array;
use bp3d_proto::message::WriteTo;
use bp3d_proto::util::FixedSize;

pub fn size_ref<T: WriteTo<Input = T>>(v: &T) -> Res<usize> {
    Ok(sut(|| bp3d_proto::message::util::size_of(v))?)
}

pub fn write_ref<T: WriteTo<Input = T>>(v: &T, out: &mut dyn Write) -> Res<()> {
    sut(|| T::write_to(v, out))?;
    Ok(())
}

/// Items of a decoded array, read in every way there is.
pub fn arr_val<'a, T, I, S: FixedSize + From<&'a [u8]> + WriteTo<Input = S>>(a: &'a Array<&'a [u8], T, I>, w: &mut Walk) -> Val {
    let n = sut(|| a.len());
    let mut items = Vec::new();
    let mut it = sut(|| a.iter::<S>());
    while let Some(s) = sut(|| it.next()) {
        if items.len() >= n || items.len() > w.budget {
            w.problem("array-iter", format!("array of {n} items iterates over more than {} items", items.len()));
            return Val::Arr(items);
        }
        items.push(st_val(&s));
    }
    if items.len() != n {
        w.problem("array-iter", format!("array of {n} items iterates over {} items", items.len()));
        return Val::Arr(items);
    }
    for i in 0..n {
        let s = sut(|| a.get::<S>(i));
        if st_val(&s) != items[i] {
            w.problem("array-get", format!("item {i} differs between get and iter"));
        }
    }
    let first = n.min(1);
    for how in [Take::Count, Take::Last, Take::Nth(n / 2), Take::All] {
        if let Some(d) = adapt(sut(|| a.iter::<S>()), first, how, |s| st_val(&s)).check(&items, first, how) {
            w.problem("array-iter", d);
        }
    }
    Val::Arr(items)
}

pub fn arr_items_of(v: Val, n: usize, direct: Vec<Vec<u8>>, one: Vec<Vec<u8>>, mut w: Walk) -> (ListVal, Vec<(&'static str, String)>) {
    let Val::Arr(items) = v else { unreachable!() };
    if direct != items || one != items {
        w.problem("array-iter", "iter, get and to_ref of a list under construction differ".into());
    }
    (ListVal { declared: n as u64, items: items.into_iter().map(Val::Struct).collect(), err: None }, w.problems)
}

impl Walk {
    pub fn same(&mut self, a: &ListVal, b: &ListVal) {
        if a != b {
            self.problem("iter-offsets-differs", format!("iter gives {a:?}, iter_offsets gives {b:?}"));
        }
    }

    /// The accessors of a union name exactly the case it holds.
    pub fn union(&mut self, v: &Val, l: &[(usize, bool)]) {
        let Val::Union(k, _) = v else { unreachable!() };
        for (n, b) in l {
            if *b != (n == k) {
                self.problem("union-accessor", format!("case {k} held, accessor of case {n} says {b}"));
            }
        }
    }
}

//! Abstract values.
//!
//! * `Pw(v, t)` is a value that depends on the finite-domain variable `v` (an input byte, an upcoming
//!   token): `t` maps every element of the domain of `v` to a concrete value.  The domain of a variable is
//!   part of the abstract state, so refining it at a branch refines every value that depends on it.
//! * `Lin` is a linear form over symbolic bases (input positions, counters).
//! * `F` is a symbolic floating point expression.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type VarId = u16;
pub type BaseId = u16;
pub const NW: usize = 5;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Bits(pub [u64; NW]);
impl std::fmt::Debug for Bits {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let mut first = true;
        write!(f, "{{")?;
        let mut it = self.iter().peekable();
        while let Some(a) = it.next() {
            let mut b = a;
            while it.peek() == Some(&(b + 1)) { b = it.next().unwrap(); }
            if !first { write!(f, ",")?; }
            first = false;
            if a == b { write!(f, "{}", a)?; } else { write!(f, "{}-{}", a, b)?; }
        }
        write!(f, "}}")
    }
}
impl Bits {
    pub const EMPTY: Bits = Bits([0; NW]);
    pub fn full(n: usize) -> Bits { let mut b = Bits::EMPTY; for i in 0..n { b.set(i); } b }
    pub fn one(i: usize) -> Bits { let mut b = Bits::EMPTY; b.set(i); b }
    pub fn range(a: usize, z: usize) -> Bits { let mut b = Bits::EMPTY; for i in a..=z { b.set(i); } b }
    pub fn set(&mut self, i: usize) { self.0[i / 64] |= 1 << (i % 64); }
    pub fn get(&self, i: usize) -> bool { self.0[i / 64] >> (i % 64) & 1 == 1 }
    pub fn is_empty(&self) -> bool { self.0.iter().all(|x| *x == 0) }
    pub fn count(&self) -> usize { self.0.iter().map(|x| x.count_ones() as usize).sum() }
    pub fn and(&self, o: &Bits) -> Bits { let mut r = *self; for i in 0..NW { r.0[i] &= o.0[i]; } r }
    pub fn or(&self, o: &Bits) -> Bits { let mut r = *self; for i in 0..NW { r.0[i] |= o.0[i]; } r }
    pub fn minus(&self, o: &Bits) -> Bits { let mut r = *self; for i in 0..NW { r.0[i] &= !o.0[i]; } r }
    pub fn subset(&self, o: &Bits) -> bool { self.minus(o).is_empty() }
    pub fn first(&self) -> Option<usize> { self.iter().next() }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        (0..NW).flat_map(move |w| { let mut x = self.0[w]; std::iter::from_fn(move || { if x == 0 { None } else { let b = x.trailing_zeros() as usize; x &= x - 1; Some(w * 64 + b) } }) })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Atom { B(BaseId), P(VarId, TableId) }

/// constant + sum of coefficient * atom
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lin { pub c: i128, pub m: Vec<(Atom, i64)> }
impl std::fmt::Debug for Lin {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for (a, k) in &self.m {
            if *k != 1 { write!(f, "{}*", k)?; }
            match a { Atom::B(0) => write!(f, "L+")?, Atom::B(b) => write!(f, "b{}+", b)?, Atom::P(v, t) => write!(f, "v{}:t{}+", v, t.0)? }
        }
        write!(f, "{}", self.c)
    }
}
impl Lin {
    pub fn k(c: i128) -> Lin { Lin { c, m: vec![] } }
    pub fn atom(a: Atom) -> Lin { Lin { c: 0, m: vec![(a, 1)] } }
    pub fn base(b: BaseId) -> Lin { Lin::atom(Atom::B(b)) }
    pub fn add(&self, o: &Lin, s: i64) -> Lin {
        let mut m = self.m.clone();
        for &(b, k) in &o.m {
            match m.iter_mut().find(|x| x.0 == b) { Some(x) => x.1 += k * s, None => m.push((b, k * s)) }
        }
        m.retain(|x| x.1 != 0);
        m.sort();
        Lin { c: self.c + o.c * s as i128, m }
    }
    pub fn sub(&self, o: &Lin) -> Lin { self.add(o, -1) }
    pub fn addk(&self, k: i128) -> Lin { let mut r = self.clone(); r.c += k; r }
    pub fn scale(&self, s: i64) -> Lin {
        if s == 0 { return Lin::k(0); }
        Lin { c: self.c * s as i128, m: self.m.iter().map(|&(b, k)| (b, k * s)).collect() }
    }
    pub fn is_k(&self) -> bool { self.m.is_empty() }
    pub fn val(self) -> Val {
        if self.m.is_empty() { return Val::Int(self.c); }
        if self.c == 0 && self.m.len() == 1 && self.m[0].1 == 1 { if let Atom::P(v, t) = self.m[0].0 { return Val::Pw(v, t); } }
        Val::Lin(Rc::new(self))
    }
    /// the coefficient of base `b`
    pub fn coef(&self, b: BaseId) -> i64 { self.m.iter().find(|x| x.0 == Atom::B(b)).map_or(0, |x| x.1) }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum FT {
    C(u64),
    Base(BaseId),
    OfInt(Lin),
    Op(&'static str, Rc<FT>, Rc<FT>),
    Powi(Rc<FT>, Lin),
}
impl FT {
    pub fn c(v: f64) -> FT { FT::C(v.to_bits()) }
    pub fn mk(op: &'static str, a: FT, b: FT) -> FT {
        if let (FT::C(x), FT::C(y)) = (&a, &b) {
            let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
            return FT::c(match op { "+" => x + y, "-" => x - y, "*" => x * y, "/" => x / y, _ => f64::NAN });
        }
        let is = |t: &FT, v: f64| matches!(t, FT::C(b) if *b == v.to_bits());
        // x+0 = x and x*1 = x are exact for the non-negative values tokenisation produces
        match op {
            "+" => { if is(&a, 0.0) { return b; } if is(&b, 0.0) { return a; } }
            "*" => { if is(&a, 1.0) { return b; } if is(&b, 1.0) { return a; } if is(&a, 0.0) || is(&b, 0.0) { return FT::c(0.0); } }
            _ => {}
        }
        let (a, b) = if (op == "+" || op == "*") && b < a { (b, a) } else { (a, b) };
        FT::Op(op, Rc::new(a), Rc::new(b))
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Root {
    /// local of the frame at that depth
    Local(u16, u16),
    /// memory owned by a caller of the analysed function
    Obj(u16),
    Static(u32),
    /// an immutable constant; paths go through it
    Const(Rc<Val>),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum El { F(u16), V(u16), I(u32) }

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Ptr { pub root: Root, pub path: Vec<El> }

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Slice { pub s: Lin, pub e: Lin }

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Val {
    Undef,
    B(bool),
    Int(i128),
    Pw(VarId, TableId),
    Lin(Rc<Lin>),
    F(Rc<FT>),
    Agg(u32, Rc<Vec<Val>>),
    /// thin pointer into the interpreted memory
    Ref(Rc<Ptr>),
    /// slice of interpreted memory: pointer to the first element and length
    Fat(Rc<Ptr>, u32),
    /// &str or &[u8] into the input
    Sl(Rc<Slice>),
    /// constant string or byte string
    Str(Rc<[u8]>),
    /// pointer to the input byte at a position
    Cell(Rc<Lin>),
    /// growable list of known elements; the flag says that unknown elements lie below
    Vec(bool, Rc<Vec<Val>>),
    Fn(usize),
    /// a char that is none of the distinguished ones, with its UTF-8 length
    OtherChar(u8),
    /// nothing is known; branching on it explores both ways
    Top,
    Opaque(&'static str),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct TableId(pub u32);

pub struct Tables {
    pub tabs: Vec<Rc<Vec<Val>>>,
    pub idx: HashMap<Rc<Vec<Val>>, TableId>,
    pub memo: HashMap<(TableId, MemoKey), Val>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum MemoKey { Proj(El), Discr(usize), Named(&'static str), Bin(String, Val, bool, usize), Un(String), Cast(usize, usize), Un2(u32), Deref, SetProj(Vec<El>, Val) }

thread_local! {
    pub static TABLES: RefCell<Tables> = RefCell::new(Tables { tabs: vec![], idx: HashMap::new(), memo: HashMap::new() });
}

/// Make a piecewise value over variable `v`; collapses to the plain value when all leaves agree.
pub fn mk_pw(v: VarId, leaves: Vec<Val>) -> Val {
    let mut it = leaves.iter().filter(|x| !matches!(x, Val::Undef));
    match it.next() {
        None => return Val::Undef,
        Some(f) => if it.all(|x| x == f) { return f.clone(); },
    }
    TABLES.with(|t| {
        let mut t = t.borrow_mut();
        let rc = Rc::new(leaves);
        if let Some(&id) = t.idx.get(&rc) { return Val::Pw(v, id); }
        let id = TableId(t.tabs.len() as u32);
        t.tabs.push(rc.clone());
        t.idx.insert(rc, id);
        Val::Pw(v, id)
    })
}
pub fn table(t: TableId) -> Rc<Vec<Val>> { TABLES.with(|x| x.borrow().tabs[t.0 as usize].clone()) }

/// Map the leaves of a table, memoised under `key`.
pub fn map_table(v: VarId, t: TableId, key: MemoKey, f: impl Fn(&Val) -> Val) -> Val {
    let k = (t, key);
    if let Some(r) = TABLES.with(|x| x.borrow().memo.get(&k).cloned()) {
        return match r { Val::Pw(_, t) => Val::Pw(v, t), o => o };
    }
    let leaves: Vec<Val> = table(t).iter().map(|x| if matches!(x, Val::Undef) { Val::Undef } else { f(x) }).collect();
    let r = mk_pw(v, leaves);
    TABLES.with(|x| x.borrow_mut().memo.insert(k, r.clone()));
    r
}

pub fn unit() -> Val { Val::Agg(0, Rc::new(vec![])) }
pub fn agg(v: u32, f: Vec<Val>) -> Val { Val::Agg(v, Rc::new(f)) }
pub fn b(x: bool) -> Val { Val::B(x) }
pub fn cstr(s: &str) -> Val { Val::Str(Rc::from(s.as_bytes())) }

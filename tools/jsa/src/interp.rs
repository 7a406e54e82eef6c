//! The abstract transfer function: executes one MIR block on an abstract state.
use crate::models;
use crate::prog::*;
use crate::state::*;
use crate::val::*;
use ir::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// Why a block could not be executed: the driver refines the state and tries again.
#[derive(Debug, Clone)]
pub enum Fork {
    /// split the domain of a variable
    Var(VarId, Vec<Bits>),
    /// the byte at the frontier of the input is needed
    Cell,
    /// give up on this state
    Stuck(String),
}
pub type R<T> = Result<T, Fork>;
pub fn stuck<T>(s: impl Into<String>) -> R<T> { Err(Fork::Stuck(s.into())) }

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum PanicKind { Explicit, Internal(String) }

pub enum Out {
    /// at the start of a block where paths join
    Next(State),
    /// the outermost function returned
    Ret(State, Val),
    Panic(State, PanicKind, String),
    /// call of a summarised function: callee and arguments; the frame on top waits for the result
    Call(State, FnId, Vec<Val>),
}
pub enum Exec { Outs(Vec<Out>), Split(State, Fork) }

/// What a mode does with calls and unknown things.
pub trait Hooks {
    /// Intercept a call.
    fn call(&self, _cx: &Cx, _st: &mut State, _f: FnId, _args: &[Val], _rty: TyId) -> R<Option<CallRes>> { Ok(None) }
    fn summarise(&self, _cx: &Cx, _f: FnId) -> bool { false }
}
pub enum CallRes {
    Val(Val),
    /// several possible outcomes, each with its own state
    Many(Vec<(State, Val)>),
    Panic(PanicKind, String),
    /// call another function instead
    Tail(FnId, Vec<Val>),
}

pub struct Cx<'a> {
    pub p: &'a Prog,
    pub hooks: &'a dyn Hooks,
    /// things the analysis could not model, with where they were met
    pub problems: RefCell<BTreeSet<String>>,
    pub stats: RefCell<Stats>,
    pub statics: RefCell<BTreeMap<usize, Val>>,
}
#[derive(Default, Debug, Clone)]
pub struct Stats { pub steps: u64, pub forks: u64, pub fns: BTreeSet<usize>, pub blocks: BTreeSet<(usize, usize)>, pub calls: u64, pub asserts: BTreeSet<(usize, usize)> }

#[derive(Debug, Clone)]
pub enum Loc { Mem(Ptr), In(Lin), InSl(Slice), Fat(Ptr, u32), CStr(Rc<[u8]>), RV(Val) }

impl<'a> Cx<'a> {
    pub fn new(p: &'a Prog, hooks: &'a dyn Hooks) -> Cx<'a> {
        Cx { p, hooks, problems: Default::default(), stats: Default::default(), statics: Default::default() }
    }
    pub fn problem(&self, s: String) { self.problems.borrow_mut().insert(s); }

    // ---- constants ---------------------------------------------------------------------------------
    pub fn konst(&self, c: &Const, ty: TyId) -> Val {
        match c {
            Const::Int(i) => match self.p.ty(ty) {
                TyK::Bool => Val::B(*i != 0),
                TyK::Adt { variants, .. } if variants.len() == 1 && variants[0].fields.len() == 1 => self.konst(c, variants[0].fields[0].1),
                _ => Val::Int(*i),
            },
            Const::F64(b) => Val::F(Rc::new(FT::C(*b))),
            Const::Str(s) => Val::Str(Rc::from(s.as_bytes())),
            Const::Bytes(b) => match self.p.ty(ty) {
                TyK::Ref(_, t) | TyK::Ptr(_, t) if matches!(self.p.ty(*t), TyK::Array(..)) => Val::Ref(Rc::new(Ptr { root: Root::Const(Rc::new(Val::Str(Rc::from(&b[..])))), path: vec![] })),
                _ => Val::Str(Rc::from(&b[..])),
            },
            Const::Fn(f) => Val::Fn(*f),
            Const::Zst => match self.p.ty(ty) {
                TyK::FnDef(_) => Val::Opaque("fn item"),
                TyK::Adt { variants, .. } => {
                    let n = variants.first().map_or(0, |v| v.fields.len());
                    agg(0, (0..n).map(|i| self.konst(&Const::Zst, variants[0].fields[i].1)).collect())
                }
                TyK::Tuple(v) => agg(0, v.iter().map(|t| self.konst(&Const::Zst, *t)).collect()),
                _ => unit(),
            },
            Const::Agg(v, fs) => {
                let elem = match self.p.ty(ty) { TyK::Array(t, _) | TyK::Slice(t) => Some(*t), _ => None };
                agg(*v as u32, fs.iter().enumerate().map(|(i, f)| self.konst(f, elem.or_else(|| self.p.field_ty(ty, *v, i)).unwrap_or(ty))).collect())
            }
            Const::Ref(inner) => {
                let t = match self.p.ty(ty) { TyK::Ref(_, t) | TyK::Ptr(_, t) => *t, _ => ty };
                let v = self.konst(inner, t);
                match (self.p.ty(t), &v) {
                    (TyK::Slice(_), Val::Str(_)) | (TyK::Str, Val::Str(_)) => v,
                    (TyK::Slice(_), Val::Agg(_, f)) => { let n = f.len() as u32; Val::Fat(Rc::new(Ptr { root: Root::Const(Rc::new(v)), path: vec![El::I(0)] }), n) }
                    _ => Val::Ref(Rc::new(Ptr { root: Root::Const(Rc::new(v)), path: vec![] })),
                }
            }
            Const::Static(i) => Val::Ref(Rc::new(Ptr { root: Root::Static(*i as u32), path: vec![] })),
            Const::Opaque(_) => Val::Top,
        }
    }

    // ---- memory ------------------------------------------------------------------------------------
    pub fn proj(&self, v: &Val, e: El) -> Val {
        match (v, e) {
            (Val::Agg(_, f), El::F(i)) => f.get(i as usize).cloned().unwrap_or(Val::Undef),
            (Val::Agg(_, f), El::I(i)) => f.get(i as usize).cloned().unwrap_or(Val::Undef),
            (Val::Agg(k, _), El::V(i)) => if *k == i as u32 { v.clone() } else { Val::Undef },
            (Val::Str(s), El::I(i)) => s.get(i as usize).map_or(Val::Undef, |b| Val::Int(*b as i128)),
            (Val::Pw(x, t), _) => map_table(*x, *t, MemoKey::Proj(e), |l| self.proj(l, e)),
            (Val::Top, _) | (Val::Opaque(_), _) => Val::Top,
            (Val::Undef, _) => Val::Undef,
            // transparent wrappers around scalars
            (_, El::F(0)) | (_, El::V(_)) => v.clone(),
            _ => Val::Undef,
        }
    }
    fn root_val(&self, st: &State, r: &Root) -> Val {
        match r {
            Root::Local(d, l) => st.frames.get(*d as usize).and_then(|f| f.locals.get(*l as usize)).cloned().unwrap_or(Val::Undef),
            Root::Obj(i) => st.objs.get(*i as usize).cloned().unwrap_or(Val::Undef),
            Root::Static(i) => {
                if let Some(v) = self.statics.borrow().get(&(*i as usize)) { return v.clone(); }
                let s = &self.p.p.statics[*i as usize];
                let v = self.konst(&s.val, s.ty);
                self.statics.borrow_mut().insert(*i as usize, v.clone());
                v
            }
            Root::Const(v) => (**v).clone(),
        }
    }
    pub fn read_ptr(&self, st: &State, p: &Ptr) -> R<Val> {
        let mut v = self.root_val(st, &p.root);
        for e in &p.path { v = self.proj(&v, *e); }
        Ok(v)
    }
    pub fn cell(&self, st: &State, l: &Lin) -> R<Val> {
        let k = l.sub(&st.lex.frontier.0);
        if !k.is_k() { return Ok(Val::Top); }
        if k.c >= 0 {
            if st.lex.ended { return stuck("read past the end of the input"); }
            return Err(Fork::Cell);
        }
        let i = st.lex.cells.len() as i128 + k.c;
        if i < 0 { return Ok(Val::Top); }
        Ok(ident_val(st.lex.cells[i as usize]))
    }
    pub fn read(&self, st: &State, l: &Loc) -> R<Val> {
        match l {
            Loc::Mem(p) => self.read_ptr(st, p),
            Loc::In(l) => self.cell(st, l),
            Loc::RV(v) => Ok(v.clone()),
            Loc::CStr(s) => Ok(Val::Str(s.clone())),
            Loc::InSl(_) | Loc::Fat(..) => stuck("read of an unsized place"),
        }
    }
    /// The value behind a reference.
    pub fn deref(&self, st: &State, v: &Val) -> R<Loc> {
        Ok(match v {
            Val::Ref(p) => Loc::Mem((**p).clone()),
            Val::Fat(p, n) => Loc::Fat((**p).clone(), *n),
            Val::Cell(l) => Loc::In((**l).clone()),
            Val::Sl(s) => Loc::InSl((**s).clone()),
            Val::Str(s) => Loc::CStr(s.clone()),
            Val::Agg(_, f) if f.len() == 1 || f.len() == 2 => return self.deref(st, &f[0]),
            Val::Pw(x, t) => {
                let dom = st.vars[*x as usize];
                let tab = table(*t);
                if dom.iter().all(|i| matches!(&tab[i], Val::Undef | Val::Str(_)) || matches!(&tab[i], Val::Ref(p) if matches!(p.root, Root::Const(_)))) {
                    Loc::RV(map_table(*x, *t, MemoKey::Deref, |l| match l {
                        Val::Str(_) => l.clone(),
                        Val::Ref(p) => { let mut v = match &p.root { Root::Const(c) => (**c).clone(), _ => Val::Undef }; for e in &p.path { v = self.proj(&v, *e); } v }
                        _ => Val::Undef,
                    }))
                } else { return Err(self.split_all(st, *x, *t)); }
            }
            Val::Opaque(o) if o.starts_with("other") => Loc::RV(v.clone()),
            Val::Top | Val::Opaque(_) => Loc::RV(Val::Top),
            Val::Undef => Loc::RV(Val::Undef),
            _ => return stuck(format!("dereference of {:?}", v)),
        })
    }
    /// Split a variable so that the value becomes definite.
    pub fn split_all(&self, st: &State, v: VarId, t: TableId) -> Fork {
        let tab = table(t);
        let mut parts: Vec<(Val, Bits)> = vec![];
        for i in st.vars[v as usize].iter() {
            let x = &tab[i];
            match parts.iter_mut().find(|p| p.0 == *x) { Some(p) => p.1.set(i), None => parts.push((x.clone(), Bits::one(i))) }
        }
        Fork::Var(v, parts.into_iter().map(|p| p.1).collect())
    }
    /// A piecewise value that is the same everywhere on the current domain is that value.
    pub fn simp(&self, st: &State, v: Val) -> Val {
        if let Val::Pw(x, t) = &v {
            let tab = table(*t);
            let mut it = st.vars[*x as usize].iter();
            if let Some(f) = it.next() { if it.all(|i| tab[i] == tab[f]) { return tab[f].clone(); } }
        }
        v
    }
    pub fn definite(&self, st: &State, v: Val) -> R<Val> {
        match self.simp(st, v) { Val::Pw(x, t) => Err(self.split_all(st, x, t)), o => Ok(o) }
    }
    pub fn write(&self, st: &mut State, p: &Ptr, v: Val) -> R<()> {
        let mut sp = None;
        {
            let slot: &mut Val = match &p.root {
                Root::Local(d, l) => {
                    let Some(f) = st.frames.get_mut(*d as usize) else { return stuck("dangling pointer") };
                    &mut Rc::make_mut(&mut f.locals)[*l as usize]
                }
                Root::Obj(i) => &mut st.objs[*i as usize],
                _ => return stuck("write to a constant"),
            };
            if p.path.is_empty() { *slot = v; return Ok(()); }
            set_path(slot, &p.path, v, &mut sp);
        }
        if let Some((x, t)) = sp { return Err(self.split_all(st, x, t)); }
        Ok(())
    }
    pub fn place(&self, st: &State, pl: &Place) -> R<Loc> {
        let d = st.frames.len() as u16 - 1;
        let mut cur = Loc::Mem(Ptr { root: Root::Local(d, pl.l as u16), path: vec![] });
        for e in &pl.p {
            cur = match e {
                Proj::Deref => { let v = self.read(st, &cur)?; let v = self.simp(st, v); self.deref(st, &v)? }
                Proj::Field(i) => self.loc_el(cur, El::F(*i as u16))?,
                Proj::Variant(i) => self.loc_el(cur, El::V(*i as u16))?,
                Proj::Index(l) => {
                    let i = self.simp(st, st.top().locals[*l].clone());
                    match (&i, cur) {
                        (Val::Pw(x, t), _) => return Err(self.split_all(st, *x, *t)),
                        (Val::Int(k), c) => self.loc_el(c, El::I(*k as u32))?,
                        (Val::Lin(k), Loc::InSl(s)) => Loc::In(s.s.add(k, 1)),
                        (Val::Top, _) | (_, Loc::RV(Val::Top)) => Loc::RV(Val::Top),
                        (Val::Lin(_), Loc::CStr(_)) | (Val::Lin(_), Loc::Fat(..)) | (Val::Lin(_), Loc::Mem(_)) => Loc::RV(Val::Top),
                        (i, c) => return stuck(format!("index {:?} of {:?}", i, c)),
                    }
                }
                Proj::ConstIndex { off, from_end, .. } => match (&cur, from_end) {
                    (Loc::InSl(s), true) => Loc::In(s.e.addk(-(*off as i128))),
                    (Loc::Fat(_, n), true) => { let k = *n as u64 - off; self.loc_el(cur, El::I(k as u32))? }
                    (Loc::CStr(s), true) => { let k = s.len() as u64 - off; self.loc_el(cur, El::I(k as u32))? }
                    (_, true) => { let n = match self.read(st, &cur)? { Val::Agg(_, f) => f.len() as u64, Val::Str(s) => s.len() as u64, _ => return stuck("index from end") }; self.loc_el(cur, El::I((n - off) as u32))? }
                    (_, false) => self.loc_el(cur, El::I(*off as u32))?,
                },
                Proj::Subslice { from, to, from_end } => match cur {
                    Loc::InSl(s) => Loc::InSl(Slice { s: s.s.addk(*from as i128), e: if *from_end { s.e.addk(-(*to as i128)) } else { s.s.addk(*to as i128) } }),
                    Loc::CStr(s) => { let e = if *from_end { s.len() - *to as usize } else { *to as usize }; Loc::CStr(Rc::from(&s[*from as usize..e])) }
                    Loc::Fat(p, n) => { let e = if *from_end { n - *to as u32 } else { *to as u32 }; Loc::Fat(ptr_add(&p, *from as i128), e - *from as u32) }
                    _ => return stuck("subslice"),
                },
            };
        }
        Ok(cur)
    }
    fn loc_el(&self, c: Loc, e: El) -> R<Loc> {
        Ok(match (c, e) {
            (Loc::Mem(mut p), e) => { p.path.push(e); Loc::Mem(p) }
            (Loc::InSl(s), El::I(k)) => Loc::In(s.s.addk(k as i128)),
            (Loc::Fat(p, _), El::I(k)) => Loc::Mem(ptr_add(&p, k as i128)),
            (Loc::CStr(s), El::I(k)) => Loc::RV(s.get(k as usize).map_or(Val::Undef, |b| Val::Int(*b as i128))),
            (Loc::RV(v), e) => Loc::RV(self.proj(&v, e)),
            (c, e) => return stuck(format!("projection {:?} of {:?}", e, c)),
        })
    }
    pub fn operand(&self, st: &State, o: &Op) -> R<Val> {
        match o {
            Op::Const(c, t) => Ok(self.konst(c, *t)),
            Op::Copy(p) | Op::Move(p) => { let l = self.place(st, p)?; let v = self.read(st, &l)?; Ok(self.simp(st, v)) }
        }
    }

    // ---- arithmetic --------------------------------------------------------------------------------
    pub fn bits(&self, ty: TyId) -> (u32, bool) {
        match self.p.ty(ty) { TyK::Int { bits, signed } => (*bits, *signed), TyK::Bool => (1, false), TyK::Char => (32, false), _ => (64, false) }
    }
    fn wrap(&self, v: i128, ty: TyId) -> i128 {
        let (b, s) = self.bits(ty);
        if b >= 128 { return v; }
        let m = v & ((1i128 << b) - 1);
        if s && m >> (b - 1) & 1 == 1 { m - (1i128 << b) } else { m }
    }
    /// `a op b` for scalars; overflow is reported through the flag.
    fn scalar(&self, op: &str, a: &Val, b: &Val, ty: TyId) -> Option<(Val, bool)> {
        let num = |v: &Val| match v { Val::Int(i) => Some(*i), Val::B(x) => Some(*x as i128), _ => None };
        let range = |v: &Val| match v {
            Val::Int(i) => Some((*i, *i)), Val::B(x) => Some((*x as i128, *x as i128)),
            Val::OtherChar(2) => Some((0x80, 0x7ff)), Val::OtherChar(3) => Some((0x800, 0xffff)), Val::OtherChar(_) => Some((0x10000, 0x10ffff)),
            _ => None,
        };
        if let (Val::OtherChar(_), _) | (_, Val::OtherChar(_)) = (a, b) {
            let (x, y) = (range(a)?, range(b)?);
            let specials = [0xA0, 0xFEFF, 0x2028, 0x2029];
            let is_special = |r: (i128, i128)| r.0 == r.1 && specials.contains(&r.0);
            let ne = x.1 < y.0 || y.1 < x.0 || is_special(x) || is_special(y);
            return Some((match op {
                "Eq" if ne => Val::B(false), "Ne" if ne => Val::B(true),
                "Lt" if x.1 < y.0 => Val::B(true), "Lt" if x.0 >= y.1 => Val::B(false),
                "Le" if x.1 <= y.0 => Val::B(true), "Le" if x.0 > y.1 => Val::B(false),
                "Gt" if x.0 > y.1 => Val::B(true), "Gt" if x.1 <= y.0 => Val::B(false),
                "Ge" if x.0 >= y.1 => Val::B(true), "Ge" if x.1 < y.0 => Val::B(false),
                _ => Val::Top,
            }, false));
        }
        let (x, y) = (num(a)?, num(b)?);
        let boolish = matches!((a, b), (Val::B(_), Val::B(_)));
        let (bits, _) = self.bits(ty);
        Some(match op {
            "Eq" => (Val::B(x == y), false),
            "Ne" => (Val::B(x != y), false),
            "Lt" => (Val::B(x < y), false),
            "Le" => (Val::B(x <= y), false),
            "Gt" => (Val::B(x > y), false),
            "Ge" => (Val::B(x >= y), false),
            "BitAnd" if boolish => (Val::B(x & y != 0), false),
            "BitOr" if boolish => (Val::B(x | y != 0), false),
            "BitXor" if boolish => (Val::B(x ^ y != 0), false),
            "Cmp" => (Val::Agg((if x < y { 0u32 } else if x == y { 1 } else { 2 }), Rc::new(vec![])), false),
            "Add" | "AddUnchecked" | "Sub" | "SubUnchecked" | "Mul" | "MulUnchecked" => {
                let r = match op.as_bytes()[0] { b'A' => x + y, b'S' => x - y, _ => x.checked_mul(y)? };
                let w = self.wrap(r, ty);
                (Val::Int(w), w != r)
            }
            "Div" => (Val::Int(x.checked_div(y)?), false),
            "Rem" => (Val::Int(x.checked_rem(y)?), false),
            "BitAnd" => (Val::Int(self.wrap(x & y, ty)), false),
            "BitOr" => (Val::Int(self.wrap(x | y, ty)), false),
            "BitXor" => (Val::Int(self.wrap(x ^ y, ty)), false),
            "Shl" | "ShlUnchecked" => (Val::Int(self.wrap(x.checked_shl((y as u32) & (bits - 1))?, ty)), y < 0 || y >= bits as i128),
            "Shr" | "ShrUnchecked" => (Val::Int(self.wrap(x >> ((y as u32) & (bits - 1)), ty)), y < 0 || y >= bits as i128),
            _ => return None,
        })
    }
    pub fn to_lin(&self, v: &Val) -> Option<Lin> {
        match v {
            Val::Int(i) => Some(Lin::k(*i)),
            Val::Lin(l) => Some((**l).clone()),
            Val::Pw(x, t) => if table(*t).iter().all(|l| matches!(l, Val::Int(_) | Val::Undef)) { Some(Lin::atom(Atom::P(*x, *t))) } else { None },
            _ => None,
        }
    }
    fn prange(&self, st: &State, v: VarId, t: TableId) -> Option<(i128, i128)> {
        let tab = table(t);
        let mut r: Option<(i128, i128)> = None;
        for i in st.vars[v as usize].iter() {
            if let Val::Int(k) = tab[i] { r = Some(r.map_or((k, k), |x| (x.0.min(k), x.1.max(k)))); } else { return None; }
        }
        r
    }
    pub fn lb(&self, st: &State, l: &Lin) -> Option<i128> { self.lb_d(st, l, 3) }
    fn lb_d(&self, st: &State, l: &Lin, depth: u32) -> Option<i128> {
        let mut l = l.clone();
        let mut i = 0;
        while i < l.m.len() {
            if let (Atom::P(v, t), k) = l.m[i] {
                let (lo, hi) = self.prange(st, v, t)?;
                l.m.remove(i);
                l.c += if k > 0 { lo * k as i128 } else { hi * k as i128 };
            } else { i += 1; }
        }
        // bases that no relation ties to another one
        let mut i = 0;
        while i < l.m.len() {
            let (a, k) = l.m[i];
            let mut by = None;
            if let Atom::B(b) = a { if b > 1 {
                if let Some(info) = st.base_info(b) {
                    let tied = if k > 0 { info.lbs.iter().any(|x| x.0.map_or(false, |o| l.coef(o) < 0)) } else { l.m.iter().any(|(c, j)| *j > 0 && matches!(c, Atom::B(c) if st.base_info(*c).map_or(*c <= 1, |i| i.lbs.iter().any(|x| x.0 == Some(b))))) };
                    if !tied { by = if k > 0 { info.lbs.iter().filter(|x| x.0.is_none()).map(|x| x.1).max() } else { info.ub }; }
                }
            } }
            match by { Some(x) => { l.m.remove(i); l.c += x * k as i128; } None => i += 1 }
        }
        if l.is_k() { return Some(l.c); }
        if depth == 0 { return None; }
        let mut best: Option<i128> = None;
        for &(a, k) in &l.m {
            let Atom::B(b) = a else { continue };
            let rest = { let mut r = l.clone(); r.m.retain(|x| x.0 != a); r };
            if k < 0 {
                if let Some(u) = st.base_info(b).and_then(|i| i.ub) { if let Some(x) = self.lb_d(st, &rest.addk(u * k as i128), depth - 1) { best = Some(best.map_or(x, |y| y.max(x))); } }
            }
            if k > 0 {
                if b <= 1 {
                    // the end of the input (or token) is not before the frontier
                    if b == 0 || st.lex.open_end { if let Some(x) = self.lb_d(st, &rest.add(&st.lex.frontier.0.scale(k), 1), depth - 1) { best = Some(best.map_or(x, |y| y.max(x))); } }
                    if b == 0 && l.coef(1) < 0 { if let Some(x) = self.lb_d(st, &rest.add(&Lin::base(1).scale(k), 1), depth - 1) { best = Some(best.map_or(x, |y| y.max(x))); } }
                }
                if let Some(bi) = st.base_info(b) {
                    for (o, c) in &bi.lbs {
                        let by = match o { None => Lin::k(*c), Some(o) => Lin::base(*o).addk(*c) };
                        if let Some(x) = self.lb_d(st, &rest.add(&by.scale(k), 1), depth - 1) { best = Some(best.map_or(x, |y| y.max(x))); }
                    }
                }
            }
        }
        best
    }
    /// Compare two linear forms: Some(ordering of a against b) when it is certain.
    pub fn lin_lt(&self, st: &State, a: &Lin, b: &Lin) -> R<Option<bool>> {
        let d = b.sub(a); // a < b  <=>  d > 0
        if d.is_k() { return Ok(Some(d.c > 0)); }
        for e in [0u16, 1] {
            if e == 1 && !st.lex.open_end { continue; }
            let k = d.coef(e);
            if k == 1 || k == -1 {
                // d = E - p  or  d = p - E
                let mut r = d.clone();
                r.m.retain(|x| x.0 != Atom::B(e));
                let p = if k == 1 { r.scale(-1) } else { r };
                let q = p.sub(&st.lex.frontier.0);
                if q.is_k() {
                    // all bytes before the frontier exist, so E >= frontier
                    if k == 1 { if q.c < 0 { return Ok(Some(true)); } } else if q.c <= 0 { return Ok(Some(false)); }
                    // with a second end open the input end is at least the token end
                    if q.c < 24 && !(e == 0 && st.lex.open_end) { return Err(Fork::Cell); }
                }
            }
        }
        if let Some(x) = self.lb(st, &d) { if x > 0 { return Ok(Some(true)); } }
        if let Some(x) = self.lb(st, &d.scale(-1)) { if x >= 0 { return Ok(Some(false)); } }
        Ok(None)
    }
    fn lin_cmp(&self, st: &State, op: &str, a: &Lin, b: &Lin) -> R<Val> {
        let r = match op {
            "Lt" => self.lin_lt(st, a, b)?,
            "Gt" => self.lin_lt(st, b, a)?,
            "Le" => self.lin_lt(st, b, a)?.map(|x| !x),
            "Ge" => self.lin_lt(st, a, b)?.map(|x| !x),
            _ => match (self.lin_lt(st, a, b)?, self.lin_lt(st, b, a)?) {
                (Some(true), _) | (_, Some(true)) => Some(op == "Ne"),
                (Some(false), Some(false)) => Some(op == "Eq"),
                _ => None,
            },
        };
        Ok(r.map_or(UNK, Val::B))
    }
    pub fn flb(&self, st: &State, t: &FT) -> Option<f64> {
        Some(match t {
            FT::C(b) => f64::from_bits(*b),
            FT::Base(b) => f64::from_bits(st.base_info(*b)?.flb?),
            FT::OfInt(l) => self.lb(st, l)? as f64,
            FT::Op(o, a, b) => {
                let (x, y) = (self.flb(st, a)?, self.flb(st, b)?);
                match *o { "+" => x + y, "*" if x >= 0.0 && y >= 0.0 => x * y, "/" if x >= 0.0 && y >= 0.0 => 0.0, _ => return None }
            }
            FT::Powi(a, _) => if self.flb(st, a)? >= 0.0 { 0.0 } else { return None },
        })
    }
    pub fn binop(&self, st: &State, op: &str, a: &Val, b: &Val, ty: TyId) -> R<(Val, Val)> {
        let no = Val::B(false);
        if let Some((v, o)) = self.scalar(op, a, b, ty) { return Ok((v, Val::B(o))); }
        let cmp = matches!(op, "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge");
        match (a, b) {
            (Val::Opaque("?"), Val::Opaque("?") | Val::B(_) | Val::Pw(..)) | (Val::B(_) | Val::Pw(..), Val::Opaque("?")) => return Ok((UNK, no)),
            (Val::Top, _) | (_, Val::Top) | (Val::Opaque(_), _) | (_, Val::Opaque(_)) => return Ok((Val::Top, Val::Top)),
            (Val::Undef, _) | (_, Val::Undef) => return Ok((Val::Undef, no)),
            _ => {}
        }
        // pointers
        if op == "Offset" {
            return Ok((match (a, self.to_lin(b)) {
                (Val::Cell(l), Some(k)) => Val::Cell(Rc::new(l.add(&k, 1))),
                (Val::Ref(p), Some(k)) if k.is_k() => Val::Ref(Rc::new(ptr_add(p, k.c))),
                _ => return stuck(format!("offset of {:?} by {:?}", a, b)),
            }, no));
        }
        if cmp {
            match (a, b) {
                (Val::Cell(x), Val::Cell(y)) => return Ok((self.lin_cmp(st, op, x, y)?, no)),
                (Val::Ref(p), Val::Ref(q)) => {
                    let (x, y) = (p.path.last().cloned(), q.path.last().cloned());
                    let same = p.root == q.root && p.path.len() == q.path.len() && p.path.split_last().map(|x| x.1) == q.path.split_last().map(|x| x.1);
                    return Ok((match (op, same, x, y) {
                        ("Eq", false, ..) => Val::B(false),
                        ("Ne", false, ..) => Val::B(true),
                        ("Eq", true, x, y) => Val::B(x == y),
                        ("Ne", true, x, y) => Val::B(x != y),
                        (o, true, Some(El::I(x)), Some(El::I(y))) => Val::B(match o { "Lt" => x < y, "Le" => x <= y, "Gt" => x > y, _ => x >= y }),
                        _ => return stuck("pointer comparison"),
                    }, no));
                }
                _ => {}
            }
        }
        // floats
        if let (Val::F(x), Val::F(y)) = (a, b) {
            let o = match op { "Add" => "+", "Sub" => "-", "Mul" => "*", "Div" => "/", "Rem" => "%", _ => "" };
            if o != "" { return Ok((Val::F(Rc::new(FT::mk(o, (**x).clone(), (**y).clone()))), no)); }
            if let (FT::C(x), FT::C(y)) = (&**x, &**y) {
                let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                return Ok((Val::B(match op { "Eq" => x == y, "Ne" => x != y, "Lt" => x < y, "Le" => x <= y, "Gt" => x > y, _ => x >= y }), no));
            }
            let (l, flip) = match (&**x, &**y) { (_, FT::C(_)) => (self.flb(st, x).zip(self.flb(st, y)), false), (FT::C(_), _) => (self.flb(st, y).zip(self.flb(st, x)), true), _ => (None, false) };
            if let Some((lo, c)) = l {
                let op2 = if flip { match op { "Lt" => "Gt", "Le" => "Ge", "Gt" => "Lt", "Ge" => "Le", o => o } } else { op };
                if lo > c { return Ok((Val::B(matches!(op2, "Ne" | "Gt" | "Ge")), no)); }
                if lo >= c && op2 == "Ge" { return Ok((Val::B(true), no)); }
                if lo >= c && op2 == "Lt" { return Ok((Val::B(false), no)); }
            }
            return Ok((UNK, no));
        }
        // piecewise
        match (a, b) {
            (Val::Pw(x, t), Val::Pw(y, u)) if x == y => {
                let (ta, tb) = (table(*t), table(*u));
                let dom = st.vars[*x as usize];
                let mut rs = vec![Val::Undef; ta.len()];
                let mut os = vec![Val::Undef; ta.len()];
                for i in dom.iter() { match self.scalar(op, &ta[i], &tb[i], ty) { Some((v, o)) => { rs[i] = v; os[i] = Val::B(o); } None => return Err(self.split_all(st, *x, *t)) } }
                return Ok((mk_pw(*x, rs), mk_pw(*x, os)));
            }
            (Val::Pw(x, t), k) | (k, Val::Pw(x, t)) if matches!(k, Val::Int(_) | Val::B(_) | Val::OtherChar(_)) => {
                let left = matches!(a, Val::Pw(..));
                if table(*t).iter().all(|l| matches!(l, Val::Int(_) | Val::B(_) | Val::Undef | Val::OtherChar(_))) {
                    let f = |l: &Val, w: bool| { let r = if left { self.scalar(op, l, k, ty) } else { self.scalar(op, k, l, ty) }; match r { Some((v, o)) => if w { Val::B(o) } else { v }, None => Val::Undef } };
                    let r = map_table(*x, *t, MemoKey::Bin(op.into(), k.clone(), left, ty), |l| f(l, false));
                    let o = if cmp { no } else { map_table(*x, *t, MemoKey::Bin(format!("{}?", op), k.clone(), left, ty), |l| f(l, true)) };
                    return Ok((self.simp(st, r), self.simp(st, o)));
                }
            }
            _ => {}
        }
        // linear
        if let (Some(x), Some(y)) = (self.to_lin(a), self.to_lin(b)) {
            if cmp {
                let r = self.lin_cmp(st, op, &x, &y)?;
                if r == UNK { for v in [a, b] { if let Val::Pw(x, t) = v { return Err(self.split_all(st, *x, *t)); } } }
                return Ok((r, no));
            }
            match op {
                "Add" | "AddUnchecked" => return Ok((x.add(&y, 1).val(), no)),
                "Sub" | "SubUnchecked" => {
                    let r = x.sub(&y);
                    let (_, signed) = self.bits(ty);
                    let o = if signed { no } else { match self.lin_lt(st, &x, &y)? { Some(b) => Val::B(b), None => UNK } };
                    return Ok((r.val(), o));
                }
                "Mul" | "MulUnchecked" if x.is_k() || y.is_k() => {
                    let r = if x.is_k() { y.scale(x.c as i64) } else { x.scale(y.c as i64) };
                    // an unbounded factor can overflow
                    let pw = x.m.iter().chain(&y.m).all(|m| matches!(m.0, Atom::P(..)));
                    let other = if x.is_k() { &y } else { &x };
                    let k = if x.is_k() { x.c } else { y.c };
                    let (bits, signed) = self.bits(ty);
                    let (mn, mx) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits.min(100)) - 1) };
                    if self.lb(st, &r).map_or(false, |x| x >= mn) && self.lb(st, &r.scale(-1)).map_or(false, |x| -x <= mx) { return Ok((r.val(), no)); }
                    let neg = k == -1 && self.bits(ty).1 && self.lb(st, other).map_or(false, |l| l >= 0);
                    let o = if neg { no } else if x.is_k() && x.c <= 1 && x.c >= 0 || y.is_k() && y.c <= 1 && y.c >= 0 || pw { no } else { UNK };
                    return Ok((r.val(), o));
                }
                _ => {}
            }
            for v in [a, b] { if let Val::Pw(x, t) = v { return Err(self.split_all(st, *x, *t)); } }
            return Ok((Val::Top, Val::Top));
        }
        for v in [a, b] { if let Val::Pw(x, t) = v { return Err(self.split_all(st, *x, *t)); } }
        stuck(format!("{} of {:?} and {:?}", op, a, b))
    }

    fn unwrap_scalar(v: Val) -> Val {
        let mut v = v;
        loop { match &v { Val::Agg(0, f) if f.len() == 1 => { let x = f[0].clone(); v = x; } _ => return v } }
    }
    pub fn cast(&self, st: &State, kind: &str, v: Val, from: TyId, to: TyId) -> R<Val> {
        let tk = self.p.ty(to);
        if kind.contains("Unsize") {
            return Ok(match &v {
                Val::Ref(p) => {
                    if let (TyK::Ref(_, t) | TyK::Ptr(_, t), TyK::Ref(_, f) | TyK::Ptr(_, f)) = (tk, self.p.ty(from)) {
                        if let (TyK::Slice(_), TyK::Array(_, n)) = (self.p.ty(*t), self.p.ty(*f)) {
                            if let (Root::Const(c), true) = (&p.root, p.path.is_empty()) { if let Val::Str(s) = &**c { return Ok(Val::Str(s.clone())); } }
                            let mut q = (**p).clone();
                            q.path.push(El::I(0));
                            return Ok(Val::Fat(Rc::new(q), *n as u32));
                        }
                    }
                    Val::Opaque("dyn")
                }
                Val::Pw(..) => self.definite(st, v.clone()).and_then(|x| self.cast(st, kind, x, from, to))?,
                _ => Val::Opaque("dyn"),
            });
        }
        if kind.contains("ReifyFn") || kind.contains("ClosureFn") {
            return Ok(match v { Val::Fn(_) => v, _ => Val::Top });
        }
        if let Val::Pw(x, t) = &v {
            let ok = table(*t).iter().all(|l| matches!(l, Val::Int(_) | Val::B(_) | Val::Undef | Val::OtherChar(_)));
            if ok && matches!(tk, TyK::Int { .. } | TyK::Char | TyK::Bool) {
                return Ok(map_table(*x, *t, MemoKey::Cast(from, to), |l| match l { Val::Int(i) => if matches!(tk, TyK::Bool) { Val::B(*i != 0) } else { Val::Int(self.wrap(*i, to)) }, Val::B(b) => Val::Int(*b as i128), o => o.clone() }));
            }
            if ok && matches!(tk, TyK::Float(_)) { return Ok(Val::F(Rc::new(FT::OfInt(Lin::atom(Atom::P(*x, *t)))))); }
            if matches!(tk, TyK::Ref(..) | TyK::Ptr(..)) && kind == "PtrToPtr" { return Ok(v); }
            if kind == "Transmute" { return Ok(v); }
        }
        Ok(match (kind, &v, tk) {
            (_, Val::Top, _) => Val::Top,
            (_, Val::Opaque("?"), _) => UNK,
            (_, Val::Undef, _) => Val::Undef,
            ("IntToInt", Val::Int(i), TyK::Bool) => Val::B(*i != 0),
            ("IntToInt", Val::Int(i), _) => Val::Int(self.wrap(*i, to)),
            ("IntToInt", Val::B(b), _) => Val::Int(*b as i128),
            ("IntToInt", Val::OtherChar(_), _) => if self.bits(to).0 >= 32 { v } else { Val::Top },
            ("IntToInt", Val::Lin(_), _) => { let (f, t) = (self.bits(from), self.bits(to)); if t.0 >= f.0 || t.0 >= 31 { v } else { Val::Top } }
            ("IntToInt", Val::Agg(..), _) => v,
            ("IntToFloat", Val::Int(i), _) => Val::F(Rc::new(FT::c(*i as f64))),
            ("IntToFloat", Val::Lin(l), _) => Val::F(Rc::new(FT::OfInt((**l).clone()))),
            ("FloatToFloat", ..) => v,
            ("FloatToInt", Val::F(t), _) => match &**t { FT::C(b) => Val::Int(f64::from_bits(*b) as i128), FT::OfInt(l) => l.clone().val(), _ => Val::Top },
            ("Transmute", _, TyK::Ref(..) | TyK::Ptr(..) | TyK::Int { .. } | TyK::Char | TyK::Float(_)) => match Self::unwrap_scalar(v) { Val::B(b) => Val::Int(b as i128), o => o },
            ("Transmute", _, TyK::Bool) => match Self::unwrap_scalar(v) { Val::Int(i) => Val::B(i != 0), o => o },
            // an integer as an optional non-zero integer
            ("Transmute", Val::Int(i), TyK::Adt { variants, .. }) if variants.len() == 2 && variants[0].name == "None" && variants[1].fields.len() == 1 => if *i == 0 { agg(0, vec![]) } else { agg(1, vec![agg(0, vec![agg(0, vec![v.clone()])])]) },
            ("Transmute", Val::Lin(l), TyK::Adt { variants, .. }) if variants.len() == 2 && variants[0].name == "None" && variants[1].fields.len() == 1 => {
                match self.lin_cmp(st, "Eq", l, &Lin::k(0))? { Val::B(true) => agg(0, vec![]), Val::B(false) => agg(1, vec![agg(0, vec![agg(0, vec![v.clone()])])]), _ => Val::Top }
            }
            ("Transmute", Val::Int(i), TyK::Adt { kind, variants, .. }) if kind == "enum" || variants.len() > 1 => match variants.iter().position(|x| x.discr == *i) { Some(k) => agg(k as u32, vec![]), None => Val::Top },
            ("Transmute" | "Subtype", ..) => v,
            ("PtrToPtr" | "FnPtrToPtr" | "PointerCoercion(MutToConstPointer)" | "PointerCoercion(ArrayToPointer)", _, _) => {
                let thin = |t: TyId| match self.p.ty(t) { TyK::Ref(_, x) | TyK::Ptr(_, x) => Some(*x), _ => None };
                let unsized_ = |t: TyId| matches!(self.p.ty(t), TyK::Str | TyK::Slice(_) | TyK::Dyn);
                match (thin(from), thin(to)) {
                    (Some(_), Some(b)) if unsized_(b) => v,
                    (Some(a), Some(b)) => match &v {
                        Val::Sl(s) => Val::Cell(Rc::new(s.s.clone())),
                        Val::Str(s) if unsized_(a) => Val::Ref(Rc::new(Ptr { root: Root::Const(Rc::new(Val::Str(s.clone()))), path: vec![El::I(0)] })),
                        Val::Fat(p, _) => Val::Ref(p.clone()),
                        Val::Ref(p) => match (self.p.ty(a), self.p.ty(b)) {
                            (TyK::Array(..), TyK::Array(..)) => v,
                            (TyK::Array(..), _) => { let mut q = (**p).clone(); q.path.push(El::I(0)); Val::Ref(Rc::new(q)) }
                            _ => v,
                        },
                        _ => v,
                    },
                    _ => v,
                }
            }
            _ if kind.starts_with("PointerCoercion") => v,
            ("PointerExposeAddress" | "PointerExposeProvenance" | "PointerWithExposedProvenance", ..) => Val::Top,
            _ => return stuck(format!("cast {} of {:?}", kind, v)),
        })
    }
    fn length(&self, st: &State, v: &Val) -> R<Val> {
        Ok(match v {
            Val::Sl(s) => s.e.sub(&s.s).val(),
            Val::Str(s) => Val::Int(s.len() as i128),
            Val::Fat(_, n) => Val::Int(*n as i128),
            Val::Pw(x, t) => {
                if table(*t).iter().all(|l| matches!(l, Val::Str(_) | Val::Undef)) { map_table(*x, *t, MemoKey::Named("len"), |l| match l { Val::Str(s) => Val::Int(s.len() as i128), _ => Val::Undef }) }
                else { return Err(self.split_all(st, *x, *t)); }
            }
            Val::Agg(_, f) if f.len() == 1 => return self.length(st, &f[0]),
            Val::Ref(_) | Val::Cell(_) => unit(),
            _ => Val::Top,
        })
    }
    pub fn discr(&self, st: &State, v: &Val, ty: TyId) -> R<Val> {
        let one = |v: &Val| match v {
            Val::Agg(k, _) => match self.p.ty(ty) { TyK::Adt { variants, .. } => Val::Int(variants.get(*k as usize).map_or(*k as i128, |x| x.discr)), _ => Val::Int(*k as i128) },
            Val::Opaque("?") => UNK,
            Val::Top | Val::Opaque(_) => Val::Top,
            Val::Undef => Val::Undef,
            Val::Int(_) | Val::B(_) => v.clone(),
            _ => Val::Top,
        };
        let _ = st;
        Ok(match v { Val::Pw(x, t) => map_table(*x, *t, MemoKey::Discr(ty), one), o => one(o) })
    }
    fn rvalue(&self, st: &State, r: &Rv) -> R<Val> {
        Ok(match r {
            Rv::Use(o) => self.operand(st, o)?,
            Rv::Ref(_, p) | Rv::Addr(p) => match self.place(st, p)? {
                Loc::Mem(p) => Val::Ref(Rc::new(p)),
                Loc::In(l) => Val::Cell(Rc::new(l)),
                Loc::InSl(s) => Val::Sl(Rc::new(s)),
                Loc::Fat(p, n) => Val::Fat(Rc::new(p), n),
                Loc::CStr(s) => Val::Str(s),
                Loc::RV(v) => match (&v, self.unsized_place(st, p)) {
                    (Val::Str(_), true) => v,
                    (Val::Pw(..), true) => v,
                    _ => Val::Ref(Rc::new(Ptr { root: Root::Const(Rc::new(v)), path: vec![] })),
                },
            },
            Rv::Agg(k, ops) => {
                let mut fs = vec![];
                for o in ops { fs.push(self.operand(st, o)?); }
                match k {
                    AggKind::Array | AggKind::Tuple | AggKind::Closure(_) => agg(0, fs),
                    AggKind::Adt(_, v, None) => agg(*v as u32, fs),
                    AggKind::Adt(_, _, Some(_)) => fs.pop().unwrap_or(Val::Undef),
                    AggKind::RawPtr => raw_slice(&fs[0], &fs[1])?,
                }
            }
            Rv::Bin(op, a, b, t) => { let (a, b) = (self.operand(st, a)?, self.operand(st, b)?); self.binop(st, op, &a, &b, *t)?.0 }
            Rv::Checked(op, a, b, t) => { let (a, b) = (self.operand(st, a)?, self.operand(st, b)?); let (r, o) = self.binop(st, op, &a, &b, *t)?; agg(0, vec![r, o]) }
            Rv::Un(op, a, t) => {
                let a = self.operand(st, a)?;
                match (op.as_str(), &a) {
                    ("PtrMetadata", _) => self.length(st, &a)?,
                    (_, Val::Pw(x, tb)) => {
                        let (x, tb, t) = (*x, *tb, *t);
                        map_table(x, tb, MemoKey::Un(format!("{}{}", op, t)), |l| self.unop(op, l, t))
                    }
                    _ => self.unop(op, &a, *t),
                }
            }
            Rv::Cast(k, o, f, t) => { let v = self.operand(st, o)?; self.cast(st, k, v, *f, *t)? }
            Rv::Discr(p, t) => { let l = self.place(st, p)?; let v = self.read(st, &l)?; let v = self.simp(st, v); self.discr(st, &v, *t)? }
            Rv::Len(p) => match self.place(st, p)? {
                Loc::InSl(s) => s.e.sub(&s.s).val(),
                Loc::Fat(_, n) => Val::Int(n as i128),
                Loc::CStr(s) => Val::Int(s.len() as i128),
                l => match self.read(st, &l)? { Val::Agg(_, f) => Val::Int(f.len() as i128), v => self.length(st, &v)? },
            },
            Rv::Repeat(o, n) => { let v = self.operand(st, o)?; if *n > 4096 { return stuck("large array"); } agg(0, vec![v; *n as usize]) }
            Rv::Other(s) => { if s.contains("UbChecks") || s.contains("RuntimeChecks") { Val::B(false) } else { self.problem(format!("unmodelled operation {}", s)); Val::Top } }
        })
    }
    fn unop(&self, op: &str, a: &Val, t: TyId) -> Val {
        match (op, a) {
            ("Not", Val::B(b)) => Val::B(!b),
            ("Not", Val::Int(i)) => Val::Int(self.wrap(!*i, t)),
            ("Neg", Val::Int(i)) => Val::Int(self.wrap(-*i, t)),
            ("Neg", Val::Lin(l)) => l.scale(-1).val(),
            ("Neg", Val::F(x)) => Val::F(Rc::new(FT::mk("-", FT::c(0.0), (**x).clone()))),
            (_, Val::Undef) => Val::Undef,
            (_, Val::Opaque("?")) => UNK,
            _ => Val::Top,
        }
    }
    /// Does the place have an unsized type (a string or slice)?
    fn unsized_place(&self, st: &State, p: &Place) -> bool {
        // the reference that was dereferenced last holds strings
        if p.p.last() != Some(&Proj::Deref) { return false; }
        let mut q = p.clone();
        q.p.pop();
        match self.place(st, &q).and_then(|l| self.read(st, &l)) {
            Ok(Val::Str(_)) => true,
            Ok(Val::Pw(x, t)) => { let tab = table(t); let r = st.vars[x as usize].iter().any(|i| matches!(tab[i], Val::Str(_))); r }
            _ => false,
        }
    }

    // ---- control -----------------------------------------------------------------------------------
    pub fn enter(&self, st: &mut State, f: FnId, mut args: Vec<Val>, dest: Option<Ptr>, target: Option<u32>, rust_call: bool) -> R<()> {
        let fun = self.p.f(f);
        if st.frames.len() > 60 { return stuck(format!("call depth at {}", fun.name)); }
        if rust_call && fun.spread.is_none() && args.len() == 2 && fun.nargs != 2 || rust_call && fun.kind == FnKind::Closure && args.len() == 2 {
            let t = args.pop().unwrap();
            if let Val::Agg(_, fs) = &t { args.extend(fs.iter().cloned()); } else { return stuck("closure arguments"); }
        }
        if let (Some(s), false) = (fun.spread, args.len() == fun.nargs) {
            let rest = args.split_off(s - 1);
            args.push(agg(0, rest));
        }
        if args.len() != fun.nargs { return stuck(format!("argument count of {} ({} for {})", fun.name, args.len(), fun.nargs)); }
        let mut locals = vec![Val::Undef; fun.locals.len()];
        for (i, a) in args.into_iter().enumerate() { locals[i + 1] = a; }
        st.frames.push(Frame { f: f as u32, b: 0, locals: Rc::new(locals), dest, target });
        self.stats.borrow_mut().fns.insert(f);
        Ok(())
    }
    /// Go to a block of the top frame, forgetting the values that are dead there.
    pub fn goto(&self, st: &mut State, b: usize) {
        let f = st.top().f as usize;
        let live = &self.p.info[f].live[b];
        let fr = st.topm();
        fr.b = b as u32;
        let dead = fr.locals.iter().zip(live).any(|(v, l)| !l && *v != Val::Undef);
        if dead { for (v, l) in Rc::make_mut(&mut fr.locals).iter_mut().zip(live) { if !l { *v = Val::Undef; } } }
    }
    pub fn is_join(&self, st: &State) -> bool {
        let f = st.top();
        let i = &self.p.info[f.f as usize];
        i.join[f.b as usize] && (!st.par.on || st.frames.len() == 1 || i.head[f.b as usize])
    }
    pub fn here(&self, st: &State) -> String {
        let mut s = vec![];
        for f in st.frames.iter().rev() {
            let fun = self.p.f(f.f as usize);
            if fun.local { s.push(format!("{} ({})", self.p.info[f.f as usize].path, self.p.at(f.f as usize, f.b as usize))); }
            if s.len() >= 4 { break; }
        }
        s.join(" <- ")
    }
    /// Name of the innermost function of the crate.
    pub fn local_fn(&self, st: &State) -> String {
        for f in st.frames.iter().rev() { if self.p.f(f.f as usize).local { return self.p.info[f.f as usize].path.clone(); } }
        String::new()
    }
    /// Deliver a value to the waiting destination of the top frame's pending call.
    pub fn deliver(&self, st: &mut State, dest: &Option<Ptr>, target: Option<u32>, v: Val) -> R<bool> {
        let Some(t) = target else { return Ok(false) };
        if let Some(d) = dest { self.write(st, d, v)?; }
        self.goto(st, t as usize);
        Ok(true)
    }

    /// Execute from the current block until paths join again, a call has to be summarised or the
    /// outermost function returns.
    pub fn exec(&self, st: State) -> Exec {
        let mut st = st;
        let mut n = 0;
        loop {
            n += 1;
            if n > 20000 { return Exec::Split(st, Fork::Stuck("endless straight-line execution".into())); }
            let cp = st.clone();
            match self.block(st) {
                Ok(mut outs) => {
                    if outs.len() == 1 {
                        if let Out::Next(s) = &outs[0] {
                            if !self.is_join(s) { if let Some(Out::Next(s)) = outs.pop() { st = s; continue; } }
                        }
                    }
                    return Exec::Outs(outs);
                }
                Err(f) => return Exec::Split(cp, f),
            }
        }
    }
    fn block(&self, mut st: State) -> R<Vec<Out>> {
        let (f, b) = { let t = st.top(); (t.f as usize, t.b as usize) };
        let bl = &self.p.blocks(f)[b];
        {
            let mut s = self.stats.borrow_mut();
            s.steps += 1;
            s.blocks.insert((f, b));
        }
        for s in &bl.stmts {
            match s {
                Stmt::Assign(pl, r) => {
                    let v = self.rvalue(&st, r)?;
                    match self.place(&st, pl)? {
                        Loc::Mem(p) => self.write(&mut st, &p, v)?,
                        Loc::RV(Val::Top) => {}
                        l => return stuck(format!("assignment to {:?}", l)),
                    }
                }
                Stmt::SetDiscr(pl, v) => {
                    if let Loc::Mem(p) = self.place(&st, pl)? {
                        let old = self.read_ptr(&st, &p)?;
                        let fs = match self.definite(&st, old)? { Val::Agg(_, f) => f, _ => Rc::new(vec![]) };
                        self.write(&mut st, &p, Val::Agg(*v as u32, fs))?;
                    }
                }
                Stmt::Live(l) | Stmt::Dead(l) => {
                    let fr = st.topm();
                    if fr.locals[*l] != Val::Undef { Rc::make_mut(&mut fr.locals)[*l] = Val::Undef; }
                }
                Stmt::Assume(_) => {}
                Stmt::CopyNonOverlapping => return stuck("copy_nonoverlapping"),
            }
        }
        let go = |st: &State, b: usize| { let mut s = st.clone(); self.goto(&mut s, b); Out::Next(s) };
        match &bl.term {
            Term::Goto(b) => { self.goto(&mut st, *b); Ok(vec![Out::Next(st)]) }
            Term::Switch { op, ty, targets, otherwise } => {
                let v = self.operand(&st, op)?;
                let (bits, signed) = self.bits(*ty);
                let key = |i: i128| -> u128 { if signed && bits < 128 { (i & ((1i128 << bits) - 1)) as u128 } else { i as u128 } };
                let pick = |v: &Val| -> Option<usize> { match v {
                    Val::Int(i) => Some(targets.iter().find(|t| t.0 == key(*i)).map_or(*otherwise, |t| t.1)),
                    Val::B(x) => Some(targets.iter().find(|t| t.0 == *x as u128).map_or(*otherwise, |t| t.1)),
                    _ => None,
                } };
                match &v {
                    Val::Int(_) | Val::B(_) => { let b = pick(&v).unwrap(); self.goto(&mut st, b); Ok(vec![Out::Next(st)]) }
                    Val::Pw(x, t) => {
                        let tab = table(*t);
                        let mut parts: Vec<(usize, Bits)> = vec![];
                        for i in st.vars[*x as usize].iter() {
                            let tg = match &tab[i] { Val::Undef => continue, l => match pick(l) { Some(b) => b, None => return Err(self.split_all(&st, *x, *t)) } };
                            match parts.iter_mut().find(|p| p.0 == tg) { Some(p) => p.1.set(i), None => parts.push((tg, Bits::one(i))) }
                        }
                        match parts.len() {
                            0 => Ok(vec![]),
                            1 => { self.goto(&mut st, parts[0].0); Ok(vec![Out::Next(st)]) }
                            _ => Err(Fork::Var(*x, parts.into_iter().map(|p| p.1).collect())),
                        }
                    }
                    Val::OtherChar(_) => {
                        let mut outs = vec![];
                        for (k, b) in targets {
                            match self.scalar("Eq", &v, &Val::Int(*k as i128), *ty) { Some((Val::B(false), _)) => {} _ => outs.push(go(&st, *b)) }
                        }
                        outs.push(go(&st, *otherwise));
                        Ok(outs)
                    }
                    Val::Lin(l) => {
                        let mut outs = vec![];
                        for (k, b) in targets {
                            match self.lin_cmp(&st, "Eq", l, &Lin::k(*k as i128))? { Val::B(false) => {} Val::B(true) => { outs.push(go(&st, *b)); return Ok(outs); } _ => outs.push(go(&st, *b)) }
                        }
                        outs.push(go(&st, *otherwise));
                        Ok(outs)
                    }
                    Val::Undef => stuck("branch on an undefined value"),
                    _ => {
                        if v != UNK { if !st.taint && std::env::var("JSA_TAINT").is_ok() { eprintln!("TAINT {:?} {} q {:?} vars {:?} L {:?}", v, self.here(&st), st.par.queue, st.vars.iter().map(|x| x.iter().collect::<Vec<_>>()).collect::<Vec<_>>(), st.frames.last().map(|f| f.locals.iter().enumerate().filter(|x| *x.1 != Val::Undef).collect::<Vec<_>>())); } st.taint = true; }
                        st.par.forked.0 = 1;
                        let mut bs: Vec<usize> = targets.iter().map(|t| t.1).collect();
                        bs.push(*otherwise);
                        bs.sort(); bs.dedup();
                        // an unreachable block is not a possible continuation
                        bs.retain(|b| !matches!(self.p.blocks(f)[*b].term, Term::Unreachable) || !self.p.blocks(f)[*b].stmts.is_empty());
                        Ok(bs.into_iter().map(|b| go(&st, b)).collect())
                    }
                }
            }
            Term::Return => {
                let fr = st.frames.pop().unwrap();
                let v = fr.locals[0].clone();
                if st.frames.is_empty() { st.frames.push(Frame { locals: Rc::new(vec![]), ..fr }); return Ok(vec![Out::Ret(st, v)]); }
                if self.deliver(&mut st, &fr.dest, fr.target, v)? { Ok(vec![Out::Next(st)]) } else { Ok(vec![]) }
            }
            Term::Unreachable => stuck("unreachable code reached"),
            Term::Abort => Ok(vec![]),
            Term::Assert { cond, expected, kind, target } => {
                let v = self.operand(&st, cond)?;
                self.stats.borrow_mut().asserts.insert((f, b));
                match &v {
                    Val::B(x) if x == expected => { self.goto(&mut st, *target); Ok(vec![Out::Next(st)]) }
                    Val::B(_) => { let w = self.here(&st); Ok(vec![Out::Panic(st, PanicKind::Internal(kind.clone()), w)]) }
                    Val::Pw(x, t) => Err(self.split_all(&st, *x, *t)),
                    Val::Undef => stuck("assertion on an undefined value"),
                    _ => { if v != UNK { st.taint = true; } let w = format!("{} (not excluded)", self.here(&st)); Ok(vec![go(&st, *target), Out::Panic(st, PanicKind::Internal(kind.clone()), w)]) }
                }
            }
            Term::Drop { place, target, glue } => {
                let g = glue.unwrap();
                if st.par.on && !self.p.info[g].drops_locally { self.goto(&mut st, *target); return Ok(vec![Out::Next(st)]); }
                let p = match self.place(&st, place)? { Loc::Mem(p) => Val::Ref(Rc::new(p)), _ => return stuck("drop") };
                // moved-out values are not dropped: drop flags are explicit in this MIR
                let d = st.frames.len() as u16 - 1;
                let _ = d;
                self.enter(&mut st, g, vec![p], None, Some(*target as u32), false)?;
                Ok(vec![Out::Next(st)])
            }
            Term::Call { f: callee, args, dest, target, rust_call } => {
                let mut a = vec![];
                for o in args { a.push(self.operand(&st, o)?); }
                let g = match callee {
                    Callee::Direct(g) => *g,
                    Callee::Indirect(o) => match self.operand(&st, o)? {
                        Val::Fn(g) => g,
                        v => return stuck(format!("indirect call of {:?}", v)),
                    },
                };
                let dst = match self.place(&st, dest)? { Loc::Mem(p) => Some(p), _ => None };
                let rty = self.p.info[f].rty[st.top().b as usize];
                self.stats.borrow_mut().calls += 1;
                self.call(st, g, a, dst, target.map(|t| t as u32), *rust_call, rty)
            }
            Term::Other(s) => stuck(format!("terminator {}", s)),
        }
    }
    pub fn call(&self, mut st: State, g: FnId, a: Vec<Val>, dst: Option<Ptr>, target: Option<u32>, rust_call: bool, rty: TyId) -> R<Vec<Out>> {
        let mut res = self.hooks.call(self, &mut st, g, &a, rty)?;
        if res.is_none() { res = models::call(self, &mut st, g, &a, rty)?; }
        match res {
            Some(CallRes::Val(v)) => Ok(if self.deliver(&mut st, &dst, target, v)? { vec![Out::Next(st)] } else { vec![] }),
            Some(CallRes::Many(vs)) => {
                let mut outs = vec![];
                for (mut s, v) in vs { if self.deliver(&mut s, &dst, target, v)? { outs.push(Out::Next(s)); } }
                Ok(outs)
            }
            Some(CallRes::Panic(k, m)) => { let w = if m.is_empty() { self.here(&st) } else { format!("{}: {}", m, self.here(&st)) }; Ok(vec![Out::Panic(st, k, w)]) }
            Some(CallRes::Tail(h, b)) => {
                if self.p.f(h).blocks.is_none() { return self.call(st, h, b, dst, target, false, rty); }
                let rc = self.p.f(h).kind == FnKind::Closure;
                self.enter(&mut st, h, b, dst, target, rc && false)?;
                Ok(vec![Out::Next(st)])
            }
            None => {
                let fun = self.p.f(g);
                if fun.blocks.is_none() {
                    self.problem(format!("call of {} is not modelled ({})", fun.name, self.here(&st)));
                    st.taint = true;
                    return Ok(if self.deliver(&mut st, &dst, target, Val::Top)? { vec![Out::Next(st)] } else { vec![] });
                }
                if self.hooks.summarise(self, g) {
                    // remember where the result goes
                    let fr = st.topm();
                    let _ = fr;
                    self.enter(&mut st, g, a.clone(), dst, target, rust_call)?;
                    return Ok(vec![Out::Call(st, g, a)]);
                }
                self.enter(&mut st, g, a, dst, target, rust_call)?;
                Ok(vec![Out::Next(st)])
            }
        }
    }
}

/// A truth value that may be either.
pub const UNK: Val = Val::Opaque("?");
/// The value of the input byte held by variable `v`.
pub fn ident_val(v: VarId) -> Val {
    thread_local! { static T: TableId = match mk_pw(0, (0..256).map(|i| Val::Int(i)).collect()) { Val::Pw(_, t) => t, _ => unreachable!() }; }
    T.with(|t| Val::Pw(v, *t))
}
pub fn ptr_add(p: &Ptr, k: i128) -> Ptr {
    let mut q = p.clone();
    match q.path.last_mut() {
        Some(El::I(i)) => *i = (*i as i128 + k) as u32,
        _ => if k != 0 { q.path.push(El::I(k as u32)) },
    }
    q
}
pub fn raw_slice(data: &Val, meta: &Val) -> R<Val> {
    Ok(match (data, meta) {
        (Val::Cell(s), Val::Int(n)) => Val::Sl(Rc::new(Slice { s: (**s).clone(), e: s.addk(*n) })),
        (Val::Cell(s), Val::Lin(n)) => Val::Sl(Rc::new(Slice { s: (**s).clone(), e: s.add(n, 1) })),
        (Val::Ref(p), Val::Int(n)) => {
            if let (Root::Const(c), [El::I(k)]) = (&p.root, &p.path[..]) {
                if let Val::Str(s) = &**c { return Ok(Val::Str(Rc::from(&s[*k as usize..(*k as i128 + *n) as usize]))); }
            }
            Val::Fat(p.clone(), *n as u32)
        }
        (Val::Agg(_, f), _) if f.len() == 1 => return raw_slice(&f[0], meta),
        (_, Val::Agg(_, f)) if f.is_empty() => data.clone(),
        (Val::Top, _) | (_, Val::Top) => Val::Top,
        _ => return stuck(format!("raw slice {:?} {:?}", data, meta)),
    })
}
fn set_path(slot: &mut Val, path: &[El], v: Val, sp: &mut Option<(VarId, TableId)>) {
    if path.is_empty() { *slot = v; return; }
    if let Val::Pw(x, t) = slot { *sp = Some((*x, *t)); return; }
    let (i, is_v) = match path[0] { El::F(i) => (i as usize, false), El::I(i) => (i as usize, false), El::V(i) => (i as usize, true) };
    if is_v {
        match slot {
            Val::Agg(k, f) => { if *k != i as u32 { *slot = Val::Agg(i as u32, f.clone()); } }
            _ => *slot = Val::Agg(i as u32, Rc::new(vec![])),
        }
        // the fields follow on the same aggregate
        return set_path(slot, &path[1..], v, sp);
    }
    if !matches!(slot, Val::Agg(..) | Val::Vec(..)) {
        // a wrapped scalar that is overwritten through its only field
        if path.len() == 1 && i == 0 && !matches!(slot, Val::Undef | Val::Top) { *slot = v; return; }
        *slot = Val::Agg(0, Rc::new(vec![]));
    }
    if let Val::Agg(_, f) | Val::Vec(_, f) = slot {
        let f = Rc::make_mut(f);
        while f.len() <= i { f.push(Val::Undef); }
        set_path(&mut f[i], &path[1..], v, sp);
    }
}

//! The abstract state and the traversals over it.
use crate::val::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Frame {
    pub f: u32,
    pub b: u32,
    pub locals: Rc<Vec<Val>>,
    /// where the caller wants the result
    pub dest: Option<Ptr>,
    pub target: Option<u32>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
pub struct BaseInfo {
    /// base >= other + k
    pub lbs: Vec<(Option<BaseId>, i128)>,
    /// base <= k
    pub ub: Option<i128>,
    /// as a float: base >= bits
    pub flb: Option<u64>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct LexExt {
    pub on: bool,
    pub frontier: Lin0,
    /// variables of the cells just before the frontier
    pub cells: Vec<VarId>,
    /// continuation bytes still expected
    pub pend: u8,
    /// older positions known to be character boundaries
    pub bnd: Vec<Lin>,
    pub ended: bool,
    /// second unknown end (the end of the current token) is still open
    pub open_end: bool,
    /// an example of the input so far, for reports only
    pub hist: Hist,
    pub spec: crate::lexspec::LS,
}
/// Lin with a default
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin0(pub Lin);
impl Default for Lin0 { fn default() -> Self { Lin0(Lin::k(0)) } }

/// Never compared: two states with different histories are the same state.
#[derive(Clone, Debug, Default)]
pub struct Hist(pub Rc<Vec<Bits>>);
impl PartialEq for Hist { fn eq(&self, _: &Hist) -> bool { true } }
impl Eq for Hist {}
impl std::hash::Hash for Hist { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct ParExt {
    pub on: bool,
    /// a line terminator was read since the last token
    pub pend_lt: bool,
    /// tokens read and not yet given to the grammar
    pub queue: Vec<VarId>,
    /// which of them have reached the parser's own memory
    pub stored: Vec<bool>,
    pub g: crate::gram::GId,
    /// that many variables are those of the start of the analysed function
    pub keep: usize,
    /// only the end of the input can follow (contexts of functions that read one token)
    pub eof_only: bool,
    /// an error is on its way to the caller
    pub err: bool,
    /// a token was consumed since the function started
    pub moved: bool,
    /// function that took the token the grammar refuses
    pub dead_at: u32,
    /// and has returned from there
    pub dead_up: u8,
    /// the tokens so far, for reports only
    pub hist: Hist,
    /// the path took both sides of a comparison of merged numbers
    pub forked: NoCmp,
    /// how much was read, for the progress check only
    pub reads: NoCmp,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct NoCmp(pub u64);
impl PartialEq for NoCmp { fn eq(&self, _: &NoCmp) -> bool { true } }
impl Eq for NoCmp {}
impl std::hash::Hash for NoCmp { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: Vec<Val>,
    pub vars: Vec<Bits>,
    pub bases: Vec<(BaseId, BaseInfo)>,
    pub lex: LexExt,
    pub par: ParExt,
    /// something on this path was not modelled: it may be impossible
    pub taint: bool,
}

pub enum Leaf<'a> { Int(&'a mut Val), Lin(&'a mut Lin), F(&'a mut FT) }

impl State {
    /// Write what is known about the recent bytes into the example input.
    pub fn note_cells(&mut self) {
        let h = Rc::make_mut(&mut self.lex.hist.0);
        let n = self.lex.cells.len();
        if h.len() < n { return; }
        let o = h.len() - n;
        for (i, v) in self.lex.cells.iter().enumerate() { h[o + i] = self.vars[*v as usize]; }
    }
    /// An input that follows this path (one repetition of every merged loop).
    pub fn example(&self) -> String {
        let mut s = self.clone();
        s.note_cells();
        let mut bytes = vec![];
        for d in s.lex.hist.0.iter() {
            let pref = b"ab1 0zA_$";
            let b = pref.iter().map(|x| *x as usize).find(|x| d.get(*x)).or_else(|| (33..127).find(|x| d.get(*x))).or_else(|| d.first()).unwrap_or(63);
            bytes.push(b as u8);
        }
        let t = String::from_utf8_lossy(&bytes).into_owned();
        format!("{:?}{}", t, if s.lex.ended { " at the end of the input" } else { "" })
    }
    pub fn top(&self) -> &Frame { self.frames.last().unwrap() }
    pub fn topm(&mut self) -> &mut Frame { self.frames.last_mut().unwrap() }

    /// Visit every value slot.
    pub fn each_val(&mut self, f: &mut impl FnMut(&mut Val)) {
        for fr in &mut self.frames { for v in Rc::make_mut(&mut fr.locals) { f(v); } }
        for v in &mut self.objs { f(v); }
        self.lex.spec.each_val(f);
    }
    pub fn each_val_ref(&self, f: &mut impl FnMut(&Val)) {
        for fr in &self.frames { for v in fr.locals.iter() { f(v); } }
        for v in &self.objs { f(v); }
        self.lex.spec.each_val_ref(f);
    }
    /// Visit every linear form outside of values.
    pub fn each_lin(&mut self, f: &mut impl FnMut(&mut Lin)) {
        f(&mut self.lex.frontier.0);
        self.lex.spec.each_lin(f);
    }
    pub fn vars_used(&self) -> Vec<VarId> {
        let mut order: Vec<VarId> = vec![];
        let mut add = |v: VarId| if !order.contains(&v) { order.push(v) };
        for &v in &self.par.queue { add(v); }
        for &v in &self.lex.cells { add(v); }
        self.each_val_ref(&mut |v| val_vars(v, &mut add));
        let mut s = self.lex.clone();
        let mut fl = |l: &mut Lin| lin_vars(l, &mut |v| if !order.contains(&v) { order.push(v) });
        fl(&mut s.frontier.0);
        s.spec.each_lin(&mut fl);
        order
    }
    /// Renumber variables by first appearance and drop the unused ones.
    pub fn canon_vars(&mut self, keep: usize) {
        let mut order = self.vars_used();
        if keep > 0 {
            let mut o: Vec<VarId> = (0..keep as VarId).collect();
            for v in order { if (v as usize) >= keep { o.push(v) } }
            order = o;
        }
        if order.len() == self.vars.len() && order.iter().enumerate().all(|(i, v)| i == *v as usize) { return; }
        let m: HashMap<VarId, VarId> = order.iter().enumerate().map(|(i, v)| (*v, i as VarId)).collect();
        self.vars = order.iter().map(|v| self.vars[*v as usize]).collect();
        for v in self.par.queue.iter_mut().chain(self.lex.cells.iter_mut()) { *v = m[v]; }
        if order.iter().enumerate().all(|(i, v)| i == *v as usize) { return; }
        let r = |v: VarId| m[&v];
        self.each_val(&mut |v| { rename_vars(v, &r); });
        self.each_lin(&mut |l| { lin_rename(l, &r); });
    }
    /// Resolve variables whose domain is a single element.
    pub fn normalise_singletons(&mut self) {
        let single: Vec<Option<usize>> = self.vars.iter().map(|d| if d.count() == 1 { d.first() } else { None }).collect();
        if single.iter().all(|x| x.is_none()) { return; }
        if self.par.on {
            for fr in &mut self.frames { for v in Rc::make_mut(&mut fr.locals) { subst_single(v, &single); } }
            return;
        }
        self.each_val(&mut |v| { subst_single(v, &single); });
        self.each_lin(&mut |l| { lin_single(l, &single); });
    }
    pub fn base_info(&self, b: BaseId) -> Option<&BaseInfo> { self.bases.iter().find(|x| x.0 == b).map(|x| &x.1) }
    pub fn bases_used(&mut self) -> Vec<BaseId> {
        let mut o: Vec<BaseId> = vec![];
        self.each_leaf(&mut |l| match l {
            Leaf::Int(_) => {}
            Leaf::Lin(l) => for (a, _) in &l.m { if let Atom::B(b) = a { if !o.contains(b) { o.push(*b) } } },
            Leaf::F(t) => ft_bases(t, &mut |b| if !o.contains(&b) { o.push(b) }),
        });
        o
    }
    pub fn fresh_base(&mut self) -> BaseId {
        let mut used = self.bases_used();
        used.extend(self.bases.iter().map(|x| x.0));
        (2..).find(|b| !used.contains(b)).unwrap()
    }
    /// Visit every numeric leaf, in a fixed order.
    pub fn each_leaf(&mut self, f: &mut impl FnMut(Leaf)) {
        self.each_val(&mut |v| each_leaf(v, f));
        self.each_lin(&mut |l| f(Leaf::Lin(l)));
    }
    /// Replace a base by a linear form everywhere.
    pub fn subst_base(&mut self, b: BaseId, by: &Lin) {
        self.each_leaf(&mut |l| match l {
            Leaf::Int(_) => {}
            Leaf::Lin(l) => { let k = l.coef(b); if k != 0 { l.m.retain(|x| x.0 != Atom::B(b)); *l = l.add(&by.scale(k), 1); } }
            Leaf::F(_) => {}
        });
        let mut bnd = std::mem::take(&mut self.lex.bnd);
        for l in &mut bnd { let k = l.coef(b); if k != 0 { l.m.retain(|x| x.0 != Atom::B(b)); *l = l.add(&by.scale(k), 1); } }
        self.lex.bnd = bnd;
        self.bases.retain(|x| x.0 != b);
        self.each_val(&mut |v| norm_lin(v));
    }
}

/// A linear form that became constant is an integer again.
pub fn norm_lin(v: &mut Val) {
    match v {
        Val::Lin(l) => if l.is_k() || l.m.len() == 1 { *v = (**l).clone().val() },
        Val::Agg(_, f) => if f.iter().any(has_lin) { for x in Rc::make_mut(f) { norm_lin(x) } },
        Val::Vec(_, f) => for x in Rc::make_mut(f) { norm_lin(x) },
        _ => {}
    }
}
fn has_lin(v: &Val) -> bool {
    match v { Val::Lin(_) => true, Val::Agg(_, f) | Val::Vec(_, f) => f.iter().any(has_lin), _ => false }
}
pub fn has_leaf(v: &Val) -> bool {
    match v {
        Val::Int(_) | Val::Lin(_) | Val::F(_) | Val::Sl(_) | Val::Cell(_) => true,
        Val::Agg(_, f) | Val::Vec(_, f) => f.iter().any(has_leaf),
        _ => false,
    }
}
pub fn each_leaf(v: &mut Val, f: &mut impl FnMut(Leaf)) {
    match v {
        Val::Int(_) => f(Leaf::Int(v)),
        Val::Lin(l) => f(Leaf::Lin(Rc::make_mut(l))),
        Val::F(t) => f(Leaf::F(Rc::make_mut(t))),
        Val::Sl(s) => { let s = Rc::make_mut(s); f(Leaf::Lin(&mut s.s)); f(Leaf::Lin(&mut s.e)); }
        Val::Cell(l) => f(Leaf::Lin(Rc::make_mut(l))),
        Val::Agg(_, x) | Val::Vec(_, x) => if x.iter().any(has_leaf) { for y in Rc::make_mut(x) { each_leaf(y, f) } },
        _ => {}
    }
}
pub fn ft_bases(t: &FT, f: &mut impl FnMut(BaseId)) {
    match t {
        FT::C(_) => {}
        FT::Base(b) => f(*b),
        FT::OfInt(l) => for (a, _) in &l.m { if let Atom::B(b) = a { f(*b) } },
        FT::Op(_, a, b) => { ft_bases(a, f); ft_bases(b, f) }
        FT::Powi(a, l) => { ft_bases(a, f); for (a, _) in &l.m { if let Atom::B(b) = a { f(*b) } } }
    }
}
fn lin_vars(l: &Lin, f: &mut impl FnMut(VarId)) { for (a, _) in &l.m { if let Atom::P(v, _) = a { f(*v) } } }
fn ft_vars(t: &FT, f: &mut impl FnMut(VarId)) {
    match t { FT::OfInt(l) => lin_vars(l, f), FT::Op(_, a, b) => { ft_vars(a, f); ft_vars(b, f) } FT::Powi(a, l) => { ft_vars(a, f); lin_vars(l, f) } _ => {} }
}
pub fn val_vars(v: &Val, f: &mut impl FnMut(VarId)) {
    match v {
        Val::Pw(x, _) => f(*x),
        Val::Lin(l) | Val::Cell(l) => lin_vars(l, f),
        Val::F(t) => ft_vars(t, f),
        Val::Sl(s) => { lin_vars(&s.s, f); lin_vars(&s.e, f) }
        Val::Agg(_, x) | Val::Vec(_, x) => for y in x.iter() { val_vars(y, f) },
        Val::Ref(p) | Val::Fat(p, _) => if let Root::Const(c) = &p.root { val_vars(c, f) },
        _ => {}
    }
}
fn lin_rename(l: &mut Lin, r: &impl Fn(VarId) -> VarId) {
    let mut any = false;
    for (a, _) in &mut l.m { if let Atom::P(v, _) = a { *v = r(*v); any = true; } }
    if any { l.m.sort(); }
}
fn ft_rename(t: &FT, r: &impl Fn(VarId) -> VarId) -> FT {
    match t {
        FT::OfInt(l) => { let mut l = l.clone(); lin_rename(&mut l, r); FT::OfInt(l) }
        FT::Op(o, a, b) => FT::Op(o, Rc::new(ft_rename(a, r)), Rc::new(ft_rename(b, r))),
        FT::Powi(a, l) => { let mut l = l.clone(); lin_rename(&mut l, r); FT::Powi(Rc::new(ft_rename(a, r)), l) }
        _ => t.clone(),
    }
}
fn any_var(v: &Val) -> bool { let mut a = false; val_vars(v, &mut |_| a = true); a }
pub fn rename_vars(v: &mut Val, r: &impl Fn(VarId) -> VarId) {
    match v {
        Val::Pw(x, _) => *x = r(*x),
        Val::Lin(l) | Val::Cell(l) => { let mut a = false; lin_vars(l, &mut |_| a = true); if a { lin_rename(Rc::make_mut(l), r) } }
        Val::F(t) => *v = Val::F(Rc::new(ft_rename(t, r))),
        Val::Sl(s) => { let s = Rc::make_mut(s); lin_rename(&mut s.s, r); lin_rename(&mut s.e, r) }
        Val::Agg(_, x) | Val::Vec(_, x) => if x.iter().any(any_var) { for y in Rc::make_mut(x) { rename_vars(y, r) } },
        Val::Ref(p) | Val::Fat(p, _) => if let Root::Const(c) = &p.root {
            if any_var(c) { let mut c2 = (**c).clone(); rename_vars(&mut c2, r); Rc::make_mut(p).root = Root::Const(Rc::new(c2)); }
        },
        _ => {}
    }
}
fn lin_single(l: &mut Lin, s: &[Option<usize>]) {
    let mut add = 0;
    let mut any = false;
    for (a, k) in &l.m { if let Atom::P(v, t) = a { if let Some(i) = s[*v as usize] { if let Val::Int(c) = table(*t)[i] { add += c * *k as i128; any = true; } } } }
    if any { l.m.retain(|x| match x.0 { Atom::P(v, _) => s[v as usize].is_none(), _ => true }); l.c += add; }
}
fn ft_single(t: &FT, s: &[Option<usize>]) -> FT {
    match t {
        FT::OfInt(l) => { let mut l = l.clone(); lin_single(&mut l, s); if l.is_k() { FT::c(l.c as f64) } else { FT::OfInt(l) } }
        FT::Op(o, a, b) => FT::mk(o, ft_single(a, s), ft_single(b, s)),
        FT::Powi(a, l) => { let mut l = l.clone(); lin_single(&mut l, s); FT::Powi(Rc::new(ft_single(a, s)), l) }
        _ => t.clone(),
    }
}
pub fn subst_single(v: &mut Val, s: &[Option<usize>]) {
    match v {
        Val::Pw(x, t) => if let Some(i) = s[*x as usize] { *v = table(*t)[i].clone(); },
        Val::Lin(l) => { let mut l2 = (**l).clone(); lin_single(&mut l2, s); *v = l2.val(); }
        Val::Cell(l) => lin_single(Rc::make_mut(l), s),
        Val::F(t) => *v = Val::F(Rc::new(ft_single(t, s))),
        Val::Sl(x) => { let x = Rc::make_mut(x); lin_single(&mut x.s, s); lin_single(&mut x.e, s) }
        Val::Agg(_, x) | Val::Vec(_, x) => if x.iter().any(any_var) { for y in Rc::make_mut(x) { subst_single(y, s) } },
        Val::Ref(p) | Val::Fat(p, _) => if let Root::Const(c) = &p.root {
            if any_var(c) { let mut c2 = (**c).clone(); subst_single(&mut c2, s); Rc::make_mut(p).root = Root::Const(Rc::new(c2)); }
        },
        _ => {}
    }
}

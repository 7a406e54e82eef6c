//! The fixpoint engine: a worklist over abstract states at the blocks where paths join, with subsumption
//! and widening of the numeric parts.
use crate::interp::*;
use crate::lexspec::Q;
use crate::state::*;
use crate::val::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

/// What the engine asks the mode.
pub trait Mode {
    /// The byte at the frontier is needed: all the ways it can be.
    fn expand(&self, cx: &Cx, st: State) -> Vec<State>;
    fn ret(&self, cx: &Cx, entry: usize, st: State, v: Val, wl: &mut Vec<Work>);
    fn panic(&self, cx: &Cx, entry: usize, st: State, k: PanicKind, at: String);
    fn stuck(&self, cx: &Cx, entry: usize, st: &State, why: String);
    fn call(&self, _cx: &Cx, _entry: usize, _st: State, _f: ir::FnId, _a: Vec<Val>, _wl: &mut Vec<Work>) {}
    /// Bring the specification up to date before the state is stored.
    fn settle(&self, _cx: &Cx, _entry: usize, st: State) -> Vec<State> { vec![st] }
    /// Work that became possible elsewhere.
    fn more(&self, _cx: &Cx, _wl: &mut Vec<Work>) {}
    fn skip(&self, _entry: usize) -> bool { false }
    /// results of calls are stored before they are followed
    fn summaries(&self) -> bool { false }
    /// number of states that differ only in numbers before they are merged at a loop head
    fn threshold(&self) -> usize { std::env::var("JSA_T").map_or(1, |x| x.parse().unwrap()) }
    fn limit(&self) -> usize { 300_000 }
    fn over(&self, since: std::time::Instant) -> bool { since.elapsed().as_secs() > 300 }
    /// what was found suffices: stop
    fn enough(&self) -> bool { false }
}
pub struct Work { pub entry: usize, pub st: State }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum NL { L(Lin), F(FT) }

struct Stored { leaves: Vec<NL>, vars: Vec<Bits>, bases: Vec<(BaseId, BaseInfo)>, bnd: Vec<Lin>, state: Option<State>, class: Vec<i64>, work: (Vec<(u32, u32)>, u64) }

/// no more than this for small blocks
const MEMORY: usize = 20 << 30;
pub struct Explorer<'a> {
    pub cx: &'a Cx<'a>,
    pub mode: &'a dyn Mode,
    store: HashMap<(u64, u64), Vec<Stored>>,
    work: BTreeMap<(Vec<(u32, u32)>, u64), Work>,
    pub states: usize,
    pub widened: usize,
    seq: u64,
    pub hist: HashMap<(u32, u32), HashMap<(u64, u64), usize>>,
    pub aborted: bool,
    pstore: HashMap<(u64, u64), Vec<(Box<[Bits]>, PKey)>, std::hash::BuildHasherDefault<Two>>,
    pwork: BTreeMap<PKey, Work>,
    trace: bool,
}
type PKey = (u32, u32, u32, u64);
/// A fast hash of 128 bits.
#[derive(Default)]
struct Two(u64, u64);
impl Hasher for Two {
    fn finish(&self) -> u64 { self.0 ^ self.1.rotate_left(31) }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0; 8]; x[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(x)); } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) {
        let m = ((self.0 ^ x) as u128).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 = (m >> 64) as u64 ^ m as u64;
        let n = (self.1.rotate_left(23) ^ x.wrapping_mul(0xD6E8_FEB8_6659_FD93)).wrapping_mul(0xA076_1D64_78BD_642F);
        self.1 = n ^ n >> 29;
    }
}

/// Restrict a table to a domain, so that equal functions have equal tables.
fn restrict(t: TableId, d: &Bits) -> Val {
    thread_local! { static M: std::cell::RefCell<HashMap<(TableId, Bits), Val>> = Default::default(); }
    if let Some(v) = M.with(|m| m.borrow().get(&(t, *d)).cloned()) { return v; }
    let tab = table(t);
    let v = mk_pw(0, tab.iter().enumerate().map(|(i, x)| if d.get(i) { x.clone() } else { Val::Undef }).collect());
    M.with(|m| m.borrow_mut().insert((t, *d), v.clone()));
    v
}
/// A table of numbers as a multiple of one without a common factor.
fn primitive(t: TableId) -> (i64, TableId) {
    thread_local! { static M: std::cell::RefCell<HashMap<TableId, (i64, TableId)>> = Default::default(); }
    if let Some(v) = M.with(|m| m.borrow().get(&t).cloned()) { return v; }
    let tab = table(t);
    let mut g: i64 = 0;
    let mut ok = true;
    let mut neg = None;
    for x in tab.iter() {
        match x {
            Val::Int(i) if i.abs() < 1 << 40 => { if *i != 0 && neg.is_none() { neg = Some(*i < 0); } let (mut a, mut b) = (g, i.abs() as i64); while b != 0 { let c = a % b; a = b; b = c; } g = a; }
            Val::Undef => {}
            _ => ok = false,
        }
    }
    if neg == Some(true) { g = -g; }
    let r = if !ok || g == 0 || g == 1 { (1, t) } else {
        match mk_pw(0, tab.iter().map(|x| if let Val::Int(i) = x { Val::Int(i / g as i128) } else { x.clone() }).collect()) { Val::Pw(_, t2) => (g, t2), _ => (1, t) }
    };
    M.with(|m| m.borrow_mut().insert(t, r));
    r
}
fn restrict_lin(l: &mut Lin, vars: &[Bits]) {
    if !l.m.iter().any(|a| matches!(a.0, Atom::P(..))) { return; }
    let mut out = Lin::k(l.c);
    for (a, k) in &l.m {
        let one = match a {
            Atom::P(v, t) => match restrict(*t, &vars[*v as usize]) { Val::Pw(_, t2) => { let (g, t3) = primitive(t2); out = out.add(&Lin::atom(Atom::P(*v, t3)), *k * g); continue; } Val::Int(i) => Lin::k(i), _ => Lin::atom(*a) },
            _ => Lin::atom(*a),
        };
        out = out.add(&one, *k);
    }
    *l = out;
}
fn restrict_ft(t: &FT, vars: &[Bits]) -> FT {
    match t {
        FT::OfInt(l) => { let mut l = l.clone(); restrict_lin(&mut l, vars); if l.is_k() { FT::c(l.c as f64) } else { FT::OfInt(l) } }
        FT::Op(o, a, b) => FT::mk(o, restrict_ft(a, vars), restrict_ft(b, vars)),
        FT::Powi(a, l) => { let mut l = l.clone(); restrict_lin(&mut l, vars); FT::Powi(Rc::new(restrict_ft(a, vars)), l) }
        _ => t.clone(),
    }
}
pub fn restrict_val(v: &mut Val, vars: &[Bits]) {
    match v {
        Val::Pw(x, t) => { *v = match restrict(*t, &vars[*x as usize]) { Val::Pw(_, t2) => Val::Pw(*x, t2), o => o }; }
        Val::Lin(l) => { let mut l2 = (**l).clone(); restrict_lin(&mut l2, vars); *v = l2.val(); }
        Val::Cell(l) => restrict_lin(Rc::make_mut(l), vars),
        Val::F(t) => *v = Val::F(Rc::new(restrict_ft(t, vars))),
        Val::Sl(s) => { let s = Rc::make_mut(s); restrict_lin(&mut s.s, vars); restrict_lin(&mut s.e, vars) }
        Val::Agg(_, x) | Val::Vec(_, x) => {
            let mut any = false;
            for y in x.iter() { val_vars(y, &mut |_| any = true) }
            if any { for y in Rc::make_mut(x) { restrict_val(y, vars) } }
        }
        _ => {}
    }
}
/// Variables a value depends on in a way that is not a number.
pub fn scalar_vars(v: &Val, f: &mut impl FnMut(VarId)) {
    match v {
        Val::Pw(x, _) => f(*x),
        Val::Agg(_, x) | Val::Vec(_, x) => for y in x.iter() { scalar_vars(y, f) },
        Val::Ref(_) | Val::Fat(..) => val_vars(v, f),
        _ => {}
    }
}
/// The contribution of a byte that was passed a while ago becomes an unknown of its own.
fn forget_digits(st: &mut State, used: &[VarId]) {
    let n = st.lex.cells.len();
    let recent: Vec<VarId> = st.lex.cells[n.saturating_sub(2)..].to_vec();
    let mut atoms: Vec<(VarId, TableId)> = vec![];
    {
        let mut note = |l: &Lin| for (a, _) in &l.m { if let Atom::P(v, t) = a { if !recent.contains(v) && !used.contains(v) && !atoms.contains(&(*v, *t)) { atoms.push((*v, *t)) } } };
        fn ft(t: &FT, f: &mut impl FnMut(&Lin)) { match t { FT::OfInt(l) => f(l), FT::Op(_, a, b) => { ft(a, f); ft(b, f) } FT::Powi(a, l) => { ft(a, f); f(l) } _ => {} } }
        st.each_leaf(&mut |l| match l { Leaf::Lin(l) => note(l), Leaf::F(t) => ft(t, &mut note), Leaf::Int(_) => {} });
    }
    if atoms.is_empty() { return; }
    let mut map: HashMap<Atom, Atom> = HashMap::new();
    for (v, t) in atoms {
        let b = st.fresh_base();
        let tab = table(t);
        let lo = st.vars[v as usize].iter().filter_map(|i| if let Val::Int(k) = tab[i] { Some(k) } else { None }).min();
        let hi = st.vars[v as usize].iter().filter_map(|i| if let Val::Int(k) = tab[i] { Some(k) } else { None }).max();
        st.bases.push((b, BaseInfo { lbs: lo.map(|k| (None, k)).into_iter().collect(), ub: hi, flb: None }));
        map.insert(Atom::P(v, t), Atom::B(b));
    }
    let lin = |l: &mut Lin| { let mut c = false; for (a, _) in &mut l.m { if let Some(x) = map.get(a) { *a = *x; c = true; } } if c { l.m.sort(); } };
    fn ft(t: &FT, f: &impl Fn(&mut Lin)) -> FT {
        match t {
            FT::OfInt(l) => { let mut l = l.clone(); f(&mut l); FT::OfInt(l) }
            FT::Op(o, a, b) => FT::mk(o, ft(a, f), ft(b, f)),
            FT::Powi(a, l) => { let mut l = l.clone(); f(&mut l); FT::Powi(Rc::new(ft(a, f)), l) }
            _ => t.clone(),
        }
    }
    st.each_leaf(&mut |l| match l { Leaf::Lin(l) => lin(l), Leaf::F(t) => *t = ft(t, &lin), Leaf::Int(_) => {} });
}
/// Bring a state to its normal form.
pub fn normalise(st: &mut State) {
    st.normalise_singletons();
    let vars = st.vars.clone();
    if st.par.on {
        for fr in &mut st.frames { for v in Rc::make_mut(&mut fr.locals) { restrict_val(v, &vars); } }
        crate::parmode::settle_lines(st);
        st.canon_vars(st.par.keep);
        return;
    }
    st.each_val(&mut |v| restrict_val(v, &vars));
    st.each_lin(&mut |l| restrict_lin(l, &vars));
    if st.lex.on {
        let mut used: Vec<VarId> = vec![];
        st.each_val_ref(&mut |v| scalar_vars(v, &mut |x| used.push(x)));
        let n = st.lex.cells.len();
        let mut drop = n.saturating_sub(4);
        for (i, v) in st.lex.cells.iter().enumerate() { if i < drop && used.contains(v) { drop = i; } }
        if drop > 0 { st.note_cells(); }
        st.lex.cells.drain(..drop);
        forget_digits(st, &used);
    }
    st.canon_vars(0);
    if st.lex.on {
        // keep the boundary facts near positions the state still mentions
        let mut pos: Vec<Lin> = vec![];
        st.each_leaf(&mut |l| { let x = match l { Leaf::Int(v) => match v { Val::Int(i) => Lin::k(*i), _ => return }, Leaf::Lin(l) => l.clone(), Leaf::F(_) => return }; if !pos.contains(&x) { pos.push(x) } });
        let fr = st.lex.frontier.0.clone();
        if !pos.contains(&fr) { pos.push(fr); }
        st.lex.bnd.retain(|b| b.is_k() && b.c <= 4 && b.c >= 0 || pos.iter().any(|p| { let d = b.sub(p); d.is_k() && d.c.abs() <= 3 }));
        st.lex.bnd.sort();
        st.lex.bnd.dedup();
    }
    let used = st.bases_used();
    let mut need = used;
    for l in &st.lex.bnd { for (a, _) in &l.m { if let Atom::B(b) = a { if !need.contains(b) { need.push(*b) } } } }
    let bases = st.bases.clone();
    loop {
        let n = need.len();
        for (b, i) in &bases { if need.contains(b) { for (o, _) in &i.lbs { if let Some(o) = o { if !need.contains(o) { need.push(*o) } } } } }
        if need.len() == n { break; }
    }
    st.bases.retain(|x| need.contains(&x.0));
    canon_bases(st);
}
/// Renumber the bases by first appearance.
fn canon_bases(st: &mut State) {
    let mut order: Vec<BaseId> = st.bases_used().into_iter().filter(|b| *b > 1).collect();
    for l in &st.lex.bnd { for (a, _) in &l.m { if let Atom::B(b) = a { if *b > 1 && !order.contains(b) { order.push(*b) } } } }
    for (b, i) in &st.bases {
        if *b > 1 && !order.contains(b) { order.push(*b) }
        for (o, _) in &i.lbs { if let Some(o) = o { if *o > 1 && !order.contains(o) { order.push(*o) } } }
    }
    if order.iter().enumerate().all(|(i, b)| *b as usize == i + 2) {
        st.bases.sort();
        return;
    }
    let map: HashMap<BaseId, BaseId> = order.iter().enumerate().map(|(i, b)| (*b, i as BaseId + 2)).collect();
    rename_bases(st, &|b: BaseId| if b <= 1 { b } else { map[&b] });
}
fn rename_bases(st: &mut State, r: &impl Fn(BaseId) -> BaseId) {
    let lin = |l: &mut Lin| { let mut c = false; for (a, _) in &mut l.m { if let Atom::B(b) = a { let x = r(*b); if x != *b { *a = Atom::B(x); c = true; } } } if c { l.m.sort(); } };
    fn ft(t: &FT, f: &impl Fn(&mut Lin), r: &impl Fn(BaseId) -> BaseId) -> FT {
        match t {
            FT::Base(b) => FT::Base(r(*b)),
            FT::OfInt(l) => { let mut l = l.clone(); f(&mut l); FT::OfInt(l) }
            FT::Op(o, a, b) => FT::mk(o, ft(a, f, r), ft(b, f, r)),
            FT::Powi(a, l) => { let mut l = l.clone(); f(&mut l); FT::Powi(Rc::new(ft(a, f, r)), l) }
            _ => t.clone(),
        }
    }
    st.each_leaf(&mut |l| match l { Leaf::Lin(l) => lin(l), Leaf::F(t) => *t = ft(t, &lin, r), Leaf::Int(_) => {} });
    for l in &mut st.lex.bnd { lin(l); }
    st.lex.bnd.sort();
    for (b, i) in &mut st.bases { *b = r(*b); for (o, _) in &mut i.lbs { if let Some(o) = o { *o = r(*o); } } i.lbs.sort(); }
    st.bases.sort();
}

fn leaves_of(st: &mut State) -> Vec<NL> {
    let mut v = vec![];
    st.each_leaf(&mut |l| v.push(match l {
        Leaf::Int(x) => match x { Val::Int(i) => NL::L(Lin::k(*i)), _ => unreachable!() },
        Leaf::Lin(l) => NL::L(l.clone()),
        Leaf::F(t) => NL::F(t.clone()),
    }));
    v
}
fn set_leaves(st: &mut State, v: &[NL]) {
    let mut i = 0;
    st.each_leaf(&mut |l| {
        match (l, &v[i]) {
            (Leaf::Int(x), NL::L(n)) => *x = n.clone().val(),
            (Leaf::Lin(x), NL::L(n)) => *x = n.clone(),
            (Leaf::F(x), NL::F(n)) => *x = n.clone(),
            _ => unreachable!(),
        }
        i += 1;
    });
    st.each_val(&mut |v| norm_lin(v));
}
/// Which numbers are positions next to the frontier: only states that agree here are merged.
fn class_of(p: &crate::prog::Prog, leaves: &[NL], st: &State) -> Vec<i64> {
    if !st.lex.on { return vec![]; }
    let mut out: Vec<i64> = vec![];
    let mut starts = vec![Lin::k(0)];
    st.each_val_ref(&mut |v| slice_starts(v, &mut starts));
    let rel: Vec<Lin> = starts.iter().map(|s| st.lex.frontier.0.sub(s)).collect();
    for l in leaves { if let NL::L(l) = l { for r in &rel { let d = r.c - l.c; out.push(if d >= -2 && d <= 3 && r.m == l.m { d as i64 } else { 9 }) } } }
    // bytes that were counted already may be read again
    if matches!(st.lex.spec.q, Q::T | Q::TCr | Q::TE2 | Q::TE280 | Q::TEnd | Q::W) { for d in &st.vars { let mut h = DefaultHasher::new(); d.hash(&mut h); out.push(h.finish() as i64); } }
    out.push(1000);
    // numbers the loop does not change keep their value
    let n = st.frames.len();
    for (d, f) in st.frames.iter().enumerate() {
        let info = &p.info[f.f as usize];
        for (i, v) in f.locals.iter().enumerate() {
            if has_leaf(v) && !(d + 1 == n && info.varying[f.b as usize].as_ref().map_or(true, |x| x[i])) { consts(v, &mut out); }
        }
    }
    out
}
fn consts(v: &Val, out: &mut Vec<i64>) {
    match v {
        Val::Int(i) => out.push(*i as i64),
        Val::Agg(_, x) | Val::Vec(_, x) => for y in x.iter() { consts(y, out) },
        v => if has_leaf(v) { out.push(-77) },
    }
}
fn slice_starts(v: &Val, out: &mut Vec<Lin>) {
    match v {
        Val::Sl(s) => if !out.contains(&s.s) { out.push(s.s.clone()) },
        Val::Agg(_, x) | Val::Vec(_, x) => for y in x.iter() { slice_starts(y, out) },
        _ => {}
    }
}
fn shape_hash(entry: usize, st: &State) -> (u64, u64) {
    let mut s = st.clone();
    s.vars.clear();
    s.bases.clear();
    s.lex.bnd.clear();
    s.each_leaf(&mut |l| match l {
        Leaf::Int(x) => *x = Val::Lin(Rc::new(Lin::k(0))),
        Leaf::Lin(x) => *x = Lin::k(0),
        Leaf::F(x) => *x = FT::C(0),
    });
    let mut a = DefaultHasher::new();
    let mut b = DefaultHasher::new();
    7u8.hash(&mut b);
    for h in [&mut a, &mut b] { entry.hash(h); st.vars.len().hash(h); s.hash(h); }
    (a.finish(), b.finish())
}

#[derive(Default)]
struct Sub { l: BTreeMap<BaseId, Lin>, f: BTreeMap<BaseId, FT> }
impl Sub {
    fn lin(&self, l: &Lin) -> Option<Lin> {
        let mut r = Lin::k(l.c);
        for (a, k) in &l.m {
            match a {
                Atom::B(b) if *b <= 1 => r = r.add(&Lin::atom(*a), *k),
                Atom::B(b) => r = r.add(self.l.get(b)?, *k),
                _ => r = r.add(&Lin::atom(*a), *k),
            }
        }
        Some(r)
    }
    fn ft(&mut self, g: &FT, n: &FT) -> bool {
        match (g, n) {
            (FT::Base(b), _) => match self.f.get(b) { Some(x) => x == n, None => { self.f.insert(*b, n.clone()); true } },
            (FT::C(a), FT::C(b)) => a == b,
            (FT::OfInt(a), FT::OfInt(b)) => self.unify(a, b),
            (FT::OfInt(a), FT::C(b)) => { let v = f64::from_bits(*b); v.fract() == 0.0 && self.unify(a, &Lin::k(v as i128)) }
            (FT::Op(o, a, b), FT::Op(p, c, d)) => o == p && self.ft(a, c) && self.ft(b, d),
            (FT::Powi(a, l), FT::Powi(b, m)) => self.ft(a, b) && self.unify(l, m),
            _ => false,
        }
    }
    fn unify(&mut self, g: &Lin, n: &Lin) -> bool {
        if let [(Atom::B(b), 1)] = g.m[..] {
            if b > 1 && !self.l.contains_key(&b) { self.l.insert(b, n.addk(-g.c)); return true; }
        }
        let free: Vec<(BaseId, i64)> = g.m.iter().filter_map(|(a, k)| match a { Atom::B(b) if *b > 1 && !self.l.contains_key(b) => Some((*b, *k)), _ => None }).collect();
        if let [(b, k)] = free[..] {
            if k != 1 && k != -1 { return false; }
            // solve for the one base that is not bound yet
            let mut rest = g.clone();
            rest.m.retain(|x| x.0 != Atom::B(b));
            let r = match self.lin(&rest) { Some(r) => r, None => return false };
            self.l.insert(b, n.sub(&r).scale(k));
            return true;
        }
        match self.lin(g) { Some(x) => x == *n, None => false }
    }
}

impl<'a> Explorer<'a> {
    pub fn new(cx: &'a Cx<'a>, mode: &'a dyn Mode) -> Explorer<'a> {
        Explorer { cx, mode, store: HashMap::new(), work: BTreeMap::new(), states: 0, widened: 0, seq: 0, hist: HashMap::new(), aborted: false, pstore: Default::default(), pwork: BTreeMap::new(), trace: std::env::var("JSA_HIST").is_ok() }
    }
    fn covers(&self, g: &Stored, leaves: &[NL], n: &State) -> bool {
        if g.vars.len() != n.vars.len() || !n.vars.iter().zip(&g.vars).all(|(a, b)| a.subset(b)) { return false; }
        let mut s = Sub::default();
        let mut later = vec![];
        for (i, (a, b)) in g.leaves.iter().zip(leaves).enumerate() {
            match (a, b) {
                (NL::L(a), NL::L(b)) => {
                    let simple = a.m.is_empty() || a.m.len() == 1 && a.m[0].1 == 1;
                    if simple { if !s.unify(a, b) { return false; } } else { later.push(i); }
                }
                (NL::F(_), NL::F(_)) => later.push(i),
                _ => return false,
            }
        }
        for i in later {
            match (&g.leaves[i], &leaves[i]) {
                (NL::L(a), NL::L(b)) => if !s.unify(a, b) { return false; },
                (NL::F(a), NL::F(b)) => if !s.ft(a, b) { return false; },
                _ => return false,
            }
        }
        for (b, info) in &g.bases {
            if *b > 1 && !s.l.contains_key(b) && !s.f.contains_key(b) { continue; }
            if let Some(t) = s.f.get(b) { if let Some(x) = info.flb { match self.cx.flb(n, t) { Some(y) if y >= f64::from_bits(x) => {} _ => return false } } }
            if let (Some(u), Some(l)) = (info.ub, s.l.get(b)) { match self.cx.lb(n, &l.scale(-1)) { Some(x) if -x <= u => {} _ => return false } }
            let me = if *b <= 1 { Lin::base(*b) } else if let Some(l) = s.l.get(b) { l.clone() } else { continue };
            for (o, k) in &info.lbs {
                let other = match o { None => Lin::k(0), Some(o) => match s.lin(&Lin::base(*o)) { Some(x) => x, None => continue } };
                match self.cx.lb(n, &me.sub(&other)) { Some(x) if x >= *k => {} _ => return false }
            }
        }
        for p in &g.bnd { match s.lin(p) { Some(x) => if !n.lex.bnd.contains(&x) { return false; }, None => return false } }
        true
    }
    /// Least general numeric generalisation of two states with the same shape.
    fn anti_unify(&self, m: &Stored, leaves: &[NL], n: &State) -> State {
        // the names of the bases mean nothing across states
        let off: BaseId = 1 + m.bases.iter().chain(&n.bases).map(|x| x.0).max().unwrap_or(1).max(1);
        let mut mst = m.state.clone().unwrap();
        rename_bases(&mut mst, &|b| if b <= 1 { b } else { b + off });
        let mleaves = leaves_of(&mut mst);
        let mbnd = mst.lex.bnd.clone();
        let mst = &mst;
        let mut out = n.clone();
        for (a, b) in out.vars.iter_mut().zip(&m.vars) { *a = a.or(b); }
        let next = 2 * off + 2;
        struct Au { next: BaseId, lins: Vec<(Lin, Lin, BaseId)>, fts: Vec<(FT, FT, BaseId)>, cand: Vec<(FT, FT)>, done: Vec<(Lin, Lin, Lin)> }
        impl Au {
            fn lin(&mut self, a: &Lin, b: &Lin) -> Lin {
                if a == b { return a.clone(); }
                for (x, y, r) in &self.done {
                    if a.m == x.m && b.m == y.m && a.c - x.c == b.c - y.c { return r.addk(a.c - x.c); }
                }
                let r = self.lin1(a, b);
                self.done.push((a.clone(), b.clone(), r.clone()));
                r
            }
            fn lin1(&mut self, a: &Lin, b: &Lin) -> Lin {
                for (x, y, f) in &self.lins {
                    let (d, e) = (a.sub(x), b.sub(y));
                    if d == e { return Lin::base(*f).add(&d, 1); }
                    for (z, w, g) in &self.lins {
                        for s in [1, -1] {
                            let (d2, e2) = (d.add(z, s), e.add(w, s));
                            if d2 == e2 { return Lin::base(*f).add(&Lin::base(*g), -s).add(&d2, 1); }
                        }
                    }
                }
                for (x, y, f) in &self.lins {
                    let (d, e) = (a.add(x, 1), b.add(y, 1));
                    if d == e { return Lin::base(*f).scale(-1).add(&d, 1); }
                }
                self.lins.push((a.clone(), b.clone(), self.next));
                self.next += 1;
                Lin::base(self.next - 1)
            }
            fn ft(&mut self, a: &FT, b: &FT) -> FT {
                if a == b { return a.clone(); }
                if let Some((_, _, f)) = self.fts.iter().find(|x| x.0 == *a && x.1 == *b) { return FT::Base(*f); }
                if !matches!((a, b), (FT::OfInt(_), FT::OfInt(_))) {
                for i in 0..self.cand.len() {
                    for j in i..self.cand.len() {
                        for op in ["+", "*"] {
                            let (x, y) = (&self.cand[i], &self.cand[j]);
                            if x.0 == *a && x.1 == *b || y.0 == *a && y.1 == *b { continue; }
                            if FT::mk(op, x.0.clone(), y.0.clone()) == *a && FT::mk(op, x.1.clone(), y.1.clone()) == *b {
                                let (x, y) = (x.clone(), y.clone());
                                let (l, r) = (self.ft(&x.0, &x.1), self.ft(&y.0, &y.1));
                                return FT::Op(op, Rc::new(l.clone().min(r.clone())), Rc::new(l.max(r)));
                            }
                        }
                    }
                }
                }
                match (a, b) {
                    (FT::OfInt(x), FT::OfInt(y)) => return FT::OfInt(self.lin(x, y)),
                    (FT::Powi(x, l), FT::Powi(y, k)) => { let p = self.ft(x, y); return FT::Powi(Rc::new(p), self.lin(l, k)); }
                    _ => {}
                }
                self.fts.push((a.clone(), b.clone(), self.next));
                self.next += 1;
                FT::Base(self.next - 1)
            }
        }
        let mut au = Au { next, lins: vec![], fts: vec![], cand: vec![], done: vec![] };
        for (a, b) in mleaves.iter().zip(leaves) { if let (NL::F(a), NL::F(b)) = (a, b) { let x = (a.clone(), b.clone()); if !au.cand.contains(&x) { au.cand.push(x) } } }
        let mut res = vec![];
        // the specification's numbers first, so that the code's are expressed by them
        for (a, b) in mleaves.iter().zip(leaves).rev() {
            res.push(match (a, b) { (NL::L(a), NL::L(b)) => NL::L(au.lin(a, b)), (NL::F(a), NL::F(b)) => NL::F(au.ft(a, b)), _ => unreachable!() });
        }
        res.reverse();
        set_leaves(&mut out, &res);
        // what is known about the new bases
        let mut infos: Vec<(BaseId, BaseInfo)> = vec![];
        for (b, i) in &n.bases {
            // bases both sides share keep the facts both sides have
            if let Some((_, j)) = mst.bases.iter().find(|x| x.0 == *b) {
                let lbs = i.lbs.iter().filter(|x| j.lbs.iter().any(|y| y.0 == x.0)).map(|x| { let y = j.lbs.iter().find(|y| y.0 == x.0).unwrap(); (x.0, x.1.min(y.1)) }).collect();
                infos.push((*b, BaseInfo { lbs, ub: i.ub.and_then(|x| j.ub.map(|y| x.max(y))), flb: match (i.flb, j.flb) { (Some(a), Some(b)) => Some(if f64::from_bits(a) < f64::from_bits(b) { a } else { b }), _ => None } }));
            }
        }
        let shared: Vec<BaseId> = infos.iter().map(|x| x.0).collect();
        for (x, y, f) in &au.lins {
            let mut info = BaseInfo::default();
            let mut rel = |o: Option<BaseId>, a: &Lin, b: &Lin| {
                if let (Some(p), Some(q)) = (self.cx.lb(mst, a), self.cx.lb(n, b)) {
                    if let Some(k) = if is_base(x) { sink(p, q) } else { Some(p.min(q)) } { if o.is_none() || k >= -3 { info.lbs.push((o, k)); } }
                }
            };
            rel(None, x, y);
            if let (Some(p), Some(q)) = (self.cx.lb(mst, &x.scale(-1)), self.cx.lb(n, &y.scale(-1))) { if !is_base(x) || q >= p { info.ub = Some((-p).max(-q)); } }
            let mut rel = |o: Option<BaseId>, a: &Lin, b: &Lin| {
                if let (Some(p), Some(q)) = (self.cx.lb(mst, a), self.cx.lb(n, b)) {
                    if let Some(k) = if is_base(x) { sink(p, q) } else { Some(p.min(q)) } { if o.is_none() || k >= -3 { info.lbs.push((o, k)); } }
                }
            };
            for o in &shared { rel(Some(*o), &x.sub(&Lin::base(*o)), &y.sub(&Lin::base(*o))); }
            for (u, w, g) in &au.lins { if g < f { rel(Some(*g), &x.sub(u), &y.sub(w)); } }
            infos.push((*f, info));
        }
        for (x, y, f) in &au.fts {
            let lb = match (self.cx.flb(mst, x), self.cx.flb(n, y)) { (Some(a), Some(b)) => if matches!(x, FT::Base(_)) { sink(a.floor() as i128, b.floor() as i128).map(|k| (k as f64).to_bits()) } else { Some(a.min(b).to_bits()) }, _ => None };
            infos.push((*f, BaseInfo { lbs: vec![], ub: None, flb: lb }));
        }
        out.bases = infos;
        // boundary facts
        let mut bnd: Vec<Lin> = vec![];
        for l in &mbnd { if n.lex.bnd.contains(l) { bnd.push(l.clone()); } }
        for (x, y, f) in &au.lins {
            for c in -4..=2 {
                if mbnd.contains(&x.addk(c)) && n.lex.bnd.contains(&y.addk(c)) { bnd.push(Lin::base(*f).addk(c)); }
            }
        }
        out.lex.bnd = bnd;
        normalise(&mut out);
        out
    }
    fn prio(&self, entry: usize, st: &State) -> Vec<(u32, u32)> {
        let mut v = vec![];
        if st.par.on { v.push((u32::MAX - entry as u32, 0)); }
        for f in &st.frames { v.push((self.cx.p.info[f.f as usize].rpo[f.b as usize], f.f)); }
        // deeper calls first
        v.push((u32::MAX, 0));
        v
    }
    /// The same for the parser, whose states differ in domains only or not at all.
    fn add_par(&mut self, entry: usize, mut st: State) {
        loop {
            let mut h = Two(entry as u64 ^ 0x9E37_79B9_7F4A_7C15, 0x1234_5678_9ABC_DEF1);
            st.vars.len().hash(&mut h);
            st.frames.hash(&mut h);
            st.objs.hash(&mut h);
            st.par.hash(&mut h);
            st.taint.hash(&mut h);
            let bucket = self.pstore.entry((h.0, h.1)).or_default();
            if bucket.iter().any(|g| st.vars.iter().zip(g.0.iter()).all(|(a, b)| a.subset(b))) { return; }
            // states that differ in one domain only are one state
            let free = |i: usize| i < st.par.keep && !st.par.queue.contains(&(i as VarId));
            if let Some(i) = bucket.iter().position(|g| { let d = g.0.iter().zip(&st.vars).enumerate().filter(|(_, (a, b))| a != b); let (mut n, mut k) = (0, 0); for (i, _) in d { if free(i) { k += 1 } else { n += 1 } } n <= 1 && n + k > 0 }) {
                let g = bucket.swap_remove(i);
                self.pwork.remove(&g.1);
                self.states -= 1;
                for (a, b) in st.vars.iter_mut().zip(g.0.iter()) { *a = a.or(b); }
                normalise(&mut st);
                continue;
            }
            let (work, states) = (&mut self.pwork, &mut self.states);
            bucket.retain(|g| {
                if !g.0.iter().zip(&st.vars).all(|(a, b)| a.subset(b)) { return true; }
                if work.remove(&g.1).is_some() { *states -= 1; false } else { true }
            });
            self.seq += 1;
            let t = st.top();
            let k = (u32::MAX - entry as u32, self.cx.p.info[st.frames[0].f as usize].rpo[st.frames[0].b as usize], self.cx.p.info[t.f as usize].rpo[t.b as usize], self.seq);
            bucket.push((st.vars.clone().into_boxed_slice(), k));
            self.states += 1;
            if self.trace { *self.hist.entry((t.f, t.b)).or_default().entry((h.0, h.1)).or_insert(0) += 1; }
            self.pwork.insert(k, Work { entry, st });
            return;
        }
    }
    /// Add a state that is at a join; merges and deduplicates.
    pub fn add(&mut self, entry: usize, mut st: State) {
        normalise(&mut st);
        if st.vars.iter().any(|d| d.is_empty()) { return; }
        if st.par.on { self.add_par(entry, st); return; }
        let at_head = { let f = st.top(); self.cx.p.info[f.f as usize].head[f.b as usize] };
        let mut round = 0;
        loop {
            let key = shape_hash(entry, &st);
            let leaves = leaves_of(&mut st);
            let bucket = std::mem::take(self.store.entry(key).or_default());
            let seen = bucket.iter().any(|g| self.covers(g, &leaves, &st));
            if seen { self.store.insert(key, bucket); return; }
            // states that differ in one domain only are one state
            let one = bucket.iter().position(|g| g.vars.len() == st.vars.len() && g.vars.iter().zip(&st.vars).filter(|(a, b)| a != b).count() == 1 && g.leaves == leaves && g.bases == st.bases && g.bnd == st.lex.bnd);
            if let Some(i) = one {
                let mut bucket = bucket;
                let g = bucket.swap_remove(i);
                self.work.remove(&g.work);
                self.states -= 1;
                for (a, b) in st.vars.iter_mut().zip(&g.vars) { *a = a.or(b); }
                self.store.insert(key, bucket);
                normalise(&mut st);
                continue;
            }
            let class = class_of(self.cx.p, &leaves, &st);
            let any = bucket.len() > 3000;
            let part = |c: &[i64]| { let n = if any { c.iter().position(|x| *x == 1000).map_or(c.len(), |i| i + 1) } else { c.len() }; c[..n].to_vec() };
            let mine = part(&class);
            let live = bucket.iter().filter(|g| g.vars.len() == st.vars.len() && part(&g.class) == mine).count();
            if at_head && round < 3 && live >= if self.cx.p.f(st.top().f as usize).local { self.mode.threshold() } else { 4 } {
                let m = bucket.iter().enumerate().filter(|g| g.1.vars.len() == st.vars.len() && part(&g.1.class) == mine)
                    .min_by_key(|g| { let d = g.1.leaves.iter().zip(&leaves).filter(|(a, b)| a != b).count(); (d, usize::MAX - g.0) }).map(|g| g.0).unwrap();
                let g = self.anti_unify(&bucket[m], &leaves, &st);
                if let Ok(w) = std::env::var("JSA_MERGE") { let t = st.top(); if w == format!("{}:{}", t.f, t.b) {
                    let d: Vec<_> = bucket[m].leaves.iter().zip(&leaves).zip(leaves_of(&mut g.clone())).filter(|x| (x.0).0 != (x.0).1).collect();
                    eprintln!("MERGE {} {:?}\n  {:?}\n  {:?}\n  {:?}", st.example(), d, bucket[m].bases, st.bases, g.bases);
                } }
                self.store.insert(key, bucket);
                self.widened += 1;
                if g == st { self.insert(key, entry, leaves, st); return; }
                st = g;
                round += 1;
                continue;
            }
            self.store.insert(key, bucket);
            self.insert(key, entry, leaves, st);
            return;
        }
    }
    fn insert(&mut self, key: (u64, u64), entry: usize, leaves: Vec<NL>, st: State) {
        let at_head = { let f = st.top(); self.cx.p.info[f.f as usize].head[f.b as usize] };
        self.seq += 1;
        let p = self.prio(entry, &st);
        let new = Stored { work: (p.clone(), 0), leaves: leaves.clone(), vars: st.vars.clone(), bases: st.bases.clone(), bnd: st.lex.bnd.clone(), class: vec![], state: None };
        // states that still wait and say less
        let mut bucket = std::mem::take(self.store.get_mut(&key).unwrap());
        bucket.retain(|g| {
            let covered = match self.work.get(&g.work) { Some(w) => self.covers(&new, &g.leaves, &w.st), None => false };
            if covered { self.work.remove(&g.work); self.states -= 1; }
            !covered
        });
        *self.store.get_mut(&key).unwrap() = bucket;
        let class = class_of(self.cx.p, &leaves, &st);
        let s = Stored { work: (p.clone(), self.seq), leaves, vars: st.vars.clone(), bases: st.bases.clone(), bnd: st.lex.bnd.clone(), class, state: if at_head { Some(st.clone()) } else { None } };
        self.store.get_mut(&key).unwrap().push(s);
        self.states += 1;
        if std::env::var("JSA_HIST").is_ok() {
            let t = st.top();
            *self.hist.entry((t.f, t.b)).or_default().entry(key).or_insert(0) += 1;
            if std::env::var("JSA_HIST").unwrap() == format!("{}:{}", t.f, t.b) { eprintln!("--- {:?} {} {:?} {:?} bnd {:?}\n   {:?}", key, st.example(), st.lex.spec, st.vars, st.lex.bnd, st.bases); eprintln!("   {:?} fr {:?}", st.frames.iter().map(|f| f.locals.iter().enumerate().filter(|x| *x.1 != Val::Undef).collect::<Vec<_>>()).collect::<Vec<_>>(), st.lex.frontier); }
        }
        self.work.insert((p, self.seq), Work { entry, st });
    }
    fn resumed(&mut self, w: Work) {
        if self.mode.skip(w.entry) { return; }
        for s in self.mode.settle(self.cx, w.entry, w.st) { self.add(w.entry, s); }
    }
    pub fn print_hist(&self) {
        let mut v: Vec<_> = self.hist.iter().map(|(k, m)| (m.values().sum::<usize>(), m.len(), *m.values().max().unwrap(), *k)).collect();
        v.sort();
        for (n, shapes, mx, (f, b)) in v.iter().rev().take(40) { eprintln!("{:7} states {:5} shapes max {:5}  {}:{} {} {} {}", n, shapes, mx, f, b, self.cx.p.f(*f as usize).name, self.cx.p.at(*f as usize, *b as usize), if self.cx.p.info[*f as usize].head[*b as usize] { "HEAD" } else { "" }); }
    }
    pub fn run(&mut self) {
        let mut pops = 0u64;
        let t0 = std::time::Instant::now();
        while let Some(w) = self.pwork.pop_first().map(|x| x.1).or_else(|| self.work.pop_first().map(|x| x.1)) {
            pops += 1;
            if let Ok(n) = std::env::var("JSA_POPS") { if pops > n.parse().unwrap() { return; } }
            if pops % 2000 == 0 && std::env::var("JSA_TRACE").is_ok() { eprintln!("{} states {} work {} at {} [{}] {} {:?}", pops, self.states, self.work.len(), self.cx.here(&w.st), self.cx.p.f(w.st.top().f as usize).name, w.st.example(), w.st.lex.spec); }
            if pops % 256 == 0 {
                if self.mode.over(t0) { self.aborted = true; self.mode.stuck(self.cx, w.entry, &w.st, "time limit reached".into()); return; }
                if crate::alloc::TAKEN.load(std::sync::atomic::Ordering::Relaxed) > MEMORY { self.aborted = true; self.mode.stuck(self.cx, w.entry, &w.st, "memory limit reached".into()); return; }
                if pops % 4096 == 0 && self.mode.enough() { self.aborted = true; return; }
            }
            if self.trace && pops % 65536 == 0 { let e: std::collections::BTreeSet<u32> = self.pwork.keys().map(|k| k.0).collect(); eprintln!("T {:?} states {} waiting {} in {} contexts", t0.elapsed().as_secs(), self.states, self.pwork.len(), e.len()); }
            if self.states > self.mode.limit() { self.aborted = true; self.mode.stuck(self.cx, w.entry, &w.st, "state limit reached".into()); return; }
            let mut local = vec![w];
            let mut n = 0;
            loop {
                {
                    let mut wl = vec![];
                    self.mode.more(self.cx, &mut wl);
                    for w in wl { self.resumed(w); }
                }
                let Some(w) = local.pop() else { break };
                if self.mode.skip(w.entry) { continue; }
                n += 1;
                if n > 50_000 { self.mode.stuck(self.cx, w.entry, &w.st, "too many paths between joins".into()); break; }
                let entry = w.entry;
                match self.cx.exec(w.st) {
                    Exec::Split(st, Fork::Var(v, parts)) => {
                        self.cx.stats.borrow_mut().forks += 1;
                        for d in parts {
                            let mut s = st.clone();
                            s.vars[v as usize] = s.vars[v as usize].and(&d);
                            if s.vars[v as usize].is_empty() { continue; }
                            s.normalise_singletons();
                            local.push(Work { entry, st: s });
                        }
                    }
                    Exec::Split(st, Fork::Cell) => {
                        self.cx.stats.borrow_mut().forks += 1;
                        for s in self.mode.expand(self.cx, st) { local.push(Work { entry, st: s }); }
                    }
                    Exec::Split(st, Fork::Stuck(why)) => self.mode.stuck(self.cx, entry, &st, why),
                    Exec::Outs(outs) => for o in outs {
                        match o {
                            Out::Next(s) => if self.cx.is_join(&s) { for s in self.mode.settle(self.cx, entry, s) { self.add(entry, s); } } else { local.push(Work { entry, st: s }); },
                            Out::Ret(s, v) => { let mut wl = vec![]; self.mode.ret(self.cx, entry, s, v, &mut wl); for w in wl { if self.mode.summaries() { self.resumed(w) } else { local.push(w) } } }
                            Out::Panic(s, k, at) => self.mode.panic(self.cx, entry, s, k, at),
                            Out::Call(s, f, a) => { let mut wl = vec![]; self.mode.call(self.cx, entry, s, f, a, &mut wl); for w in wl { if self.mode.summaries() { self.resumed(w) } else { local.push(w) } } }
                        }
                    },
                }
            }
        }
    }
}
fn is_base(l: &Lin) -> bool { l.m.len() == 1 && matches!(l.m[0].0, Atom::B(b) if b > 1) }

/// Lower bounds only ever sink to the next of a few marks.
fn sink(old: i128, new: i128) -> Option<i128> {
    if new >= old { return Some(old); }
    [10, 3, 2, 1, 0, -1, -2, -3].iter().cloned().find(|k| *k <= new)
}

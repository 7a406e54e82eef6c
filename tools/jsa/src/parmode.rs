//! The parser analysis: every function of the parser is analysed once per abstract context (parser flags,
//! lookahead, grammar position), in lockstep with the syntactic grammar of gram.rs.  Tokens come from a
//! model of `next_token` that returns anything the hints allow.
use crate::explore::*;
use crate::gram::*;
use crate::interp::*;
use crate::lexmode::{deref_ty, next_token_fn, Finding, LexRun};
use crate::lexspec::{cow, Lay, PUNCT};
use crate::prog::*;
use crate::state::*;
use crate::val::*;
use ir::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

thread_local! { static LT: Cell<Option<TableId>> = Cell::new(None); static TOKT: Cell<Option<TableId>> = Cell::new(None); }
fn lt_table() -> TableId { LT.with(|x| x.get().unwrap()) }
fn tok_table() -> TableId { TOKT.with(|x| x.get().unwrap()) }

/// Line flags beside a token are tied to it.
pub fn settle_lines(st: &mut State) {
    let (lt, tok) = (lt_table(), tok_table());
    let vars = &st.vars;
    let queue = &st.par.queue;
    fn stale(v: &Val, lt: TableId, queue: &[VarId]) -> bool { match v { Val::Pw(x, t) => *t == lt && !queue.contains(x), Val::Agg(_, f) | Val::Vec(_, f) => f.iter().any(|y| stale(y, lt, queue)), _ => false } }
    fn walk(v: &mut Val, lt: TableId, tok: TableId, vars: &[Bits], queue: &[VarId]) {
        match v {
            Val::Pw(x, t) if *t == lt && !queue.contains(x) => *v = Val::Top,
            Val::Agg(_, f) | Val::Vec(_, f) => {
                let var = f.iter().find_map(|y| match y { Val::Pw(x, t) if *t == tok && queue.contains(x) => Some(*x), _ => None });
                let hit = var.map_or(false, |x| f.iter().any(|y| matches!(y, Val::B(b) if vars[x as usize].iter().all(|i| (i & 1 == 1) == *b))));
                let deep = f.iter().any(|y| matches!(y, Val::Agg(..) | Val::Vec(..))) || f.iter().any(|y| stale(y, lt, queue));
                if !hit && !deep { return; }
                for y in Rc::make_mut(f) {
                    if let (Some(x), Val::B(b)) = (var, &*y) { if vars[x as usize].iter().all(|i| (i & 1 == 1) == *b) { *y = Val::Pw(x, lt); continue; } }
                    walk(y, lt, tok, vars, queue);
                }
            }
            _ => {}
        }
    }
    let mut objs = std::mem::take(&mut st.objs);
    for o in &mut objs { walk(o, lt, tok, vars, queue); }
    st.objs = objs;
}

struct Caller { entry: usize, st: State, dest: Option<Ptr>, target: Option<u32>, roots: Vec<Root>, rests: Vec<Vec<Vec<u32>>>, keep: bool, full: State, f: FnId, probe: u8, wide: bool, redone: Cell<bool>, places: Option<Vec<Ptr>> }
struct Pending { g: GId, doms: Vec<Bits>, place: String, hist: Vec<Bits>, taint: bool, forked: bool }
struct Entry { f: FnId, dead: bool, leaf: bool, obsolete: bool, under: bool, fails: bool, exits: Vec<State>, callers: Vec<Caller>, pend: Vec<Pending> }

pub struct ParMode<'p> {
    pub p: &'p Prog,
    pub gram: Gram,
    findings: RefCell<BTreeMap<String, Finding>>,
    agreed: RefCell<BTreeMap<String, u64>>,
    entries: RefCell<Vec<Entry>>,
    index: RefCell<HashMap<State, usize>>,
    /// domains of the contexts that differ in nothing else
    boxes: RefCell<HashMap<State, Vec<Vec<Bits>>>>,
    ks: RefCell<HashMap<FnId, usize>>,
    todo: RefCell<Vec<Work>>,
    summarised: Vec<bool>,
    /// functions that read tokens but see nothing of the parser
    leaf: RefCell<Vec<bool>>,
    next_token: FnId,
    hint_ty: TyId,
    lay: Lay,
    tokval: Val,
    eof: usize,
    edges: RefCell<BTreeSet<(usize, usize)>>,
    pure_memo: RefCell<HashMap<(FnId, Vec<Val>), Option<Val>>>,
    pure: Vec<bool>,
    /// tokens that do not begin an expression
    idle: Bits,
    /// numbers of different calls are merged
    merge: bool,
    /// entry and path now looked at, and where each finding was made
    prov: Cell<(usize, bool)>,
    provs: RefCell<BTreeMap<String, Vec<(usize, bool)>>>,
    depth: Cell<u32>,
    until: std::time::Instant,
    /// the findings that matter now
    want: Want<'p>,
    found: Cell<Option<std::time::Instant>>,
    // classes
    slash: [usize; 3],
    brace: [usize; 3],
}
/// How much of the tokens so far is kept for the reports.
const KEEP: usize = 24;
pub type Want<'a> = Option<&'a dyn Fn(&Finding) -> bool>;
fn push_hist(h: &mut Vec<Bits>, more: &[Bits]) {
    h.extend(more.iter().cloned());
    if h.len() > KEEP { h.drain(..h.len() - KEEP); }
}
fn both(c: usize) -> Bits { let mut b = Bits::one(c * 2); b.set(c * 2 + 1); b }

impl<'p> ParMode<'p> {
    fn find(&self, area: &str, what: &str, place: &str, msg: impl FnOnce() -> String, taint: bool) {
        let key = format!("{}: {}: {}", area, what, place);
        let decided = what != "not established" && area != "not modelled" && !taint;
        if decided { let mut v = self.provs.borrow_mut(); let v = v.entry(key.clone()).or_default(); let x = self.prov.get(); if v.len() < 200 && !v.contains(&x) { v.push(x) } }
        let mut fs = self.findings.borrow_mut();
        if fs.get(&key).map_or(true, |f| decided && !f.decided) { fs.insert(key.clone(), Finding { area: area.into(), what: what.into(), key, msg: msg(), decided }); }
    }
    fn find_areas(&self, bits: u32, what: &str, place: &str, msg: impl Fn() -> String, taint: bool) {
        let mut n = self.gram.area_names(bits);
        // the part of the grammar that the function reads counts as well
        for (m, a) in [("statements", "statement"), ("expressions", "expression"), ("classes", "class"), ("functions", "function"), ("module", "module"), ("declarations", "declaration")] {
            if place.contains(&format!("::{}::", m)) && !n.iter().any(|x| x == a) { n.push(a.into()); }
        }
        if n.is_empty() { n.push("module".into()); }
        for a in n { self.find(&a, what, place, &msg, taint); }
    }
    fn agree(&self, k: String) { *self.agreed.borrow_mut().entry(k).or_insert(0) += 1; }
    fn fname(&self, f: FnId) -> &str { &self.p.info[f].path }
    /// An example of the tokens so far.
    fn text(&self, entry: usize, hist: &[Bits]) -> String {
        let mut s = String::new();
        let mut all: Vec<Bits> = hist.to_vec();
        if let Ok(es) = self.entries.try_borrow() {
            let mut e = entry;
            for _ in 0..60 {
                let Some(c) = es.get(e).and_then(|x| x.callers.first()) else { break };
                if all.len() >= KEEP || c.entry == e { break; }
                let mut h = (*c.st.par.hist.0).clone();
                h.append(&mut all);
                all = h;
                e = c.entry;
            }
        }
        if all.len() > KEEP { all.drain(..all.len() - KEEP); s.push_str("..."); }
        for d in &all {
            let pref = ["other name", "NUM", ";", "{", "}", "(", ")"];
            let e = pref.iter().map(|c| self.gram.class(c) * 2).find(|e| d.get(*e)).or_else(|| d.first()).unwrap_or(0);
            s.push(if e & 1 == 1 { '\n' } else { ' ' });
            s.push_str(match &self.gram.classes[e / 2][..] { "other name" => "x", "NUM" => "1", "STR" => "\"s\"", "REGEX" => "/r/", "TNO" => "`t`", "THEAD" => "`t${", "TMID" => "}t${", "TTAIL" => "}t`", "EOF" => "<end>", o => o });
        }
        format!("{:?}", s.trim_start_matches(' '))
    }
    fn elem(&self, d: &Bits) -> String {
        let most = if std::env::var("JSA_REJ").is_ok() { 200 } else { 6 }; let v: Vec<String> = d.iter().take(most).map(|e| format!("{}{}", self.gram.classes[e / 2], if e & 1 == 1 { " after a line break" } else { "" })).collect();
        format!("{}{}", v.join(", "), if d.count() > 6 { ", ..." } else { "" })
    }
    fn pw_ref(v: &Val, x: VarId, lt: TableId) -> bool {
        match v {
            Val::Pw(y, t) => *y == x && *t != lt,
            Val::Agg(_, f) | Val::Vec(_, f) => f.iter().any(|y| Self::pw_ref(y, x, lt)),
            Val::Ref(p) | Val::Fat(p, _) => if let Root::Const(c) = &p.root { Self::pw_ref(c, x, lt) } else { false },
            _ => false,
        }
    }
    /// Give the tokens the code has taken to the grammar.
    fn settle1(&self, entry: usize, mut st: State, out: &mut Vec<State>) {
        let lt = lt_table();
        for i in 0..st.par.queue.len() {
            if !st.par.stored[i] && st.objs.iter().any(|o| Self::pw_ref(o, st.par.queue[i], lt)) { st.par.stored[i] = true; }
        }
        let Some(&v) = st.par.queue.first() else { out.push(st); return };
        let in_objs = st.objs.iter().any(|o| Self::pw_ref(o, v, lt));
        let taken = if st.par.stored[0] { !in_objs } else { !in_objs && !st.frames.iter().any(|f| f.locals.iter().any(|o| Self::pw_ref(o, v, lt))) };
        if !taken { out.push(st); return; }
        if self.entries.borrow()[entry].leaf { self.unleaf(entry); return; }
        let f = self.entries.borrow()[entry].f;
        let mut groups: Vec<(GId, Bits, u32)> = vec![];
        let d = st.vars[v as usize];
        for e in d.iter() {
            match self.gram.step(st.par.g, e / 2, e & 1 == 1) {
                Step::Any => self.agree("left open".into()),
                Step::Under => { if self.entries.borrow()[entry].obsolete { return; } if std::env::var("JSA_BUMP").is_ok() { let eg = self.index.borrow().iter().find(|x| *x.1 == entry).map(|x| (self.gram.show(x.0.par.g), x.0.vars.iter().map(|d| self.elem(d)).collect::<Vec<_>>(), x.0.objs.clone())); eprintln!("BUMP {:?} OBJS {:?} queue {:?} stored {:?} doms {:?} frames {:?} || {} {} {} g {}", eg, st.objs, st.par.queue, st.par.stored, self.doms(&st).iter().map(|d| self.elem(d)).collect::<Vec<_>>(), st.frames.iter().map(|f| (f.f, f.b)).collect::<Vec<_>>(), self.fname(f), self.text(entry, &st.par.hist.0), self.elem(&Bits::one(e)), self.gram.show(st.par.g)); } self.need(entry); return; }
                Step::To(g, a) => match groups.iter_mut().find(|x| x.0 == g) { Some(x) => { x.1.set(e); x.2 |= a; } None => groups.push((g, Bits::one(e), a)) },
            }
        }
        let was = self.gram.dead(st.par.g).is_some();
        for (g, b, a) in groups {
            let mut s = st.clone();
            s.vars[v as usize] = b;
            s.par.queue.remove(0);
            s.par.stored.remove(0);
            if std::env::var("JSA_G").is_ok() && self.gram.size(g) > 6 { eprintln!("SET {} {}", self.text(entry, &s.par.hist.0), self.gram.show(g)); }
            s.par.g = g;
            s.par.moved = true;
            if !was {
                if self.gram.dead(g).is_some() { s.par.dead_at = f as u32 + 1; } else { for n in self.gram.area_names(a) { self.agree(n); } }
            }
            push_hist(Rc::make_mut(&mut s.par.hist.0), &[b]);
            self.settle1(entry, s, out);
        }
    }
    /// More of the grammar stack is needed at this entry.
    fn need(&self, entry: usize) {
        let mut todo = vec![entry];
        let mut seen: std::collections::HashSet<usize> = Default::default();
        let mut fs: Vec<FnId> = vec![];
        {
            let mut es = self.entries.borrow_mut();
            while let Some(i) = todo.pop() {
                if es[i].obsolete || !seen.insert(i) { continue; }
                es[i].under = true;
                let mut own = i == 0;
                for c in &es[i].callers {
                    if es[c.entry].obsolete { continue; }
                    if c.rests.iter().all(|r| r.iter().all(|s| s.len() == 1 && s[0] & 0x8000_0000 != 0)) { todo.push(c.entry); } else { own = true; }
                }
                if own && !fs.contains(&es[i].f) { fs.push(es[i].f); }
            }
        }
        if std::env::var("JSA_BUMP").is_ok() { for f in &fs { eprintln!("BUMPF {} from {}", self.fname(*f), self.fname(self.entries.borrow()[entry].f)); } }
        for f in fs { self.bump(f); }
    }
    fn bump(&self, f: FnId) {
        let mut ks = self.ks.borrow_mut();
        let k = ks.entry(f).or_insert(1);
        if *k >= 5 { self.find("not modelled", "grammar depth", self.fname(f), || "more than 5 elements of the grammar stack are needed".into(), true); return; }
        *k += 1;
        let mut es = self.entries.borrow_mut();
        let mut idx = self.index.borrow_mut();
        let mut again = vec![];
        for e in es.iter_mut() { if e.f == f && !e.obsolete { e.obsolete = true; e.exits.clear(); e.pend.clear(); again.append(&mut e.callers); } }
        idx.retain(|_, i| es[*i].f != f);
        let mut todo = self.todo.borrow_mut();
        for c in again { if !es[c.entry].obsolete { todo.push(Work { entry: c.entry | REDO, st: c.full }); } }
    }
    fn mut_root<'s>(st: &'s mut State, r: &Root) -> Option<&'s mut Val> {
        match r { Root::Local(d, l) => st.frames.get_mut(*d as usize).map(|f| &mut Rc::make_mut(&mut f.locals)[*l as usize]), Root::Obj(i) => st.objs.get_mut(*i as usize), _ => None }
    }
    fn get_root<'s>(st: &'s State, r: &Root) -> Option<&'s Val> {
        match r { Root::Local(d, l) => st.frames.get(*d as usize).map(|f| &f.locals[*l as usize]), Root::Obj(i) => st.objs.get(*i as usize), _ => None }
    }
    fn call_st(&self, cx: &Cx, entry: usize, full: State) {
        let mut st = full.clone();
        let callee = st.frames.pop().unwrap();
        let f = callee.f as FnId;
        if st.par.err { self.find("rejection", "an error is not passed on", self.fname(self.entries.borrow()[entry].f), || format!("{} is called after a rejection, at {}", self.fname(f), cx.here(&full)), st.taint); return; }
        if self.gram.dead(st.par.g).is_some() {
            // the code may still notice later, what it reads until then is not looked at
            self.call_one(cx, entry, full, st, 0);
            return;
        }
        if let Some(q) = st.par.queue.first().cloned() {
            // tokens that begin an expression are looked at apart from the others
            let d = self.gram.closed(st.par.g, &st.vars[q as usize]);
            if d.is_empty() { self.agree("left open".into()); return; }
            let mut full = full;
            full.vars[q as usize] = d;
            st.vars[q as usize] = d;
            let t = self.gram.trim(st.par.g, &d);
            let mut rest = d;
            let mut go = |b: Bits, g: GId, probe: u8| {
                let mut x = full.clone();
                x.vars[q as usize] = b;
                x.par.g = g;
                let mut y = x.clone();
                y.frames.pop();
                self.call_one(cx, entry, x, y, probe);
            };
            let p = self.gram.predict(t, &d);
            if let Some((h, b)) = p { go(b, h, 0); rest = rest.minus(&b); }
            let bad = self.doomed(st.par.g, &rest);
            if !bad.is_empty() { go(bad, self.gram.trim(st.par.g, &bad), 1); rest = rest.minus(&bad); }
            if !rest.is_empty() { go(rest, self.gram.trim(st.par.g, &rest), if p.is_some() { 2 } else { 0 }); }
            return;
        }
        self.call_one(cx, entry, full, st, 0);
    }
    /// Tokens no well-formed program has here, in whatever way they are read.
    fn doomed(&self, g: GId, d: &Bits) -> Bits {
        let mut out = Bits::EMPTY;
        let dead = |c: usize, lt: bool| match self.gram.step(g, c, lt) { Step::To(x, _) => self.gram.dead(x).is_some(), _ => false };
        for e in d.iter() {
            let (c, lt) = (e / 2, e & 1 == 1);
            let alt: &[usize] = if self.slash.contains(&c) { &self.slash } else if self.brace.contains(&c) { &self.brace } else { &[] };
            if dead(c, lt) && alt.iter().all(|a| dead(*a, lt)) { out.set(e); }
        }
        out
    }
    /// If nothing that can come next is allowed, what was expected before does not matter.
    fn lost(&self, g: GId, d: &Bits) -> Option<GId> {
        thread_local! { static M: RefCell<HashMap<(GId, Bits), Option<GId>>> = Default::default(); }
        if self.gram.dead(g).is_some() { return None; }
        if let Some(r) = M.with(|m| m.borrow().get(&(g, *d)).cloned()) { return r; }
        let r = if self.doomed(g, d) == *d {
            let a = d.iter().fold(0, |a, e| a | match self.gram.step(g, e / 2, e & 1 == 1) { Step::To(x, _) => self.gram.dead(x).unwrap_or(0), _ => 0 });
            if a == 0 { None } else { Some(self.gram.never(a)) }
        } else { None };
        M.with(|m| m.borrow_mut().insert((g, *d), r));
        r
    }
    /// `probe`: the callee is first tried without the grammar, because it is not expected to take the next
    /// token (1: the grammar refuses that token anyway, 2: the call is repeated if it does take it).
    fn call_one(&self, cx: &Cx, entry: usize, full: State, st: State, probe: u8) { self.call_with(cx, entry, full, st, probe, true) }
    /// `wide`: the first try is made for all tokens that begin nothing.
    fn call_with(&self, cx: &Cx, entry: usize, full: State, st: State, probe: u8, wide: bool) {
        let callee = full.frames.last().unwrap().clone();
        let f = callee.f as FnId;
        // memory the callee can reach
        let mut roots: Vec<Root> = vec![];
        fn refs(v: &Val, out: &mut Vec<Root>) { match v { Val::Ref(p) | Val::Fat(p, _) => if matches!(p.root, Root::Local(..) | Root::Obj(_)) && !out.contains(&p.root) { out.push(p.root.clone()) }, Val::Agg(_, f) | Val::Vec(_, f) => for y in f.iter() { refs(y, out) }, _ => {} } }
        for l in callee.locals.iter() { refs(l, &mut roots); }
        let mut i = 0;
        while i < roots.len() { let v = Self::get_root(&st, &roots[i]).cloned().unwrap_or(Val::Undef); refs(&v, &mut roots); i += 1; }
        let to_obj = |r: &Root| roots.iter().position(|x| x == r).map(|i| Root::Obj(i as u16));
        let mut e = State::default();
        e.vars = st.vars.clone();
        e.taint = st.taint;
        e.par = st.par.clone();
        e.objs = roots.iter().map(|r| { let mut v = Self::get_root(&st, r).cloned().unwrap_or(Val::Undef); remap(&mut v, &to_obj); open_vecs(&mut v); v }).collect();
        let mut locals = (*callee.locals).clone();
        for (l, live) in locals.iter_mut().zip(&cx.p.info[f].live[0]) { if *live { remap(l, &to_obj); } else { *l = Val::Undef; } }
        if self.merge { for l in &mut locals { if let Val::Int(_) = l { *l = UNK; } } }
        e.frames = vec![Frame { f: callee.f, b: callee.b, locals: Rc::new(locals), dest: None, target: None }];
        e.par.moved = false;
        e.par.forked.0 = 0;
        e.par.hist = Default::default();
        e.par.dead_at = 0;
        e.par.dead_up = 0;
        let mut rests = vec![];
        if probe > 0 || self.gram.dead(e.par.g).is_some() { e.par.g = self.gram.refused(); } else {
            match e.par.queue.first() {
                Some(q) => e.par.g = self.gram.trim(e.par.g, &e.vars[*q as usize]),
                None => { let d = Bits::full(self.gram.classes.len() * 2); if let Some((h, b)) = self.gram.predict(e.par.g, &d) { if d.iter().all(|i| b.get(i) || match (self.gram.step(e.par.g, i / 2, i & 1 == 1), self.gram.step(h, i / 2, i & 1 == 1)) { (Step::To(x, _), Step::To(y, _)) => self.gram.dead(x).is_some() && self.gram.dead(y).is_some(), _ => false }) { e.par.g = h; } } }
            }
            let k = *self.ks.borrow().get(&f).unwrap_or(&1);
            let (g, r) = self.gram.cut(e.par.g, k);
            e.par.g = g;
            rests = r;
        }
        let lt = lt_table();
        let mut keep = false;
        let wide = wide && probe > 0 && st.par.queue.first().map_or(false, |q| e.vars[*q as usize].subset(&self.idle));
        if wide { keep = true; }
        for q in &st.par.queue {
            if (*q as usize) < st.par.keep { keep = true; }
            for (d, fr) in st.frames.iter().enumerate() { for (l, v) in fr.locals.iter().enumerate() { if !roots.contains(&Root::Local(d as u16, l as u16)) && Self::pw_ref(v, *q, lt) { keep = true; } } }
            for (i, v) in st.objs.iter().enumerate() { if !roots.contains(&Root::Obj(i as u16)) && Self::pw_ref(v, *q, lt) { keep = true; } }
        }
        e.par.keep = 0;
        normalise(&mut e);
        if keep { e.par.keep = e.par.queue.len(); }
        if wide { for (i, q) in e.par.queue.clone().into_iter().enumerate() { e.vars[q as usize] = if i == 0 { self.idle } else { Bits::full(self.gram.classes.len() * 2) }; } }
        // a context that the grammar has no part in is shared by all domains it was looked at for
        if !wide && !e.par.queue.is_empty() && e.vars.len() == e.par.queue.len() {
            let mut e = e;
            e.par.keep = e.par.queue.len();
            let mut key = e.clone();
            key.vars.clear();
            let boxes = self.boxes.borrow().get(&key).cloned().unwrap_or_default();
            let mut rest = vec![e.vars.clone()];
            for b in &boxes {
                let mut next = vec![];
                for r in rest {
                    let meet: Vec<Bits> = r.iter().zip(b).map(|(x, y)| x.and(y)).collect();
                    if meet.iter().any(|x| x.is_empty()) { next.push(r); continue; }
                    // the common part has a context already
                    let mut x = e.clone();
                    x.vars = b.clone();
                    self.call_in(cx, entry, &full, &st, &callee, &roots, &rests, true, probe, false, x, Some(&meet));
                    let mut left = r;
                    for i in 0..left.len() {
                        let m = left[i].minus(&b[i]);
                        if !m.is_empty() { let mut o = left.clone(); o[i] = m; next.push(o); }
                        left[i] = left[i].and(&b[i]);
                    }
                }
                rest = next;
            }
            for r in rest {
                let mut w = r.clone();
                if self.gram.dead(e.par.g).is_some() { for x in &mut w[1..] { *x = Bits::full(self.gram.classes.len() * 2); } }
                self.boxes.borrow_mut().entry(key.clone()).or_default().push(w.clone());
                let mut x = e.clone();
                x.vars = w;
                self.call_in(cx, entry, &full, &st, &callee, &roots, &rests, true, probe, false, x, Some(&r));
            }
            return;
        }
        self.call_in(cx, entry, &full, &st, &callee, &roots, &rests, keep, probe, wide, e, None);
    }
    #[allow(clippy::too_many_arguments)]
    fn call_in(&self, cx: &Cx, entry: usize, full: &State, st: &State, callee: &Frame, roots: &[Root], rests: &[Vec<Vec<u32>>], keep: bool, probe: u8, wide: bool, e: State, part: Option<&[Bits]>) {
        let f = callee.f as FnId;
        let (mut full, mut st) = (full.clone(), st.clone());
        if let Some(p) = part { for (q, d) in st.par.queue.clone().iter().zip(p) { full.vars[*q as usize] = *d; st.vars[*q as usize] = *d; } }
        let (roots, rests) = (roots.to_vec(), rests.to_vec());
        let (id, new) = {
            let mut idx = self.index.borrow_mut();
            match idx.get(&e) { Some(i) => (*i, false), None => {
                let mut es = self.entries.borrow_mut();
                es.push(Entry { f, leaf: false, dead: self.gram.dead(e.par.g).is_some(), obsolete: false, under: false, fails: false, exits: vec![], callers: vec![], pend: vec![] });
                idx.insert(e.clone(), es.len() - 1);
                (es.len() - 1, true)
            } }
        };
        if !st.par.moved { self.edges.borrow_mut().insert((entry, id)); }
        if std::env::var("JSA_AW").is_ok() {
            let fl = |s: &State| format!("{:?}", s.objs.first().map(|o| cx.proj(&cx.proj(o, El::F(2)), El::F(2))));
            eprintln!("CALL {} -> {} aw {} hist {} g {}", self.fname(self.entries.borrow()[entry].f), self.fname(f), fl(&e), self.text(entry, &full.par.hist.0), self.gram.show(full.par.g));
        }
        let c = Caller { entry, dest: callee.dest.clone(), target: callee.target, roots, rests, keep, full, f, st, probe, wide, redone: Cell::new(false), places: None };
        if new { self.todo.borrow_mut().push(Work { entry: id, st: e }); } else {
            let es = self.entries.borrow();
            let t = &es[id];
            let mut todo = self.todo.borrow_mut();
            for x in &t.exits { self.resume_to(cx, &c, x, &mut todo); }
            if t.fails { self.fail_to(cx, &c, &mut todo); }
            drop(todo);
            let ps: Vec<Pending> = t.pend.iter().map(|p| self.lift(&c, p)).collect();
            drop(es);
            for p in ps { self.judge(c.entry, p); }
        }
        self.entries.borrow_mut()[id].callers.push(c);
        if !new && self.entries.borrow()[id].under { self.need(id); }
    }
    /// The grammar of a function that does not see the parser: nothing is known.
    fn nothing(&self) -> GId { self.gram.unknown() }
    /// The function does more than reading into a place of its own: follow its calls instead.
    fn unleaf(&self, entry: usize) {
        let f = self.entries.borrow()[entry].f;
        self.leaf.borrow_mut()[f] = false;
        let mut es = self.entries.borrow_mut();
        let mut again = vec![];
        for e in es.iter_mut() { if e.f == f && e.leaf && !e.obsolete { e.obsolete = true; e.exits.clear(); e.pend.clear(); again.append(&mut e.callers); } }
        self.index.borrow_mut().retain(|_, i| es[*i].f != f);
        for c in again { if !es[c.entry].obsolete { self.todo.borrow_mut().push(Work { entry: c.entry, st: c.full }); } }
    }
    /// Call of a function that only sees the places given to it; gives the state back if it cannot be
    /// looked at on its own.
    fn call_leaf(&self, cx: &Cx, entry: usize, full: State) -> Option<State> {
        let mut st = full.clone();
        let callee = st.frames.pop().unwrap();
        let f = callee.f as FnId;
        let mut eof_only = false;
        if let Some(q) = st.par.queue.last() {
            let d = st.vars[*q as usize];
            let e = both(self.eof);
            if d.subset(&e) { eof_only = true; } else if !d.and(&e).is_empty() {
                for part in [d.and(&e), d.minus(&e)] { let mut s = full.clone(); s.vars[*q as usize] = part; if let Some(s) = self.call_leaf(cx, entry, s) { self.todo.borrow_mut().push(Work { entry, st: s }); } }
                return None;
            }
        } else if st.par.eof_only || self.gram.done(st.par.g) { eof_only = true; }
        let mut places: Vec<Ptr> = vec![];
        let mut locals = (*callee.locals).clone();
        for (i, (l, live)) in locals.iter_mut().zip(&cx.p.info[f].live[0]).enumerate() {
            if !*live { *l = Val::Undef; continue; }
            let mut any = false;
            val_vars(l, &mut |_| any = true);
            if any { return Some(full); }
            let _ = i;
            match l {
                Val::Ref(p) => {
                    let p = (**p).clone();
                    if matches!(p.root, Root::Const(_)) { continue; }
                    let k = match places.iter().position(|x| *x == p) { Some(k) => k, None => {
                        if places.iter().any(|x| x.root == p.root && x.path.iter().zip(&p.path).all(|(a, b)| a == b)) { return Some(full); }
                        places.push(p);
                        places.len() - 1
                    } };
                    *l = Val::Ref(Rc::new(Ptr { root: Root::Obj(k as u16), path: vec![] }));
                }
                Val::B(_) | Val::Int(_) | Val::Undef | Val::Top => {}
                _ => return Some(full),
            }
        }
        fn plain(v: &Val) -> bool { match v { Val::Agg(_, f) => f.iter().all(plain), Val::B(_) | Val::Int(_) | Val::Undef | Val::Top | Val::Str(_) | Val::Opaque(_) => true, Val::Ref(p) | Val::Fat(p, _) => matches!(p.root, Root::Const(_)), _ => false } }
        let mut e = State::default();
        for p in &places { let Ok(v) = cx.read_ptr(&st, p) else { return Some(full) }; let mut any = false; val_vars(&v, &mut |_| any = true); if any || !plain(&v) { return Some(full); } e.objs.push(v); }
        e.taint = st.taint;
        e.par.on = true;
        e.par.pend_lt = st.par.pend_lt;
        e.par.g = self.nothing();
        e.par.eof_only = eof_only;
        e.frames = vec![Frame { f: callee.f, b: callee.b, locals: Rc::new(locals), dest: None, target: None }];
        let known = self.index.borrow().get(&e).cloned();
        let id = known.unwrap_or_else(|| {
            let mut es = self.entries.borrow_mut();
            es.push(Entry { f, leaf: true, dead: false, obsolete: false, under: false, fails: false, exits: vec![], callers: vec![], pend: vec![] });
            self.index.borrow_mut().insert(e.clone(), es.len() - 1);
            es.len() - 1
        });
        let c = Caller { entry, dest: callee.dest.clone(), target: callee.target, roots: vec![], rests: vec![], keep: false, full, f, st, probe: 0, wide: false, redone: Cell::new(false), places: Some(places) };
        if known.is_none() { self.todo.borrow_mut().push(Work { entry: id, st: e }); } else {
            let es = self.entries.borrow();
            let t = &es[id];
            let mut todo = self.todo.borrow_mut();
            for x in &t.exits { self.resume_to(cx, &c, x, &mut todo); }
            if t.fails { self.fail_to(cx, &c, &mut todo); }
            let ps: Vec<Pending> = t.pend.iter().map(|p| self.lift(&c, p)).collect();
            drop(todo);
            drop(es);
            for p in ps { self.judge(c.entry, p); }
        }
        self.entries.borrow_mut()[id].callers.push(c);
        None
    }
    fn redo(&self, c: &Caller, todo: &mut Vec<Work>) { if !c.redone.replace(true) { todo.push(Work { entry: c.entry | REDO | SURE | if c.probe == 1 { ONE } else { 0 }, st: c.full.clone() }); } }
    fn resume_to(&self, cx: &Cx, c: &Caller, x: &State, todo: &mut Vec<Work>) {
        if (c.wide || c.probe == 2) && x.par.moved { self.redo(c, todo); return; }
        if let Some(s) = self.resume(cx, c, x) { todo.push(Work { entry: c.entry, st: s }); }
    }
    fn fail_to(&self, cx: &Cx, c: &Caller, todo: &mut Vec<Work>) {
        if c.wide || c.probe == 2 { self.redo(c, todo); return; }
        if let Some(s) = self.resume_err(cx, c) { todo.push(Work { entry: c.entry, st: s }); }
    }
    fn resume(&self, cx: &Cx, c: &Caller, x: &State) -> Option<State> {
        if let Some(places) = &c.places {
            let mut s = c.st.clone();
            let n = s.vars.len() as VarId;
            s.vars.extend(x.vars.iter().cloned());
            for (i, p) in places.iter().enumerate() {
                let mut v = x.objs[i].clone();
                rename_vars(&mut v, &|v| n + v);
                remap(&mut v, &|r| match r { Root::Obj(i) => places.get(*i as usize).filter(|p| p.path.is_empty()).map(|p| p.root.clone()), _ => None });
                cx.write(&mut s, p, v).ok()?;
            }
            s.par.queue.extend(x.par.queue.iter().map(|v| n + v));
            s.par.stored.extend(x.par.stored.iter().cloned());
            s.par.pend_lt = x.par.pend_lt;
            s.taint |= x.taint;
            s.par.forked.0 |= x.par.forked.0;
            s.par.reads.0 += x.par.reads.0;
            let mut v = x.frames[0].locals[0].clone();
            rename_vars(&mut v, &|v| n + v);
            return self.give(cx, s, c, v);
        }
        let mut s = c.st.clone();
        let n = s.vars.len() as VarId;
        let kept = if c.keep { c.st.par.queue.len() } else { 0 };
        let map = |v: VarId| if (v as usize) < kept { c.st.par.queue[v as usize] } else { n + v - kept as VarId };
        for (i, d) in x.vars.iter().enumerate() { if i < kept { let q = c.st.par.queue[i] as usize; s.vars[q] = s.vars[q].and(d); if s.vars[q].is_empty() { return None; } } else { s.vars.push(*d) } }
        let back = |r: &Root| match r { Root::Obj(i) => c.roots.get(*i as usize).cloned(), _ => None };
        for (i, r) in c.roots.iter().enumerate() {
            let mut v = x.objs[i].clone();
            rename_vars(&mut v, &map);
            remap(&mut v, &back);
            let slot = Self::mut_root(&mut s, r)?;
            let old = std::mem::replace(slot, Val::Undef);
            close_vecs(&mut v, &old);
            *Self::mut_root(&mut s, r)? = v;
        }
        s.par.queue = x.par.queue.iter().map(|v| map(*v)).collect();
        s.par.stored = x.par.stored.clone();
        s.par.pend_lt = x.par.pend_lt;
        s.par.moved |= x.par.moved;
        if c.probe > 0 {
            if x.par.moved {
                let q = c.st.par.queue[0];
                let e = c.st.vars[q as usize].first().unwrap_or(0);
                s.par.g = match self.gram.step(c.st.par.g, e / 2, e & 1 == 1) { Step::To(g, _) => g, _ => self.gram.refused() };
                s.par.dead_at = c.f as u32 + 1;
                s.par.dead_up = 1;
            }
        } else if self.gram.dead(c.st.par.g).is_none() {
            s.par.g = if self.gram.dead(x.par.g).is_some() { x.par.g } else { self.gram.attach(x.par.g, &c.rests) };
            s.par.dead_at = x.par.dead_at;
            s.par.dead_up = x.par.dead_up;
        }
        let h = Rc::make_mut(&mut s.par.hist.0);
        push_hist(h, &x.par.hist.0);
        s.taint |= x.taint;
        s.par.forked.0 |= x.par.forked.0;
        s.par.reads.0 += x.par.reads.0;
        let mut v = x.frames[0].locals[0].clone();
        rename_vars(&mut v, &map);
        remap(&mut v, &back);
        self.give(cx, s, c, v)
    }
    fn give(&self, cx: &Cx, mut s: State, c: &Caller, v: Val) -> Option<State> {
        match cx.deliver(&mut s, &c.dest, c.target, v) { Ok(true) => Some(s), Ok(false) => None, Err(_) => { self.find("not modelled", "result of a call", self.fname(c.f), || "the result cannot be stored".into(), true); None } }
    }
    fn err_variant(&self, f: FnId) -> Option<usize> {
        let t = *self.p.f(f).locals.first()?;
        if self.p.adt_path(t).map_or(false, |x| norm(x).contains("result::Result")) { self.p.variant(t, "Err") } else { None }
    }
    fn resume_err(&self, cx: &Cx, c: &Caller) -> Option<State> {
        let mut s = c.st.clone();
        s.par.err = true;
        let v = agg(self.err_variant(c.f)? as u32, vec![Val::Opaque("error")]);
        self.give(cx, s, c, v)
    }
    fn fail(&self, cx: &Cx, entry: usize) {
        let mut es = self.entries.borrow_mut();
        if es[entry].fails { return; }
        es[entry].fails = true;
        let mut todo = self.todo.borrow_mut();
        for c in &es[entry].callers { if !es[c.entry].obsolete { self.fail_to(cx, c, &mut todo); } }
    }
    fn lift(&self, c: &Caller, p: &Pending) -> Pending {
        let mut hist = (*c.st.par.hist.0).clone();
        if c.places.is_some() {
            let mut doms = self.doms(&c.st);
            doms.extend(p.doms.iter().cloned());
            return Pending { g: c.st.par.g, doms, place: p.place.clone(), hist, taint: p.taint || c.st.taint, forked: p.forked || c.st.par.forked.0 > 0 };
        }
        push_hist(&mut hist, &p.hist);
        let g = if self.gram.dead(c.st.par.g).is_some() { c.st.par.g } else { self.gram.attach(p.g, &c.rests) };
        Pending { g, doms: p.doms.clone(), place: p.place.clone(), hist, taint: p.taint || c.st.taint, forked: p.forked || c.st.par.forked.0 > 0 }
    }
    /// The code rejects in this situation: is there nothing the grammar would accept?
    fn judge(&self, entry: usize, p: Pending) {
        self.prov.set((entry, p.forked));
        let g = &self.gram;
        if g.dead(p.g).is_some() { self.agree("rejected".into()); return; }
        let up = |doms: Vec<Bits>, gg: GId, hist: Vec<Bits>| {
            let q = Pending { g: gg, doms, place: p.place.clone(), hist, taint: p.taint, forked: p.forked };
            let lifted: Vec<(usize, Pending)> = {
                let mut es = self.entries.borrow_mut();
                if es[entry].pend.iter().any(|o| o.g == q.g && o.doms == q.doms && o.place == q.place && o.taint <= q.taint && o.forked <= q.forked) { return; }
                let l = { es[entry].callers.iter().filter(|c| !es[c.entry].obsolete).map(|c| (c.entry, self.lift(c, &q))).collect() };
                es[entry].pend.push(q);
                l
            };
            for (e, q) in lifted { self.judge(e, q); }
        };
        if self.entries.borrow()[entry].leaf { up(p.doms.clone(), p.g, p.hist.clone()); return; }
        if p.doms.is_empty() {
            let a = g.top_areas(p.g);
            if a == 0 && entry != 0 { up(vec![], p.g, p.hist.clone()); return; }
            self.find_areas(a, "rejects a well-formed program", &p.place, || format!("after {} whatever follows is refused; the grammar expects {}", self.text(entry, &p.hist), g.show(p.g)), p.taint);
            return;
        }
        let mut under = Bits::EMPTY;
        let mut refused = 0;
        let mut next: Vec<(GId, Bits, u32)> = vec![];
        let mut misread: Vec<(&str, Bits)> = vec![];
        for e in p.doms[0].iter() {
            let (c, lt) = (e / 2, e & 1 == 1);
            match g.step(p.g, c, lt) {
                Step::Any => self.agree("left open".into()),
                Step::Under => under.set(e),
                Step::To(n, by) => if g.dead(n).is_none() {
                    match next.iter_mut().find(|x| x.0 == n && x.2 == by) { Some(x) => x.1.set(e), None => next.push((n, Bits::one(e), by)) }
                } else {
                    let alt: &[usize] = if c == self.slash[2] { &self.slash[..2] } else if c == self.slash[0] || c == self.slash[1] { &self.slash[2..] } else if c == self.brace[0] { &self.brace[1..] } else if c == self.brace[1] || c == self.brace[2] { &self.brace[..1] } else { &[] };
                    let mut bad = false;
                    for a in alt { match g.step(p.g, *a, lt) { Step::Any => {} Step::Under => under.set(e), Step::To(n, _) => if g.dead(n).is_none() { bad = true; } } }
                    if bad && p.doms.len() == 1 {
                        let area = if self.slash.contains(&c) { "regex" } else { "template" };
                        match misread.iter_mut().find(|x| x.0 == area) { Some(x) => x.1.set(e), None => misread.push((area, Bits::one(e))) }
                    } else { refused += 1; }
                },
            }
        }
        if refused > 0 { self.agree("rejected".into()); }
        for (area, b) in misread {
            self.find(area, "reads the wrong kind of token", &p.place, || format!("after {} the code reads {} and refuses it; the grammar expects {}", self.text(entry, &p.hist), self.elem(&b), g.show(p.g)), p.taint);
        }
        for (n, b, by) in next {
            let mut hist = p.hist.clone();
            hist.push(b);
            // only with, or only without, a line terminator
            let by = if b.iter().all(|e| e & 1 == 1) || b.iter().all(|e| e & 1 == 0) { by | self.gram.asi() } else { by };
            if p.doms.len() > 1 { self.judge(entry, Pending { g: n, doms: p.doms[1..].to_vec(), place: p.place.clone(), hist, taint: p.taint, forked: p.forked }); }
            else { self.find_areas(by, "rejects a well-formed program", &p.place, || format!("after {} the code refuses {}; the grammar expects {}", self.text(entry, &p.hist), self.elem(&b), g.show(p.g)), p.taint); }
        }
        let mut ups: Vec<(GId, Bits)> = vec![];
        for e in under.iter() {
            let t = g.trim(p.g, &Bits::one(e));
            match ups.iter_mut().find(|x| x.0 == t) { Some(x) => x.1.set(e), None => ups.push((t, Bits::one(e))) }
        }
        for (t, b) in ups { let mut d = p.doms.clone(); d[0] = b; up(d, t, p.hist.clone()); }
    }
    /// The code has taken a token that the grammar refuses, and does not reject it.
    fn ill(&self, entry: usize, st: &State, how: &str) {
        let place = if st.par.dead_at > 0 { self.fname(st.par.dead_at as usize - 1).to_string() } else { "the whole program".into() };
        let a = self.gram.top_areas(st.par.g);
        self.find_areas(a, "accepts a malformed program", &place, || format!("the code takes a token that no well-formed program has there, and {}: {}", how, self.text(entry, &st.par.hist.0)), st.taint);
    }
    fn accept(&self, entry: usize, st: &State) {
        if self.gram.done(st.par.g) && st.par.queue.is_empty() { self.agree("accepted".into()); return; }
        let place = if st.par.dead_at > 0 { self.fname(st.par.dead_at as usize - 1).to_string() } else { "the whole program".into() };
        let a = self.gram.top_areas(st.par.g);
        if self.gram.dead(st.par.g).is_some() { self.ill(entry, st, "accepts the program"); } else {
            self.find_areas(a, "accepts without reading everything", &place, || format!("after {} the program is accepted although the grammar still expects {}", self.text(entry, &st.par.hist.0), self.gram.show(st.par.g)), st.taint);
        }
    }
    fn exit(&self, cx: &Cx, entry: usize, mut st: State) {
        if entry == 0 { self.accept(entry, &st); return; }
        if self.gram.dead(st.par.g).is_some() && !self.entries.borrow()[entry].dead { if st.par.dead_up > 0 { self.ill(entry, &st, "goes on"); return; } st.par.dead_up = 1; }
        if let Some(q) = st.par.queue.first().cloned() {
            let d = self.gram.closed(st.par.g, &st.vars[q as usize]);
            if d.is_empty() { self.agree("left open".into()); return; }
            st.vars[q as usize] = d;
            st.par.g = self.lost(st.par.g, &d).unwrap_or_else(|| self.gram.trim(st.par.g, &d));
        }
        normalise(&mut st);
        let mut es = self.entries.borrow_mut();
        let e = &mut es[entry];
        if e.obsolete { return; }
        let mut new = st.clone();
        loop {
            let k = new.vars.len();
            let plain = |s: &State| { let mut s = s.clone(); s.vars.clear(); s };
            let np = plain(&new);
            if e.exits.iter().any(|x| x.vars.len() == k && x.vars.iter().zip(&new.vars).all(|(a, b)| b.subset(a)) && plain(x) == np) { if new == st { return; } break; }
            let free = |i: usize| i < new.par.keep && !new.par.queue.contains(&(i as VarId));
            let one = e.exits.iter().position(|x| x.vars.len() == k && { let d = x.vars.iter().zip(&new.vars).enumerate().filter(|(_, (a, b))| a != b); let (mut n, mut k) = (0, 0); for (i, _) in d { if free(i) { k += 1 } else { n += 1 } } n <= 1 && n + k > 0 } && plain(x) == np);
            let Some(i) = one else { e.exits.push(new); break };
            let o = e.exits.swap_remove(i);
            for (a, b) in new.vars.iter_mut().zip(&o.vars) { *a = a.or(b); }
        }
        let e = &es[entry];
        let mut todo = self.todo.borrow_mut();
        for c in &e.callers { if !es[c.entry].obsolete { self.resume_to(cx, c, &st, &mut todo); } }
    }
    fn doms(&self, st: &State) -> Vec<Bits> { st.par.queue.iter().map(|q| st.vars[*q as usize]).collect() }
    fn rejected(&self, entry: usize, s: &State) {
        let f = self.entries.borrow()[entry].f;
        if let Ok(w) = std::env::var("JSA_REJ") { if self.fname(f).ends_with(&w) { for (k, i) in self.index.borrow().iter() { if *i == entry { eprintln!("REJ ENTRY g {} objs {:?}", self.gram.show(k.par.g), k.objs); } } eprintln!("REJ {} g {} doms {:?} objs {:?}", self.text(entry, &s.par.hist.0), self.gram.show(s.par.g), self.doms(s).iter().map(|d| self.elem(d)).collect::<Vec<_>>(), s.objs); } }
        self.judge(entry, Pending { g: s.par.g, doms: self.doms(s), place: self.fname(f).to_string(), hist: (*s.par.hist.0).clone(), taint: s.taint, forked: s.par.forked.0 > 0 });
    }
}
const REDO: usize = 1 << 40;
const SURE: usize = 1 << 41;
const ONE: usize = 1 << 42;
fn remap(v: &mut Val, f: &impl Fn(&Root) -> Option<Root>) {
    match v {
        Val::Ref(p) | Val::Fat(p, _) => if let Some(r) = f(&p.root) { Rc::make_mut(p).root = r },
        Val::Agg(_, x) | Val::Vec(_, x) => for y in Rc::make_mut(x) { remap(y, f) },
        _ => {}
    }
}
fn open_vecs(v: &mut Val) {
    match v {
        Val::Vec(..) => *v = Val::Vec(true, Rc::new(vec![])),
        Val::Agg(_, x) => for y in Rc::make_mut(x) { open_vecs(y) },
        _ => {}
    }
}
/// Put the elements that were there before the call under the new ones.
fn close_vecs(v: &mut Val, old: &Val) {
    match (v, old) {
        (Val::Vec(o, x), Val::Vec(p, y)) => if *o { let mut n = (**y).clone(); n.extend(x.iter().cloned()); *o = *p; *x = Rc::new(n); },
        (Val::Agg(_, x), Val::Agg(_, y)) => for (a, b) in Rc::make_mut(x).iter_mut().zip(y.iter()) { close_vecs(a, b) },
        _ => {}
    }
}

impl<'p> Mode for ParMode<'p> {
    fn expand(&self, _cx: &Cx, _st: State) -> Vec<State> { vec![] }
    fn ret(&self, cx: &Cx, entry: usize, mut st: State, v: Val, _wl: &mut Vec<Work>) {
        self.prov.set((entry, st.par.forked.0 > 0));
        st.frames[0].locals = Rc::new(vec![v]);
        st.frames[0].b = 0;
        let mut out = vec![];
        self.settle1(entry, st, &mut out);
        let f = self.entries.borrow()[entry].f;
        let err = self.err_variant(f);
        while let Some(s) = out.pop() {
            let v = cx.simp(&s, s.frames[0].locals[0].clone());
            if let (Some(_), Val::Pw(x, t)) = (err, &v) {
                if let Fork::Var(x, parts) = cx.split_all(&s, *x, *t) { for d in parts { let mut n = s.clone(); n.vars[x as usize] = n.vars[x as usize].and(&d); out.push(n); } }
                continue;
            }
            let is_err = match (&v, err) { (Val::Agg(k, _), Some(e)) => *k as usize == e, _ => false };
            match (s.par.err, is_err) {
                (true, true) => self.fail(cx, entry),
                (true, false) => self.find("rejection", "an error is not passed on", self.fname(f), || format!("{} returns normally after a function it calls has rejected the input", self.fname(f)), s.taint),
                (false, true) => { self.rejected(entry, &s); self.fail(cx, entry); }
                (false, false) => self.exit(cx, entry, s),
            }
        }
    }
    fn panic(&self, cx: &Cx, entry: usize, st: State, k: PanicKind, at: String) {
        self.prov.set((entry, st.par.forked.0 > 0));
        match k {
            PanicKind::Explicit if st.par.err => self.agree("rejected at the top".into()),
            PanicKind::Explicit => { let mut out = vec![]; self.settle1(entry, st, &mut out); for s in out { self.rejected(entry, &s); } }
            PanicKind::Internal(m) => {
                let f = cx.local_fn(&st);
                self.find("panic", &m, &f, || format!("{} after {}: {}", m, self.text(entry, &st.par.hist.0), at), st.taint);
            }
        }
    }
    fn stuck(&self, cx: &Cx, entry: usize, st: &State, why: String) {
        self.find("not modelled", "not established", &cx.local_fn(st), || format!("{} at {} after {}", why, cx.here(st), self.text(entry, &st.par.hist.0)), true);
    }
    fn call(&self, cx: &Cx, entry: usize, st: State, _f: FnId, _a: Vec<Val>, wl: &mut Vec<Work>) {
        self.prov.set((entry, st.par.forked.0 > 0));
        let mut out = vec![];
        self.settle1(entry, st, &mut out);
        for s in out {
            let f = s.top().f as usize;
            if !self.leaf.borrow()[f] { self.call_st(cx, entry, s); }
            else if let Some(s) = self.call_leaf(cx, entry, s) { wl.push(Work { entry, st: s }); }
        }
    }
    fn settle(&self, cx: &Cx, entry: usize, mut st: State) -> Vec<State> {
        if self.merge && st.frames.len() == 1 {
            let (f, b) = (st.top().f as usize, st.top().b as usize);
            let info = &cx.p.info[f];
            if info.head[b] { if let Some(v) = &info.varying[b] { for (l, y) in Rc::make_mut(&mut st.topm().locals).iter_mut().zip(v) { if *y { if let Val::Int(_) = l { *l = UNK; } } } } }
        }
        let mut out = vec![]; self.settle1(entry, st, &mut out); out }
    fn more(&self, cx: &Cx, wl: &mut Vec<Work>) {
        loop {
            let w = std::mem::take(&mut *self.todo.borrow_mut());
            if w.is_empty() { return; }
            for x in w {
                let e = x.entry & !(REDO | SURE | ONE);
                if x.entry & REDO == 0 { wl.push(x) } else if !self.skip(e) { if x.entry & SURE != 0 { let mut y = x.st.clone(); y.frames.pop(); self.call_with(cx, e, x.st, y, (x.entry & ONE != 0) as u8, false) } else { self.call_st(cx, e, x.st) } }
            }
        }
    }
    fn skip(&self, entry: usize) -> bool { self.entries.borrow()[entry].obsolete }
    fn summaries(&self) -> bool { true }
    fn threshold(&self) -> usize { usize::MAX }
    fn limit(&self) -> usize { 30_000_000 }
    fn over(&self, _: std::time::Instant) -> bool { std::time::Instant::now() > self.until }
    /// Violations of the property in question were found, and some time was given to find more.
    fn enough(&self) -> bool {
        let Some(want) = &self.want else { return false };
        if let Some(t) = self.found.get() { return t.elapsed().as_secs() >= 20; }
        if !self.findings.borrow().values().any(|f| f.decided && want(f)) { return false; }
        let owed = self.owed();
        if self.findings.borrow().values().any(|f| f.decided && want(f) && !owed.contains(&f.key)) { self.found.set(Some(std::time::Instant::now())); }
        false
    }
}

struct ParHooks<'a, 'p> { m: &'a ParMode<'p> }
impl<'a, 'p> Hooks for ParHooks<'a, 'p> {
    fn summarise(&self, _cx: &Cx, f: FnId) -> bool { (self.m.summarised[f] || self.m.leaf.borrow()[f]) && self.m.depth.get() == 0 }
    fn call(&self, cx: &Cx, st: &mut State, f: FnId, args: &[Val], rty: TyId) -> R<Option<CallRes>> {
        let m = self.m;
        if m.pure[f] { if let Some(v) = m.tabulate(cx, st, f, args, rty) { return Ok(Some(CallRes::Val(v))); } }
        if f != m.next_token { return Ok(None); }
        let p = m.p;
        let hint = match cx.deref(st, &args[1])? { Loc::Mem(q) => cx.read_ptr(st, &q)?, Loc::RV(v) => v, _ => return stuck("hint") };
        let get = |n: &str| -> R<bool> { match cx.definite(st, cx.proj(&hint, El::F(p.field(m.hint_ty, 0, n).unwrap_or(0) as u16)))? { Val::B(b) => Ok(b), v => stuck(format!("hint {} is {:?}", n, v)) } };
        let (expr, tmpl) = (get("expression")?, get("template")?);
        let Val::Agg(_, out) = &args[2] else { return stuck("token place") };
        let (Loc::Mem(tp), Loc::Mem(rp)) = (cx.deref(st, &out[0])?, cx.deref(st, &out[1])?) else { return stuck("token place") };
        // nothing follows the end
        let full = Bits::full(m.gram.classes.len() * 2);
        let mut only_eof = false;
        if let Some(q) = st.par.queue.last() {
            let d = st.vars[*q as usize];
            let e = both(m.eof);
            if d.subset(&e) { only_eof = true; } else if !d.and(&e).is_empty() { return Err(Fork::Var(*q, vec![d.and(&e), d.minus(&e)])); }
        } else if st.par.eof_only || m.gram.done(st.par.g) { only_eof = true; }
        let rt = deref_ty(p, match p.ty(p.f(f).locals[3]) { TyK::Tuple(v) => v[1], _ => 0 });
        let range = |a: Val, b: Val| -> Val {
            let pos = |i: usize, l: &Val| -> Val {
                let t = p.field_ty(rt, 0, i).unwrap_or(0);
                let n = match p.ty(t) { TyK::Adt { variants, .. } => variants[0].fields.len(), _ => 0 };
                let mut v = vec![Val::Top; n];
                if let Some(k) = p.field(t, 0, "line") { v[k] = l.clone(); }
                agg(0, v)
            };
            let n = match p.ty(rt) { TyK::Adt { variants, .. } => variants[0].fields.len(), _ => 0 };
            let mut v = vec![Val::Top; n];
            if let (Some(i), Some(j)) = (p.field(rt, 0, "start"), p.field(rt, 0, "end")) { v[i] = pos(i, &a); v[j] = pos(j, &b); }
            agg(0, v)
        };
        let mut res = vec![];
        let mut give = |tok: Val, lines: (i128, i128), lt: bool| -> R<()> {
            let mut s = st.clone();
            if lt { s.par.pend_lt = true; }
            s.par.reads.0 += 1;
            cx.write(&mut s, &tp, tok)?;
            cx.write(&mut s, &rp, range(Val::Int(lines.0), Val::Int(lines.1)))?;
            res.push((s, unit()));
            Ok(())
        };
        let lay = &m.lay;
        if !only_eof {
            let fmt = |n: &str| lay.make(p, "Comment", &[("format", lay.unit_variant(p, lay.cfmt, n)), ("value", cow(Val::Opaque("other comment")))]);
            give(lay.make(p, "Whitespace", &[]), (1, 1), false)?;
            give(lay.make(p, "LineTerminator", &[]), (1, 2), true)?;
            give(fmt("Line"), (1, 1), false)?;
            give(fmt("Block"), (1, 1), false)?;
            give(fmt("Block"), (1, 2), true)?;
        }
        let mut s = st.clone();
        let v = s.vars.len() as VarId;
        let mut d = if only_eof { both(m.eof) } else { full };
        let off: &[&[usize]] = &[if expr { &m.slash[..2] } else { &m.slash[2..] }, if tmpl { &m.brace[..1] } else { &m.brace[1..] }];
        for o in off { for c in o.iter() { d = d.minus(&both(*c)); } }
        let mut lt = Bits::EMPTY;
        for c in 0..m.gram.classes.len() { lt.set(c * 2 + st.par.pend_lt as usize); }
        s.vars.push(d.and(&lt));
        s.par.pend_lt = false;
        s.par.queue.push(v);
        s.par.stored.push(false);
        if !only_eof { s.par.reads.0 += 1; }
        let tok = match &m.tokval { Val::Pw(_, t) => Val::Pw(v, *t), o => o.clone() };
        cx.write(&mut s, &tp, tok)?;
        cx.write(&mut s, &rp, Val::Top)?;
        res.push((s, unit()));
        Ok(Some(CallRes::Many(res)))
    }
}
impl<'p> ParMode<'p> {
    /// A function of one token-dependent argument is evaluated for every token.
    fn tabulate(&self, cx: &Cx, st: &State, f: FnId, args: &[Val], _rty: TyId) -> Option<Val> {
        if self.depth.get() > 3 { return None; }
        let mut vals = vec![];
        for a in args {
            let v = match a {
                Val::Ref(_) => match cx.deref(st, a).ok()? { Loc::Mem(q) => cx.simp(st, cx.read_ptr(st, &q).ok()?), Loc::RV(v) => cx.simp(st, v), Loc::CStr(s) => Val::Str(s), _ => return None },
                a => cx.simp(st, a.clone()),
            };
            vals.push((matches!(a, Val::Ref(_)), v));
        }
        // exactly one variable
        let mut vs: Vec<VarId> = vec![];
        for v in &vals { val_vars(&v.1, &mut |x| if !vs.contains(&x) { vs.push(x) }); }
        if vs.len() > 1 { return None; }
        let Some(&x) = vs.first() else { return self.eval(cx, f, vals) };
        let d = st.vars[x as usize];
        let n = self.gram.classes.len() * 2;
        let mut leaves = vec![Val::Undef; n];
        for i in d.iter() {
            let mut single = vec![None; x as usize + 1];
            single[x as usize] = Some(i);
            let mut w = vals.clone();
            for y in &mut w { subst_single(&mut y.1, &single); }
            leaves[i] = self.eval(cx, f, w)?;
        }
        Some(mk_pw(x, leaves))
    }
    fn eval(&self, cx: &Cx, f: FnId, vals: Vec<(bool, Val)>) -> Option<Val> {
        let key = (f, vals.iter().map(|v| v.1.clone()).collect::<Vec<_>>());
        if let Some(r) = self.pure_memo.borrow().get(&key) { return r.clone(); }
        self.depth.set(self.depth.get() + 1);
        let r = self.eval1(cx, f, &vals);
        self.depth.set(self.depth.get() - 1);
        self.pure_memo.borrow_mut().insert(key, r.clone());
        r
    }
    fn eval1(&self, cx: &Cx, f: FnId, vals: &[(bool, Val)]) -> Option<Val> {
        let mut st = State::default();
        st.par.on = true;
        let mut args = vec![];
        for (r, v) in vals {
            if *r { st.objs.push(v.clone()); args.push(Val::Ref(Rc::new(Ptr { root: Root::Obj(st.objs.len() as u16 - 1), path: vec![] }))); } else { args.push(v.clone()); }
        }
        let objs = st.objs.clone();
        cx.enter(&mut st, f, args, None, None, false).ok()?;
        for _ in 0..2000 {
            match cx.exec(st) {
                Exec::Outs(mut o) if o.len() == 1 => match o.pop().unwrap() {
                    Out::Next(s) => st = s,
                    Out::Ret(s, v) => { if s.taint || s.objs != objs || !matches!(v, Val::B(_) | Val::Int(_)) { return None; } return Some(v); }
                    _ => return None,
                },
                _ => return None,
            }
        }
        None
    }
}

fn names(p: &Prog) -> Vec<String> {
    fn k(c: &Const, out: &mut BTreeSet<String>) { match c { Const::Str(s) => if s.len() < 16 && !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphabetic()) { out.insert(s.clone()); }, Const::Ref(c) => k(c, out), Const::Agg(_, v) => for c in v { k(c, out) }, _ => {} } }
    fn o(x: &Op, out: &mut BTreeSet<String>) { if let Op::Const(c, _) = x { k(c, out) } }
    let mut out = BTreeSet::new();
    for f in p.p.fns.iter().filter(|f| f.local) {
        for b in f.blocks.iter().flatten() {
            for s in &b.stmts { if let Stmt::Assign(_, r) = s { match r { Rv::Use(x) | Rv::Un(_, x, _) | Rv::Cast(_, x, _, _) | Rv::Repeat(x, _) => o(x, &mut out), Rv::Agg(_, v) => for x in v { o(x, &mut out) }, Rv::Bin(_, a, b, _) | Rv::Checked(_, a, b, _) => { o(a, &mut out); o(b, &mut out) } _ => {} } } }
            if let Term::Call { args, .. } = &b.term { for a in args { o(a, &mut out) } }
        }
    }
    for s in &p.p.statics { k(&s.val, &mut out); }
    out.into_iter().filter(|s| !matches!(&s[..], "UnexpectedToken" | "starting")).collect()
}

/// First with the numbers of different calls merged; what that finds and may owe to the merging is looked
/// for again without.
/// Seconds an analysis may take.
fn limit() -> u64 { std::env::var("JSA_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(600) }
pub fn run<'p>(p: &'p Prog, want: Want<'p>) -> Result<LexRun, String> {
    let t0 = std::time::Instant::now();
    let merge = std::env::var("JSA_EXACT").is_err();
    let secs = |n: u64| t0 + std::time::Duration::from_secs(n);
    let (mut r, owed) = run1(p, merge, want, secs(limit() * 3 / 4))?;
    if merge && !owed.is_empty() {
        // look again without merging numbers
        for f in &mut r.findings { if owed.contains(&f.key) { f.decided = false; } }
        if !r.findings.iter().any(|f| f.decided && want.map_or(false, |w| w(f))) {
            let (x, _) = run1(p, false, want, secs(limit()))?;
            for f in x.findings { if !f.decided { continue; } r.findings.retain(|y| y.key != f.key); r.findings.push(f); }
            r.secs += x.secs;
            r.states += x.states;
        }
    }
    Ok(r)
}
fn run1<'p>(p: &'p Prog, merge: bool, want: Want<'p>, until: std::time::Instant) -> Result<(LexRun, BTreeSet<String>), String> {
    let t0 = std::time::Instant::now();
    let rn = p.root("read_next").ok_or("read_next not found")?;
    let tok = deref_ty(p, p.f(rn).locals[3]);
    let lay = Lay::new(p, tok)?;
    let next_token = next_token_fn(p).ok_or("next_token not found")?;
    let hint_ty = deref_ty(p, p.f(next_token).locals[2]);
    if p.field(hint_ty, 0, "expression").is_none() || p.field(hint_ty, 0, "template").is_none() { return Err("hint type".into()); }
    let puncts: Vec<&str> = PUNCT.iter().map(|x| x.0).collect();
    let gram = Gram::new(&puncts, &names(p));
    let nc = gram.classes.len();
    if nc * 2 > NW * 64 { return Err(format!("{} token classes", nc)); }
    let mut leaves = vec![];
    for (i, c) in gram.classes.iter().enumerate() {
        let fmt = |n: &str| lay.make(p, "Template", &[("format", lay.unit_variant(p, lay.tfmt, n))]);
        let v = if i < PUNCT.len() { lay.punct(p, PUNCT[i].1).ok_or(format!("no punctuator {}", PUNCT[i].1))? } else {
            match &c[..] {
                "NUM" => lay.make(p, "NumericLiteral", &[("value", Val::Opaque("number"))]),
                "STR" => lay.make(p, "StringLiteral", &[("value", cow(Val::Opaque("string value")))]),
                "REGEX" => lay.make(p, "RegularExpressionLiteral", &[("pattern", cow(Val::Opaque("pattern"))), ("flags", cow(Val::Opaque("flags")))]),
                "TNO" => fmt("NoSubstitution"), "THEAD" => fmt("Head"), "TMID" => fmt("Middle"), "TTAIL" => fmt("Tail"),
                "EOF" => lay.make(p, "EOF", &[]),
                "other name" => lay.make(p, "IdentifierName", &[("name", cow(Val::Opaque("other name")))]),
                n => lay.make(p, "IdentifierName", &[("name", cow(cstr(n)))]),
            }
        };
        leaves.push(v.clone());
        leaves.push(v);
    }
    let tokval = mk_pw(0, leaves);
    TOKT.with(|x| x.set(match &tokval { Val::Pw(_, t) => Some(*t), _ => None }));
    LT.with(|x| x.set(match mk_pw(0, (0..nc * 2).map(|i| b(i & 1 == 1)).collect()) { Val::Pw(_, t) => Some(t), _ => None }));
    // functions with summaries: the recursive ones and what leads to them
    let n = p.p.fns.len();
    let calls: Vec<Vec<usize>> = p.p.fns.iter().map(|f| f.blocks.iter().flatten().filter_map(|b| match &b.term { Term::Call { f: Callee::Direct(g), .. } => Some(*g), _ => None }).collect()).collect();
    let rec: Vec<bool> = (0..n).map(|i| p.info[i].recursive && p.f(i).local && p.f(i).blocks.is_some()).collect();
    let first = |i: usize| p.f(i).locals.get(1).cloned();
    let tys: BTreeSet<TyId> = (0..n).filter(|i| rec[*i] && p.f(*i).kind == FnKind::Item && p.f(*i).nargs > 0).filter_map(first).collect();
    let mut summarised = rec.clone();
    let root0 = p.root("parse_root").ok_or("parse_root not found")?;
    let mut pure = vec![false; n];
    let mut leaf = vec![false; n];
    for i in 0..n {
        let f = p.f(i);
        if !f.local || f.blocks.is_none() || f.kind != FnKind::Item { continue; }
        let mut seen = vec![false; n];
        let mut st = calls[i].clone();
        while let Some(x) = st.pop() { if !seen[x] { seen[x] = true; st.extend(&calls[x]); } }
        if !rec[i] && f.nargs > 0 && first(i).map_or(false, |t| tys.contains(&t)) && (0..n).any(|x| seen[x] && rec[x]) { summarised[i] = true; }
        leaf[i] = i != next_token && seen[next_token] && f.nargs > 0 && !(0..n).any(|x| (seen[x] || x == i) && rec[x]) && f.locals[1..=f.nargs].iter().all(|t| !tys.contains(t)) && i != root0;
        let scalar = |t: TyId| matches!(p.ty(t), TyK::Bool | TyK::Int { .. } | TyK::Char) || matches!(p.ty(t), TyK::Ref(false, _));
        pure[i] = !rec[i] && f.nargs > 0 && matches!(p.ty(f.locals[0]), TyK::Bool | TyK::Int { .. }) && f.locals[1..=f.nargs].iter().all(|t| scalar(*t) || matches!(p.ty(*t), TyK::Adt { .. })) && !(0..n).any(|x| seen[x] && rec[x]) && i != next_token;
    }
    let root = p.root("parse_root").ok_or("parse_root not found")?;
    let c = |s: &str| gram.class(s);
    let (slash, brace, eof) = ([c("/"), c("/="), c("REGEX")], [c("}"), c("TMID"), c("TTAIL")], c("EOF"));
    let m = ParMode { p, until, want, found: Cell::new(None), findings: Default::default(), agreed: Default::default(), entries: Default::default(), index: Default::default(), boxes: Default::default(), ks: Default::default(), todo: Default::default(), summarised, idle: gram.idle(), leaf: RefCell::new(leaf), next_token, hint_ty, lay, tokval, eof, edges: Default::default(), pure_memo: Default::default(), pure, depth: Default::default(), merge, prov: Default::default(), provs: Default::default(), slash, brace, gram };
    let hooks = ParHooks { m: &m };
    let cx = Cx::new(p, &hooks);
    let mut st = State::default();
    st.par.on = true;
    st.par.g = m.gram.start();
    cx.enter(&mut st, root, vec![cstr("")], None, None, false).map_err(|e| format!("{:?}", e))?;
    m.entries.borrow_mut().push(Entry { f: root, dead: false, leaf: false, obsolete: false, under: false, fails: false, exits: vec![], callers: vec![], pend: vec![] });
    let mut ex = Explorer::new(&cx, &m);
    ex.add(0, st);
    ex.run();
    for x in cx.problems.borrow().iter() { m.find("not modelled", "calls not modelled", x, || x.clone(), true); }
    if std::env::var("JSA_HIST").is_ok() {
        ex.print_hist();
        let es = m.entries.borrow();
        let mut per: BTreeMap<&str, (usize, usize, usize, usize)> = Default::default();
        for e in es.iter() { let x = per.entry(m.fname(e.f)).or_default(); x.0 += 1; x.1 += e.obsolete as usize; x.2 += e.exits.len(); x.3 += e.callers.len(); }
        if let Ok(w) = std::env::var("JSA_ENT") {
            for (s, i) in m.index.borrow().iter() { let e = &es[*i]; if m.fname(e.f).ends_with(&w) { eprintln!("E {} callers {} exits {} vars [{}] g {} pend_lt {} keep {} stored {:?} q {:?} locals {:?} objs {:?}", i, e.callers.len(), e.exits.len(), s.vars.iter().map(|d| format!("{}:{}", d.count(), m.elem(d))).collect::<Vec<_>>().join(" | "), m.gram.show(s.par.g), s.par.pend_lt, s.par.keep, s.par.stored, s.par.queue, s.frames[0].locals.iter().filter(|x| **x != Val::Undef).collect::<Vec<_>>(), s.objs); } }
        }
        if std::env::var("JSA_PROJ").is_ok() {
            // how many contexts would be left without one component
            fn paths(v: &Val, at: &mut Vec<usize>, out: &mut BTreeSet<Vec<usize>>) { out.insert(at.clone()); if let Val::Agg(_, f) | Val::Vec(_, f) = v { for (i, y) in f.iter().enumerate() { at.push(i); paths(y, at, out); at.pop(); } } }
            fn cutp(v: &mut Val, at: &[usize]) { if at.is_empty() { *v = Val::Undef; return; } if let Val::Agg(_, f) | Val::Vec(_, f) = v { if let Some(y) = Rc::make_mut(f).get_mut(at[0]) { cutp(y, &at[1..]); } } }
            for what in ["entries", "exits"] {
            let mut by: BTreeMap<String, Vec<(usize, State)>> = Default::default();
            if what == "entries" { for (s, i) in m.index.borrow().iter() { by.entry(m.fname(es[*i].f).to_string()).or_default().push((0, s.clone())); } }
            else { for (i, e) in es.iter().enumerate() { for x in &e.exits { by.entry(m.fname(e.f).to_string()).or_default().push((i, x.clone())); } } }
            for (f, v) in by {
                if v.len() < 40 { continue; }
                let cnt = |t: &dyn Fn(&mut State)| v.iter().map(|(i, s)| { let mut s = s.clone(); t(&mut s); (*i, s) }).collect::<std::collections::HashSet<_>>().len();
                let mut rows = vec![("g".to_string(), cnt(&|s| s.par.g = 0)), ("vars".into(), cnt(&|s| s.vars.clear())), ("hist".into(), cnt(&|s| s.par.hist = Default::default())), ("queue".into(), cnt(&|s| { s.par.queue.clear(); s.par.stored.clear(); })), ("flags".into(), cnt(&|s| { s.par.keep = 0; s.par.moved = false; s.par.dead_at = 0; s.par.dead_up = 0; s.par.reads.0 = 0; s.par.pend_lt = false; })), ("all par".into(), cnt(&|s| { s.par = Default::default(); s.vars.clear() }))];
                rows.push(("locals".into(), cnt(&|s| for f in &mut s.frames { f.locals = Rc::new(vec![]) })));
                let mut ps: BTreeSet<(usize, Vec<usize>)> = Default::default();
                for s in &v { for (k, o) in s.1.objs.iter().enumerate() { let mut o1 = BTreeSet::new(); paths(o, &mut vec![], &mut o1); for x in o1 { ps.insert((k, x)); } } }
                for (k, x) in ps { rows.push((format!("obj{} {:?}", k, x), cnt(&|s| if let Some(o) = s.objs.get_mut(k) { cutp(o, &x) }))); }
                rows.sort_by_key(|r| r.1);
                eprintln!("PROJ {} {} {}: {:?}", what, f, v.len(), rows.iter().filter(|r| r.1 < v.len()).take(9).collect::<Vec<_>>());
            }
            }
        }
        if let Ok(w) = std::env::var("JSA_EXITS") {
            for i in (0..es.len()).filter(|i| m.fname(es[*i].f).ends_with(&w)) {
                if let Some((s, _)) = m.index.borrow().iter().find(|x| *x.1 == i) { eprintln!("EN {} g {} vars {:?} locals {:?} objs {:?}", i, m.gram.show(s.par.g), s.vars.iter().map(|d| m.elem(d)).collect::<Vec<_>>(), s.frames[0].locals.iter().filter(|x| **x != Val::Undef).collect::<Vec<_>>(), s.objs); }
                for s in &es[i].exits { eprintln!("X g {} || vars {} || {:?} {:?} {:?}  objs {:?} taint {} up {}", m.gram.show(s.par.g), s.vars.iter().map(|d| format!("{}:{}", d.count(), m.elem(d))).collect::<Vec<_>>().join(" | "), s.par.queue, s.par.stored, s.frames[0].locals[0], s.objs, s.taint, s.par.dead_up); }
            }
        }
        eprintln!("contexts {} obsolete {}", es.len(), es.iter().filter(|e| e.obsolete).count());
        for (k, v) in per { eprintln!("entries {:4} obsolete {:4} exits {:5} callers {:5} k {} {}", v.0, v.1, v.2, v.3, m.ks.borrow().iter().find(|x| m.fname(*x.0) == k).map_or(1, |x| *x.1), k); }
    }
    m.progress(&ex);
    let owed = m.owed();
    let findings = m.findings.borrow().values().cloned().collect();
    let agreed = m.agreed.borrow().clone();
    let stats = cx.stats.borrow().clone();
    let problems = cx.problems.borrow().iter().cloned().collect();
    Ok((LexRun { findings, agreed, states: ex.states, stats, problems, widened: ex.widened, secs: t0.elapsed().as_secs_f64() }, owed))
}
impl<'p> ParMode<'p> {
    /// Findings that every path to them owes to merged numbers.
    fn owed(&self) -> BTreeSet<String> {
        let es = self.entries.borrow();
        let mut free = vec![false; es.len()];
        let mut out: Vec<Vec<usize>> = vec![vec![]; es.len()];
        for (i, e) in es.iter().enumerate() { for c in &e.callers { if c.st.par.forked.0 == 0 { out[c.entry].push(i); } } }
        let mut todo = vec![0];
        while let Some(i) = todo.pop() { if !std::mem::replace(&mut free[i], true) { todo.extend(&out[i]); } }
        self.provs.borrow().iter().filter(|(_, v)| !v.iter().any(|(e, f)| !f && free[*e])).map(|x| x.0.clone()).collect()
    }
    fn progress(&self, _ex: &Explorer) {
        // calls on the same input again and again
        let es = self.entries.borrow();
        let edges = self.edges.borrow();
        let n = es.len();
        let mut adj = vec![vec![]; n];
        for (a, b) in edges.iter() { if !es[*a].obsolete && !es[*b].obsolete { adj[*a].push(*b); } }
        let mut state = vec![0u8; n];
        for s in 0..n {
            if state[s] != 0 { continue; }
            let mut stack = vec![(s, 0usize)];
            state[s] = 1;
            while let Some((x, i)) = stack.pop() {
                if i < adj[x].len() {
                    stack.push((x, i + 1));
                    let y = adj[x][i];
                    if state[y] == 1 { self.find("termination", "recursion without reading", self.fname(es[y].f), || format!("{} can call itself again through {} without having taken a token", self.fname(es[y].f), self.fname(es[x].f)), false); }
                    if state[y] == 0 { state[y] = 1; stack.push((y, 0)); }
                } else { state[x] = 2; }
            }
        }
        let _ = &adj;
        self.agree("recursion reads".into());
    }
}

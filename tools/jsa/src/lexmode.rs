//! The two tokenizer analyses: one token against the lexical specification (`read_next`), and the position
//! bookkeeping around it (`next_token`).
use crate::explore::*;
use crate::interp::*;
use crate::lexspec::*;
use crate::prog::*;
use crate::state::*;
use crate::val::*;
use ir::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Finding { pub area: String, pub what: String, pub key: String, pub msg: String, pub decided: bool }

pub struct LexMode<'p> {
    pub lay: Lay,
    pub findings: RefCell<BTreeMap<String, Finding>>,
    /// outcomes that were compared and agreed, by kind of lexeme
    pub agreed: RefCell<BTreeMap<String, u64>>,
    pub positions: bool,
    /// the state being judged went through something not modelled
    pub taint: std::cell::Cell<bool>,
    pub p: &'p Prog,
    pub read_next: FnId,
}

fn pend_of(b: usize) -> Option<u8> { match b { 0..=0x7f => Some(0), 0xC2..=0xDF => Some(1), 0xE0..=0xEF => Some(2), 0xF0..=0xF4 => Some(3), _ => None } }

impl<'p> LexMode<'p> {
    pub fn find(&self, area: &str, what: &str, place: String, msg: String) {
        let key = format!("{}: {}: {}", area, what, place);
        let decided = what != "not established" && area != "not modelled" && !self.taint.get();
        let mut fs = self.findings.borrow_mut();
        if fs.get(&key).map_or(true, |f| decided && !f.decided) { fs.insert(key.clone(), Finding { area: area.into(), what: what.into(), key, msg, decided }); }
    }
    fn step(&self, st: &mut State, b: Option<u8>, v: Option<VarId>, pos: &Lin) -> bool {
        let ls = st.lex.spec.clone();
        if ls.decided() || matches!(ls.q, Q::Off | Q::WStop | Q::TEnd) { return true; }
        let a = action(&ls, b);
        let n = match (&a, &ls.q) { (A::EndAfter, Q::Tmpl(..)) => end_template(self.p, &self.lay, &ls, b.unwrap(), pos), _ => apply(self.p, &self.lay, &ls, &a, v, pos) };
        let stop = n.q == Q::WStop;
        st.lex.spec = n;
        if stop && ls.q != Q::WStop { let (a, b) = (st.lex.spec.vals[0].clone(), st.lex.spec.vals[1].clone()); st.lex.spec.vals = vec![a.clone(), b.clone(), a, b]; }
        st.lex.spec.q != Q::Void
    }
    /// The different things the next byte can be, as far as the specification cares.
    fn classes(&self, ls: &LS, from: &Bits) -> Vec<Bits> {
        let split_tmpl = matches!(ls.q, Q::Tmpl(..));
        let mut out: Vec<(A, Option<u8>, u8, Bits)> = vec![];
        for b in from.iter() {
            let a = if ls.decided() || matches!(ls.q, Q::Off | Q::WStop | Q::TEnd) { A::Go(ls.q) } else { action(ls, Some(b as u8)) };
            let x = if split_tmpl && a == A::EndAfter { b as u8 } else { 0 };
            match out.iter_mut().find(|o| o.0 == a && o.1 == pend_of(b) && o.2 == x) { Some(o) => o.3.set(b), None => out.push((a, pend_of(b), x, Bits::one(b))) }
        }
        out.into_iter().map(|o| o.3).collect()
    }
    pub fn expand_all(&self, st: State) -> Vec<State> {
        let mut out = vec![];
        let fr = st.lex.frontier.0.clone();
        if st.lex.ended { return out; }
        if st.lex.pend == 0 && !(st.lex.open_end && fr == st.lex.spec.marks[0]) {
            let mut s = st.clone();
            if st.lex.open_end {
                // the token ends here
                s.lex.open_end = false;
                s.subst_base(1, &fr);
                s.lex.spec.q = Q::TEnd;
                out.push(s);
            } else if self.step(&mut s, None, None, &fr) {
                s.lex.ended = true;
                s.subst_base(0, &fr);
                out.push(s);
            }
        }
        let from = if st.lex.pend > 0 { Bits::range(0x80, 0xBF) } else { Bits::range(0, 0x7f).or(&Bits::range(0xC2, 0xF4)) };
        for d in self.classes(&st.lex.spec, &from) {
            let mut s = st.clone();
            let v = s.vars.len() as VarId;
            s.vars.push(d);
            let first = d.first().unwrap();
            if !self.step(&mut s, Some(first as u8), Some(v), &fr) { continue; }
            if s.lex.pend == 0 { s.lex.bnd.push(fr.clone()); s.lex.pend = pend_of(first).unwrap(); } else { s.lex.pend -= 1; }
            s.lex.cells.push(v);
            Rc::make_mut(&mut s.lex.hist.0).push(d);
            s.lex.frontier = Lin0(fr.addk(1));
            s.normalise_singletons();
            out.push(s);
        }
        out
    }
    /// Feed more input until the specification has decided.
    fn decide(&self, st: State, n: u32) -> Vec<State> {
        if st.lex.spec.decided() || n == 0 { return vec![st]; }
        self.expand_all(st).into_iter().flat_map(|s| self.decide(s, n - 1)).collect()
    }
    fn same(&self, cx: &Cx, st: &State, want: &Val, got: &Val) -> bool {
        match (want, got) {
            (Val::Opaque("any"), _) => true,
            (Val::Agg(k, f), Val::Agg(j, g)) => k == j && f.len() == g.len() && f.iter().zip(g.iter()).all(|(a, b)| self.same(cx, st, a, b)),
            (Val::Sl(a), Val::Sl(b)) => a == b || { let (x, y) = (a.e.sub(&a.s), b.e.sub(&b.s)); x == Lin::k(0) && y == Lin::k(0) },
            (Val::Sl(a), Val::Str(b)) | (Val::Str(b), Val::Sl(a)) => b.is_empty() && a.s == a.e,
            (Val::Undef, Val::Undef) => true,
            (a, b) => match (cx.to_lin(a), cx.to_lin(b)) {
                (Some(x), Some(y)) => x == y || { let mut d = x.sub(&y); restrict_one(&mut d, st); d == Lin::k(0) },
                _ => match (a, b) { (Val::F(x), Val::F(y)) => x == y || canon_ft(x, st) == canon_ft(y, st), _ => a == b },
            },
        }
    }
    fn describe(&self, v: &Val) -> String {
        let name = |t: TyId, k: u32| match self.p.ty(t) { TyK::Adt { variants, .. } => variants.get(k as usize).map_or("?".to_string(), |x| x.name.clone()), _ => "?".into() };
        match v {
            Val::Agg(k, f) => {
                let n = name(self.lay.tok, *k);
                match &f[..] {
                    [Val::Agg(j, g)] if n == "Punctuator" && g.is_empty() => format!("{} {}", n, name(self.lay.punct, *j)),
                    [Val::Agg(_, g)] => format!("{} {:?}", n, g),
                    _ => format!("{} {:?}", n, f),
                }
            }
            v => format!("{:?}", v),
        }
    }
    fn check_token(&self, cx: &Cx, st: State, v: &Val) {
        let _ = v;
        let fr = st.frames[0].locals.clone();
        let got_size = fr.get(0).cloned().unwrap_or(Val::Undef);
        // values that depend on a byte are compared byte by byte
        let mut dep: Option<VarId> = None;
        for x in [&st.objs[1], &got_size] { scalar_vars(x, &mut |y| if st.vars[y as usize].count() > 1 { dep = Some(y) }); }
        if let Some(y) = dep {
            for i in st.vars[y as usize].iter().collect::<Vec<_>>() {
                let mut s = st.clone();
                s.vars[y as usize] = Bits::one(i);
                s.normalise_singletons();
                self.check_token(cx, s, v);
            }
            return;
        }
        let ls = &st.lex.spec;
        let place = cx.p.info[self.read_next].path.clone();
        match ls.q {
            Q::Done => {
                let (wt, wsz) = (&ls.vals[0], &ls.vals[1]);
                let (gt, gs) = (&st.objs[1], &got_size);
                let okv = self.same(cx, &st, wt, gt);
                let oks = self.same(cx, &st, wsz, gs);
                if okv && oks {
                    *self.agreed.borrow_mut().entry(ls.kind.to_string()).or_insert(0) += 1;
                } else {
                    let what = format!("{}{}", if okv { "" } else { "token " }, if oks { "" } else { "extent" });
                    let vk = match gt { Val::Agg(k, _) => k.to_string(), _ => "?".into() };
                    self.find(ls.kind, &what, format!("{} -> {}", place, self.got_kind(gt, &vk)), format!("for input like {}{}: expected {} of size {:?}, the code returns {} of size {:?}", st.example(), self.hints(ls), self.describe(wt), wsz, self.describe(gt), gs));
                }
            }
            Q::Reject => self.find(ls.kind, "accepts malformed input", format!("{} -> {}", place, self.got_kind(&st.objs[1], "")), format!("for input like {}{}: no token starts here, but the code returns {} of size {:?}", st.example(), self.hints(ls), self.describe(&st.objs[1]), got_size)),
            q => self.find(kind_of(&q), "decides early", place, format!("for input like {}{}: the code returns {} of size {:?} although what follows can still change the token", st.example(), self.hints(ls), self.describe(&st.objs[1]), got_size)),
        }
    }
    fn got_kind(&self, v: &Val, d: &str) -> String {
        match v { Val::Agg(k, _) => match self.p.ty(self.lay.tok) { TyK::Adt { variants, .. } => variants.get(*k as usize).map_or(d.to_string(), |x| x.name.clone()), _ => d.into() }, _ => d.into() }
    }
    fn hints(&self, ls: &LS) -> String { format!("{}{}", if ls.expr { " (where an expression may start)" } else { "" }, if ls.tmpl { " (where a template continues)" } else { "" }) }
    fn check_positions(&self, cx: &Cx, st: State) {
        for s in if matches!(st.lex.spec.q, Q::TEnd) || st.lex.ended && matches!(st.lex.spec.q, Q::T | Q::TCr | Q::WStop) { vec![st] } else { self.finish(st, 6) } { self.check_pos1(cx, s); }
    }
    fn finish(&self, st: State, n: u32) -> Vec<State> {
        if st.lex.spec.q == Q::TEnd || st.lex.ended { return vec![st]; }
        if n == 0 { return vec![]; }
        self.expand_all(st).into_iter().flat_map(|s| self.finish(s, n - 1)).collect()
    }
    fn check_pos1(&self, cx: &Cx, st: State) {
        let p = self.p;
        let ls = &st.lex.spec;
        let place = cx.local_fn(&st);
        if ls.vals.len() < 4 { self.find("position", "no token was read", place, format!("for input like {}: the code returns without reading a token", st.example())); return; }
        let start = ls.marks[0].clone();
        let end = if st.lex.ended && !matches!(ls.q, Q::TEnd) { start.clone() } else { ls.marks.get(1).cloned().unwrap_or(st.lex.frontier.0.clone()) };
        let tk = p.f(st.top().f as usize);
        let deref = |t: TyId| match p.ty(t) { TyK::Ref(_, t) | TyK::Ptr(_, t) => *t, _ => t };
        let tokzr = deref(tk.locals[1]);
        let get = |v: &Val, t: TyId, n: &str| -> Option<(Val, TyId)> { let i = p.field(t, 0, n)?; Some((cx.proj(v, El::F(i as u16)), p.field_ty(t, 0, i)?)) };
        let pos = |v: &Val, t: TyId| -> Option<[Val; 3]> { Some([get(v, t, "offset")?.0, get(v, t, "line")?.0, get(v, t, "column")?.0]) };
        let mut bad = vec![];
        let mut cmp = |what: &str, got: Option<[Val; 3]>, want: [Val; 3]| match got {
            None => bad.push(format!("{}: layout", what)),
            Some(g) => for (i, n) in ["offset", "line", "column"].iter().enumerate() { if !self.same(cx, &st, &want[i], &g[i]) { bad.push(format!("{} {} is {:?}, expected {:?}", what, n, g[i], want[i])) } },
        };
        let s = [start.clone().val(), ls.vals[2].clone(), ls.vals[3].clone()];
        let e = [end.val(), ls.vals[0].clone(), ls.vals[1].clone()];
        cmp("the tokenizer's position", get(&st.objs[0], tokzr, "position").and_then(|(v, t)| pos(&v, t)), e.clone());
        let rt = match p.ty(tk.locals[3]) { TyK::Tuple(v) => deref(v[1]), _ => 0 };
        cmp("the start of the range", get(&st.objs[3], rt, "start").and_then(|(v, t)| pos(&v, t)), s);
        cmp("the end of the range", get(&st.objs[3], rt, "end").and_then(|(v, t)| pos(&v, t)), e);
        match get(&st.objs[0], tokzr, "code") { Some((Val::Sl(x), _)) if x.s == Lin::k(0) => {} _ => bad.push("the tokenizer's source text changes".into()) }
        if st.objs[2] != Val::Opaque("token of read_next") { bad.push("the token that was read is not what is returned".into()); }
        if bad.is_empty() { *self.agreed.borrow_mut().entry("position".into()).or_insert(0) += 1; }
        for b in bad {
            let key = b.split(" is ").next().unwrap().to_string();
            self.find("position", &key, place.clone(), format!("for input like {}: {}", st.example(), b));
        }
    }
}
/// One table per variable, so that equal sums look equal.
fn canon_lin(l: &Lin, st: &State) -> Lin {
    let mut out = Lin::k(l.c);
    let mut per: Vec<(VarId, Vec<i128>)> = vec![];
    for (a, k) in &l.m {
        match a {
            Atom::B(_) => out = out.add(&Lin::atom(*a), *k),
            Atom::P(v, t) => {
                let tab = table(*t);
                let i = match per.iter().position(|x| x.0 == *v) { Some(i) => i, None => { per.push((*v, vec![0; tab.len()])); per.len() - 1 } };
                for (j, x) in tab.iter().enumerate() { if let Val::Int(c) = x { per[i].1[j] += c * *k as i128; } }
            }
        }
    }
    for (v, sums) in per {
        let d = &st.vars[v as usize];
        match mk_pw(v, sums.into_iter().enumerate().map(|(i, x)| if d.get(i) { Val::Int(x) } else { Val::Undef }).collect()) {
            Val::Pw(v, t) => out = out.add(&Lin::atom(Atom::P(v, t)), 1),
            Val::Int(c) => out.c += c,
            _ => {}
        }
    }
    out
}
fn canon_ft(t: &FT, st: &State) -> FT {
    match t {
        FT::OfInt(l) => FT::OfInt(canon_lin(l, st)),
        FT::Op(o, a, b) => FT::mk(o, canon_ft(a, st), canon_ft(b, st)),
        FT::Powi(a, l) => FT::Powi(Rc::new(canon_ft(a, st)), canon_lin(l, st)),
        _ => t.clone(),
    }
}
fn restrict_one(l: &mut Lin, st: &State) { let mut v = l.clone().val(); restrict_val(&mut v, &st.vars); *l = match v { Val::Int(i) => Lin::k(i), Val::Lin(l) => (*l).clone(), _ => return }; }
impl<'p> Mode for LexMode<'p> {
    fn expand(&self, _cx: &Cx, st: State) -> Vec<State> { self.expand_all(st) }
    fn ret(&self, cx: &Cx, _e: usize, st: State, v: Val, _wl: &mut Vec<Work>) {
        self.taint.set(st.taint);
        let mut st = st;
        if self.positions { self.check_positions(cx, st); return; }
        st.frames[0].locals = Rc::new(vec![v.clone()]);
        for mut s in self.decide(st, 4) { normalise(&mut s); self.check_token(cx, s, &v); }
    }
    fn panic(&self, cx: &Cx, _e: usize, st: State, k: PanicKind, at: String) {
        self.taint.set(st.taint);
        let f = cx.local_fn(&st);
        match k {
            PanicKind::Internal(m) => {
                let msg = format!("{} for input like {}{}: {}", m, st.example(), self.hints(&st.lex.spec), at);
                if !self.positions { self.find(if st.lex.spec.decided() { st.lex.spec.kind } else { kind_of(&st.lex.spec.q) }, "fails by accident", f.clone(), msg.clone()); }
                self.find("panic", &m, f, msg);
            }
            PanicKind::Explicit if self.positions => self.find("position", "panics", f, format!("for input like {}: {}", st.example(), at)),
            PanicKind::Explicit => for s in self.decide(st, 4) {
                match s.lex.spec.q {
                    Q::Reject => { *self.agreed.borrow_mut().entry(format!("rejected {}", s.lex.spec.kind)).or_insert(0) += 1; }
                    Q::Done => self.find(s.lex.spec.kind, "refuses a well-formed token", f.clone(), format!("for input like {}{}: expected {}, the code panics: {}", s.example(), self.hints(&s.lex.spec), self.describe(&s.lex.spec.vals[0]), at)),
                    q => self.find(kind_of(&q), "refuses early", f.clone(), format!("for input like {}{}: the code panics although the token can still be completed: {}", s.example(), self.hints(&s.lex.spec), at)),
                }
            },
        }
    }
    fn stuck(&self, cx: &Cx, _e: usize, st: &State, why: String) {
        self.taint.set(st.taint);
        let f = cx.local_fn(st);
        let k = if st.lex.spec.decided() { st.lex.spec.kind } else { kind_of(&st.lex.spec.q) };
        let k = if self.positions { "position" } else { k };
        self.find(k, "not established", format!("{}: {}", f, short(&why)), format!("{} for input like {}: {} [{}]", why, st.example(), cx.here(st), cx.p.f(st.top().f as usize).name));
    }
}
fn short(s: &str) -> String { s.chars().take_while(|c| !c.is_ascii_digit() && *c != '{').take(60).collect() }

/// Calls are followed everywhere, except that the position analysis takes `read_next` as given.
pub struct LexHooks<'p> { pub m: &'p LexMode<'p> }
impl<'p> Hooks for LexHooks<'p> {
    fn call(&self, cx: &Cx, st: &mut State, f: FnId, args: &[Val], _rty: TyId) -> R<Option<CallRes>> {
        let m = self.m;
        if !m.positions || f != m.read_next { return Ok(None); }
        let Val::Sl(s) = cx.definite(st, args[0].clone())? else { return stuck("read_next on an unknown slice") };
        m.taint.set(st.taint);
        let place = cx.local_fn(st);
        if !matches!(st.lex.spec.q, Q::WStop) {
            if st.lex.spec.q == Q::W && st.lex.ended { return Ok(None); }
            if matches!(st.lex.spec.q, Q::W | Q::WC2 | Q::WEf | Q::WEfbb) { return Err(Fork::Cell); }
            m.find("position", "reads more than one token", place, format!("for input like {}", st.example()));
            return stuck("second token");
        }
        let start = st.lex.spec.marks[0].clone();
        // the hint is passed on
        let hint = match cx.deref(st, &args[1])? { Loc::Mem(p) => cx.read_ptr(st, &p)?, _ => Val::Undef };
        if hint != st.objs[1] { m.find("hint", "the hint is not passed on", place.clone(), format!("read_next gets {:?} instead of the caller's hint", hint)); }
        if s.s != start {
            m.find("whitespace", "where the token starts", place.clone(), format!("for input like {}: the token is read from {:?}, expected {:?}", st.example(), s.s, start));
            return Ok(Some(CallRes::Many(vec![])));
        }
        let len_ok = s.e == Lin::base(0) || st.lex.ended && s.e == st.lex.frontier.0;
        if !len_ok { m.find("position", "the token is read from a shortened source", place.clone(), format!("for input like {}: up to {:?}", st.example(), s.e)); return Ok(Some(CallRes::Many(vec![]))); }
        let Loc::Mem(tp) = cx.deref(st, &args[2])? else { return stuck("token place") };
        if st.lex.ended && start == st.lex.frontier.0 {
            let mut s = st.clone();
            cx.write(&mut s, &tp, Val::Opaque("token of read_next"))?;
            return Ok(Some(CallRes::Many(vec![(s, Val::Int(0))])));
        }
        let n = st.lex.frontier.0.sub(&start);
        if !n.is_k() || n.c < 1 || st.lex.pend > 0 { return Err(Fork::Cell); }
        let mut s = st.clone();
        // replay the bytes of the token that were looked at already
        s.lex.spec.q = Q::T;
        let k = n.c as usize;
        let total = s.lex.cells.len();
        if total < k { return stuck("token start was forgotten"); }
        for i in 0..k {
            let v = s.lex.cells[total - k + i];
            let cls = m.classes(&s.lex.spec, &s.vars[v as usize]);
            if cls.len() > 1 { return Err(Fork::Var(v, cls)); }
            let b = s.vars[v as usize].first().unwrap() as u8;
            if i > 0 && pend_of(b as usize).is_some() { return stuck("more than one character of the token was looked at"); }
            m.step(&mut s, Some(b), Some(v), &start.addk(i as i128));
        }
        s.lex.spec.marks = vec![start.clone()];
        s.lex.open_end = true;
        cx.write(&mut s, &tp, Val::Opaque("token of read_next"))?;
        // the token ends at or after the first character
        Ok(Some(CallRes::Many(if s.lex.ended {
            s.lex.open_end = false;
            s.lex.spec.q = Q::TEnd;
            let e = s.lex.frontier.0.clone();
            vec![(s, e.sub(&start).val())]
        } else { vec![(s, Lin::base(1).sub(&start).val())] })))
    }
}

pub struct LexRun { pub findings: Vec<Finding>, pub agreed: BTreeMap<String, u64>, pub states: usize, pub stats: Stats, pub problems: Vec<String>, pub widened: usize, pub secs: f64 }

pub fn deref_ty(p: &Prog, t: TyId) -> TyId { match p.ty(t) { TyK::Ref(_, t) | TyK::Ptr(_, t) => *t, _ => t } }
fn hint_val(p: &Prog, t: TyId, expr: Val, tmpl: Val) -> Result<Val, String> {
    let n = match p.ty(t) { TyK::Adt { variants, .. } => variants[0].fields.len(), _ => return Err("hint type".into()) };
    let mut v = vec![UNK; n];
    v[p.field(t, 0, "expression").ok_or("hint has no field expression")?] = expr;
    v[p.field(t, 0, "template").ok_or("hint has no field template")?] = tmpl;
    Ok(agg(0, v))
}
fn finish(m: &LexMode, cx: &Cx, ex: Explorer, t0: std::time::Instant) -> LexRun {
    if std::env::var("JSA_HIST").is_ok() { ex.print_hist(); }
    for (k, v) in [("calls not modelled", cx.problems.borrow().iter().cloned().collect::<Vec<_>>())] {
        for x in v { m.find("not modelled", k, x.clone(), x); }
    }
    LexRun { findings: m.findings.borrow().values().cloned().collect(), agreed: m.agreed.borrow().clone(), states: ex.states, stats: cx.stats.borrow().clone(), problems: cx.problems.borrow().iter().cloned().collect(), widened: ex.widened, secs: t0.elapsed().as_secs_f64() }
}

pub fn run_token(p: &Prog, expr: bool, tmpl: bool) -> Result<LexRun, String> {
    let t0 = std::time::Instant::now();
    let f = p.root("read_next").ok_or("read_next not found")?;
    let fun = p.f(f);
    let tok = deref_ty(p, fun.locals[3]);
    let m = LexMode { lay: Lay::new(p, tok)?, findings: Default::default(), agreed: Default::default(), taint: Default::default(), positions: false, p, read_next: f };
    let hooks = LexHooks { m: &m };
    let cx = Cx::new(p, &hooks);
    let mut st = State::default();
    st.objs = vec![hint_val(p, deref_ty(p, fun.locals[2]), b(expr), b(tmpl))?, Val::Opaque("old token")];
    st.lex.on = true;
    st.lex.spec.q = Q::Start;
    st.lex.spec.expr = expr;
    st.lex.spec.tmpl = tmpl;
    let obj = |i: u16| Val::Ref(Rc::new(Ptr { root: Root::Obj(i), path: vec![] }));
    cx.enter(&mut st, f, vec![sl(Lin::k(0), Lin::base(0)), obj(0), obj(1)], None, None, false).map_err(|e| format!("{:?}", e))?;
    let mut ex = Explorer::new(&cx, &m);
    ex.add(0, st);
    ex.run();
    Ok(finish(&m, &cx, ex, t0))
}

pub fn next_token_fn(p: &Prog) -> Option<FnId> {
    let v = p.find_fn(|f, path| f.local && path.ends_with("::next_token") && path.contains("Tokenizer") && f.blocks.is_some() && f.kind == FnKind::Item);
    v.into_iter().find(|&i| p.blocks(i).iter().any(|_| true))
}

pub fn run_positions(p: &Prog) -> Result<LexRun, String> {
    let t0 = std::time::Instant::now();
    let rn = p.root("read_next").ok_or("read_next not found")?;
    let f = next_token_fn(p).ok_or("next_token not found")?;
    let fun = p.f(f);
    let tok = deref_ty(p, p.f(rn).locals[3]);
    let m = LexMode { lay: Lay::new(p, tok)?, findings: Default::default(), agreed: Default::default(), taint: Default::default(), positions: true, p, read_next: rn };
    let hooks = LexHooks { m: &m };
    let cx = Cx::new(p, &hooks);
    let mut st = State::default();
    let tz = deref_ty(p, fun.locals[1]);
    let (off, line, col) = (2, 3, 4);
    let nat = BaseInfo { lbs: vec![(None, 0)], ub: None, flb: None };
    st.bases = vec![(off, nat.clone()), (line, BaseInfo { lbs: vec![(None, 1)], ub: None, flb: None }), (col, nat)];
    let nf = match p.ty(tz) { TyK::Adt { variants, .. } => variants[0].fields.len(), _ => return Err("tokenizer type".into()) };
    let mut fs = vec![Val::Top; nf];
    let (ci, pi) = (p.field(tz, 0, "code").ok_or("tokenizer has no field code")?, p.field(tz, 0, "position").ok_or("tokenizer has no field position")?);
    fs[ci] = sl(Lin::k(0), Lin::base(0));
    let pt = p.field_ty(tz, 0, pi).unwrap();
    let mut ps = vec![Val::Top; 3];
    for (n, b) in [("offset", off), ("line", line), ("column", col)] { ps[p.field(pt, 0, n).ok_or("position fields")?] = Lin::base(b).val(); }
    fs[pi] = agg(0, ps);
    let ht = deref_ty(p, fun.locals[2]);
    let mut h = hint_val(p, ht, Val::Opaque("hint expression"), Val::Opaque("hint template"))?;
    if let Val::Agg(_, f) = &mut h { for (i, x) in Rc::make_mut(f).iter_mut().enumerate() { if *x == Val::Top { *x = Val::Opaque(["hint a", "hint b", "hint c", "hint d"][i % 4]); } } }
    st.objs = vec![agg(0, fs), h, Val::Opaque("old token"), Val::Opaque("old range")];
    st.lex.on = true;
    st.lex.frontier = Lin0(Lin::base(off));
    st.lex.bnd = vec![Lin::base(off), Lin::k(0)];
    st.lex.spec.q = Q::W;
    st.lex.spec.vals = vec![Lin::base(line).val(), Lin::base(col).val()];
    let obj = |i: u16| Val::Ref(Rc::new(Ptr { root: Root::Obj(i), path: vec![] }));
    cx.enter(&mut st, f, vec![obj(0), obj(1), agg(0, vec![obj(2), obj(3)])], None, None, false).map_err(|e| format!("{:?}", e))?;
    let mut ex = Explorer::new(&cx, &m);
    ex.add(0, st);
    ex.run();
    Ok(finish(&m, &cx, ex, t0))
}

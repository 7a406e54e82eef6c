//! What reading and parsing can depend on besides the text: an effect analysis over the call graph.
use crate::check::Report;
use crate::lexmode::Finding;
use crate::prog::{norm, Prog};
use ir::*;
use std::collections::BTreeMap;

/// Functions of the standard library proper that neither look at nor change anything outside their arguments.
const HARMLESS: &[&str] = &["f64::", "f32::", "rt::begin_panic", "rt::panic", "panic", "ascii::", "error::", "alloc::"];
fn impure(p: &Prog, g: FnId) -> Option<String> {
    let f = p.f(g);
    let path = norm(&f.path);
    let has = |w: &[&str]| w.iter().find(|x| path.contains(**x)).map(|x| x.to_string());
    match &f.krate[..] {
        "core" | "alloc" => has(&["sync::atomic", "cell::", "expose_provenance", "any::type_id", "hint::black_box"]).map(|_| "shared or ambient state".into()),
        "failure" => None,
        "std" => if path.contains("HashMap") || path.contains("HashSet") || path.contains("RandomState") { Some("a randomly seeded table".into()) }
            else if let Some(x) = has(&["thread", "env::", "fs::", "io::", "time::", "process::", "net::", "sync::", "os::", "sys::"]) { Some(format!("the environment ({})", x.trim_end_matches(':'))) }
            else if has(HARMLESS).is_some() { None } else { Some("the operating system or the runtime".into()) },
        _ if f.local => None,
        k => Some(format!("the crate {}", k)),
    }
}
fn has_cell(p: &Prog, t: TyId, depth: u32) -> bool {
    if depth > 12 { return false; }
    match p.ty(t) {
        TyK::Adt { path, args, variants, .. } => norm(path).ends_with("UnsafeCell") || path.contains("Atomic") || path.contains("LocalKey") || args.iter().any(|a| has_cell(p, *a, depth + 1)) || variants.iter().any(|v| v.fields.iter().any(|f| has_cell(p, f.1, depth + 1))),
        TyK::Tuple(v) => v.iter().any(|a| has_cell(p, *a, depth + 1)),
        TyK::Array(a, _) | TyK::Slice(a) | TyK::Ref(_, a) => has_cell(p, *a, depth + 1),
        _ => false,
    }
}
fn place_ops(p: &Place, f: &mut impl FnMut(&Place)) { f(p) }
fn each(b: &Block, places: &mut impl FnMut(&Place), consts: &mut impl FnMut(&Const, TyId), rvs: &mut impl FnMut(&Rv)) {
    let mut op = |o: &Op, places: &mut dyn FnMut(&Place)| match o { Op::Copy(p) | Op::Move(p) => places(p), Op::Const(c, t) => consts(c, *t) };
    for s in &b.stmts {
        match s {
            Stmt::Assign(p, r) => {
                place_ops(p, places);
                rvs(r);
                match r {
                    Rv::Use(o) | Rv::Un(_, o, _) | Rv::Cast(_, o, _, _) | Rv::Repeat(o, _) => op(o, places),
                    Rv::Ref(_, p) | Rv::Addr(p) | Rv::Discr(p, _) | Rv::Len(p) => places(p),
                    Rv::Agg(_, v) => for o in v { op(o, places) },
                    Rv::Bin(_, a, c, _) | Rv::Checked(_, a, c, _) => { op(a, places); op(c, places) }
                    Rv::Other(_) => {}
                }
            }
            Stmt::SetDiscr(p, _) => places(p),
            _ => {}
        }
    }
    match &b.term {
        Term::Switch { op: o, .. } | Term::Assert { cond: o, .. } => op(o, places),
        Term::Drop { place, .. } => places(place),
        Term::Call { args, dest, f, .. } => { places(dest); for a in args { op(a, places) } if let Callee::Indirect(o) = f { op(o, places) } }
        _ => {}
    }
}

pub fn run(p: &Prog) -> Result<Report, String> {
    let t0 = std::time::Instant::now();
    let root = p.root("parse_root").ok_or("parse_root not found")?;
    let mut from: BTreeMap<FnId, (FnId, u32)> = BTreeMap::new();
    let mut todo = vec![root];
    if let Some(r) = p.root("read_next") { todo.push(r); }
    let start = todo.clone();
    let mut seen = vec![false; p.p.fns.len()];
    for x in &todo { seen[*x] = true; }
    let mut fs: BTreeMap<String, Finding> = BTreeMap::new();
    let mut agreed: BTreeMap<String, u64> = BTreeMap::new();
    let (mut blocks, mut sites, mut steps) = (0, 0, 0u64);
    let mut fns = vec![];
    let path_to = |from: &BTreeMap<FnId, (FnId, u32)>, mut f: FnId| { let mut v = vec![p.info[f].path.clone()]; while let Some((g, l)) = from.get(&f) { v.push(format!("{} (line {})", p.info[*g].path, l)); f = *g; if v.len() > 12 { break; } } v.join(" <- ") };
    let mut find = |what: &str, key: String, msg: String, decided: bool| { let k = format!("effect: {}: {}", what, key); fs.entry(k.clone()).or_insert(Finding { area: "effect".into(), what: what.into(), key: k, msg, decided }); };
    for u in &p.p.facts.unsafe_items { find("unsafe code", u.clone(), format!("{} in the crate", u), true); }
    *agreed.entry("functions of the crate declared safe".into()).or_insert(0) += p.p.facts.local_fns.len() as u64;
    while let Some(f) = todo.pop() {
        let fun = p.f(f);
        let Some(bs) = &fun.blocks else { continue };
        // the entry point may measure and report
        let top = norm(&fun.path).ends_with("from_tokenizer") && from.get(&f).map_or(true, |x| start.contains(&x.0));
        if fun.local { fns.push(p.info[f].path.clone()); }
        for (i, b) in bs.iter().enumerate() {
            blocks += 1;
            steps += b.stmts.len() as u64;
            let line = p.at(f, i);
            if fun.local {
                let mut bad: Vec<(String, String, bool)> = vec![];
                let mut ok = 0;
                let mut stat = |c: &Const, t: TyId| {
                    fn inner(c: &Const, out: &mut Vec<usize>) { match c { Const::Static(i) => out.push(*i), Const::Agg(_, v) => for x in v { inner(x, out) }, Const::Ref(x) => inner(x, out), _ => {} } }
                    let mut v = vec![];
                    inner(c, &mut v);
                    for i in v {
                        let s = &p.p.statics[i];
                        if matches!(p.ty(t), TyK::Ptr(..)) { bad.push(("mutable global".into(), s.name.clone(), true)); }
                        else if has_cell(p, s.ty, 0) { bad.push(("shared state".into(), s.name.clone(), true)); } else { ok += 1; }
                    }
                };
                let mut casts = vec![];
                each(b, &mut |_| {}, &mut |c, t| stat(c, t), &mut |r| if let Rv::Cast(k, _, _, _) = r { if k.contains("PointerExpose") || k.contains("Transmute") && false { casts.push(k.clone()); } });
                for (what, name, d) in bad { find(&what, format!("{}: {}", p.info[f].path, name), format!("{} is used at {}: {}", name, line, path_to(&from, f)), d); }
                for c in casts { find("address", p.info[f].path.clone(), format!("an address is used as a number ({}) at {}: {}", c, line, path_to(&from, f)), true); }
                if ok > 0 { *agreed.entry("uses of constants that never change".into()).or_insert(0) += ok; }
            }
            let g = match &b.term {
                Term::Call { f: Callee::Direct(g), .. } => Some(*g),
                Term::Drop { glue: Some(g), .. } => Some(*g),
                Term::Call { f: Callee::Indirect(_), .. } => { if fun.local { find("indirect call", p.info[f].path.clone(), format!("the callee at {} is not known", line), false); } None }
                _ => None,
            };
            let Some(g) = g else { continue };
            sites += 1;
            match if p.f(g).kind == FnKind::Shim { None } else { impure(p, g) } {
                Some(w) => {
                    if top { *agreed.entry("reports of the entry point".into()).or_insert(0) += 1; continue; }
                    find("ambient input", format!("{}: {}", p.info[f].path, p.info[g].path), format!("{} is called at {} and depends on {}: {}", p.info[g].path, line, w, path_to(&from, f)), true);
                }
                None => {
                    *agreed.entry(if p.f(g).local { "calls within the crate" } else { "calls of functions of their arguments" }.into()).or_insert(0) += 1;
                    if !std::mem::replace(&mut seen[g], true) { from.insert(g, (f, b.line)); todo.push(g); }
                }
            }
        }
    }
    Ok(Report { name: "EFF".into(), what: "effects of everything reachable from parse_root and read_next".into(), findings: fs.into_values().collect(), agreed, states: seen.iter().filter(|x| **x).count(), steps, fns, sites, blocks, widened: 0, secs: t0.elapsed().as_secs_f64() })
}

//! The loaded program with the per-function facts the interpreter needs.
use ir::*;
use std::collections::HashMap;

pub struct FnInfo {
    pub path: String,
    /// blocks with more than one predecessor
    pub join: Vec<bool>,
    /// targets of back edges
    pub head: Vec<bool>,
    /// reverse post order number
    pub rpo: Vec<u32>,
    /// locals that the loop at a head can change (or whose address is known somewhere)
    pub varying: Vec<Option<Vec<bool>>>,
    /// locals whose value is needed at the start of each block
    pub live: Vec<Vec<bool>>,
    /// type of the place that gets the result of the call that ends each block
    pub rty: Vec<TyId>,
    pub recursive: bool,
    /// as drop glue: runs code of the crate
    pub drops_locally: bool,
}

pub struct Prog {
    pub p: Program,
    pub info: Vec<FnInfo>,
    pub dir: String,
}

/// Paths are printed through whatever re-export rustc finds first; bring them back to one form.
pub fn norm(path: &str) -> String {
    let mut s = path.replace("jsparse::failure::core::", "core::");
    s = s.replace("jsparse::failure::", "failure::").replace("jsparse::time::", "time::");
    s.replace("std::", "core::").replace("alloc::", "core::")
}

fn succs(t: &Term) -> Vec<usize> {
    match t {
        Term::Goto(b) => vec![*b],
        Term::Switch { targets, otherwise, .. } => { let mut v: Vec<usize> = targets.iter().map(|x| x.1).collect(); v.push(*otherwise); v }
        Term::Drop { target, .. } | Term::Assert { target, .. } => vec![*target],
        Term::Call { target, .. } => target.iter().cloned().collect(),
        _ => vec![],
    }
}

fn place_uses(p: &Place, f: &mut impl FnMut(usize)) {
    f(p.l);
    for x in &p.p { if let Proj::Index(i) = x { f(*i) } }
}
fn op_uses(o: &Op, f: &mut impl FnMut(usize)) { match o { Op::Copy(p) | Op::Move(p) => place_uses(p, f), _ => {} } }
fn rv_uses(r: &Rv, f: &mut impl FnMut(usize)) {
    match r {
        Rv::Use(o) | Rv::Un(_, o, _) | Rv::Cast(_, o, _, _) | Rv::Repeat(o, _) => op_uses(o, f),
        Rv::Ref(_, p) | Rv::Addr(p) | Rv::Discr(p, _) | Rv::Len(p) => place_uses(p, f),
        Rv::Agg(_, v) => for o in v { op_uses(o, f) },
        Rv::Bin(_, a, b, _) | Rv::Checked(_, a, b, _) => { op_uses(a, f); op_uses(b, f) }
        Rv::Other(_) => {}
    }
}

impl Prog {
    pub fn load(path: &str) -> Result<Prog, String> {
        let data = std::fs::read(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut p: Program = serde_json::from_slice(&data).map_err(|e| e.to_string())?;
        // trivial drops do nothing
        for f in &mut p.fns {
            if let Some(bs) = &mut f.blocks {
                for b in bs { if let Term::Drop { target, glue: None, .. } = &b.term { b.term = Term::Goto(*target); } }
            }
        }
        let n = p.fns.len();
        let mut info: Vec<FnInfo> = p.fns.iter_mut().map(|f| {
            let rty = f.blocks.iter().flatten().map(|b| if let Term::Call { dest, .. } = &b.term { f.locals[dest.l] } else { 0 }).collect();
            let i = analyse(f);
            if coalesce(f, &i) { FnInfo { rty, ..analyse(f) } } else { FnInfo { rty, ..i } }
        }).collect();
        // strongly connected components of the call graph (by reachability; the graph is small)
        let calls: Vec<Vec<usize>> = p.fns.iter().map(|f| {
            let mut v = vec![];
            for b in f.blocks.iter().flatten() {
                match &b.term {
                    Term::Call { f: Callee::Direct(g), .. } => v.push(*g),
                    Term::Drop { glue: Some(g), .. } => v.push(*g),
                    _ => {}
                }
            }
            v
        }).collect();
        for i in 0..n {
            let mut seen = vec![false; n];
            let mut st = calls[i].clone();
            while let Some(x) = st.pop() { if !seen[x] { seen[x] = true; st.extend(&calls[x]); } }
            info[i].recursive = seen[i];
            info[i].drops_locally = (0..n).any(|x| seen[x] && p.fns[x].local && p.fns[x].kind == FnKind::Item) || p.fns[i].local && p.fns[i].kind == FnKind::Item;
        }
        Ok(Prog { p, info, dir: String::new() })
    }
    pub fn f(&self, i: FnId) -> &Func { &self.p.fns[i] }
    pub fn blocks(&self, i: FnId) -> &[Block] { self.p.fns[i].blocks.as_deref().unwrap() }
    pub fn ty(&self, i: TyId) -> &TyK { &self.p.types[i].kind }
    pub fn root(&self, n: &str) -> Option<FnId> { self.p.roots.iter().find(|r| r.0 == n).map(|r| r.1) }
    pub fn find_fn(&self, pred: impl Fn(&Func, &str) -> bool) -> Vec<FnId> {
        (0..self.p.fns.len()).filter(|&i| pred(&self.p.fns[i], &self.info[i].path)).collect()
    }
    /// location of a block for reports
    pub fn at(&self, f: FnId, b: usize) -> String {
        let fun = self.f(f);
        match fun.blocks.as_ref().and_then(|x| x.get(b)) {
            Some(bl) => format!("{}:{}", bl.file.as_ref().unwrap_or(&fun.span.file), bl.line),
            None => fun.span.file.clone(),
        }
    }
    /// index of an ADT variant by name
    pub fn variant(&self, ty: TyId, name: &str) -> Option<usize> {
        match self.ty(ty) { TyK::Adt { variants, .. } => variants.iter().position(|v| v.name == name), _ => None }
    }
    pub fn field(&self, ty: TyId, variant: usize, name: &str) -> Option<usize> {
        match self.ty(ty) { TyK::Adt { variants, .. } => variants.get(variant)?.fields.iter().position(|f| f.0 == name), _ => None }
    }
    pub fn field_ty(&self, ty: TyId, variant: usize, i: usize) -> Option<TyId> {
        match self.ty(ty) { TyK::Adt { variants, .. } => variants.get(variant)?.fields.get(i).map(|f| f.1), TyK::Tuple(v) => v.get(i).cloned(), _ => None }
    }
    pub fn adt_path(&self, ty: TyId) -> Option<&str> { match self.ty(ty) { TyK::Adt { path, .. } => Some(path), _ => None } }
}

fn place_map(p: &mut Place, m: &[usize]) {
    p.l = m[p.l];
    for x in &mut p.p { if let Proj::Index(i) = x { *i = m[*i] } }
}
fn op_map(o: &mut Op, m: &[usize]) { match o { Op::Copy(p) | Op::Move(p) => place_map(p, m), _ => {} } }
fn rv_map(r: &mut Rv, m: &[usize]) {
    match r {
        Rv::Use(o) | Rv::Un(_, o, _) | Rv::Cast(_, o, _, _) | Rv::Repeat(o, _) => op_map(o, m),
        Rv::Ref(_, p) | Rv::Addr(p) | Rv::Discr(p, _) | Rv::Len(p) => place_map(p, m),
        Rv::Agg(_, v) => for o in v { op_map(o, m) },
        Rv::Bin(_, a, b, _) | Rv::Checked(_, a, b, _) => { op_map(a, m); op_map(b, m) }
        Rv::Other(_) => {}
    }
}

/// Give locals that are never needed at the same time one number, to keep the states small.
fn coalesce(f: &mut Func, info: &FnInfo) -> bool {
    let nl = f.locals.len();
    let Some(bs) = &mut f.blocks else { return false };
    if nl < 8 || nl > 2000 { return false; }
    let mut fixed = vec![false; nl];
    for i in 0..=f.nargs { fixed[i] = true; }
    if let Some(s) = f.spread { fixed[s] = true; }
    let part = |p: &Place, fixed: &mut Vec<bool>| if !p.p.is_empty() && p.p[0] != Proj::Deref { fixed[p.l] = true; };
    for b in bs.iter() {
        for s in &b.stmts {
            match s {
                Stmt::Assign(p, r) => {
                    part(p, &mut fixed);
                    if let Rv::Ref(_, q) | Rv::Addr(q) = r { if !q.p.contains(&Proj::Deref) { fixed[q.l] = true; } }
                }
                Stmt::SetDiscr(p, _) => fixed[p.l] = true,
                _ => {}
            }
        }
        match &b.term {
            Term::Call { dest, .. } => part(dest, &mut fixed),
            Term::Drop { place, .. } => if !place.p.contains(&Proj::Deref) { fixed[place.l] = true; },
            _ => {}
        }
    }
    let mut inter = vec![vec![false; nl]; nl];
    let mut used = vec![false; nl];
    let mut meet = |d: usize, l: &[bool]| for i in 0..nl { if l[i] && i != d { inter[d][i] = true; inter[i][d] = true; } };
    for b in bs.iter() {
        let mut l = vec![false; nl];
        for t in succs(&b.term) { for i in 0..nl { l[i] |= info.live[t][i]; } }
        let mut uses = vec![];
        match &b.term {
            Term::Return => uses.push(0),
            Term::Switch { op, .. } => op_uses(op, &mut |x| uses.push(x)),
            Term::Drop { place, .. } => place_uses(place, &mut |x| uses.push(x)),
            Term::Call { f, args, dest, .. } => {
                used[dest.l] = true;
                if dest.p.is_empty() { meet(dest.l, &l); l[dest.l] = false; } else { place_uses(dest, &mut |x| uses.push(x)); }
                for a in args { op_uses(a, &mut |x| uses.push(x)); }
                // the result is written while the arguments are still there
                if dest.p.is_empty() { let mut u = vec![false; nl]; for x in &uses { u[*x] = true; } meet(dest.l, &u); }
                if let Callee::Indirect(o) = f { op_uses(o, &mut |x| uses.push(x)); }
            }
            Term::Assert { cond, .. } => op_uses(cond, &mut |x| uses.push(x)),
            _ => {}
        }
        for u in uses { l[u] = true; used[u] = true; }
        for s in b.stmts.iter().rev() {
            match s {
                Stmt::Assign(p, r) => {
                    used[p.l] = true;
                    if p.p.is_empty() { meet(p.l, &l); l[p.l] = false; } else { place_uses(p, &mut |x| { l[x] = true; used[x] = true }); }
                    rv_uses(r, &mut |x| { l[x] = true; used[x] = true });
                }
                Stmt::SetDiscr(p, _) => { used[p.l] = true; l[p.l] = true; }
                _ => {}
            }
        }
    }
    let mut slots: Vec<Vec<usize>> = vec![];
    let mut m: Vec<usize> = vec![0; nl];
    for i in 0..nl { if fixed[i] && (used[i] || i <= f.nargs || f.spread == Some(i)) { m[i] = slots.len(); slots.push(vec![i]); } }
    let nfixed = slots.len();
    for i in 0..nl {
        if fixed[i] || !used[i] { continue; }
        match (nfixed..slots.len()).find(|s| !slots[*s].iter().any(|j| inter[i][*j])) {
            Some(s) => { m[i] = s; slots[s].push(i); }
            None => { m[i] = slots.len(); slots.push(vec![i]); }
        }
    }
    let keep: Vec<bool> = (0..nl).map(|i| used[i] && slots[m[i]].len() == 1).collect();
    for b in bs.iter_mut() {
        b.stmts.retain(|s| match s { Stmt::Live(x) | Stmt::Dead(x) => keep[*x], _ => true });
        for s in &mut b.stmts {
            match s {
                Stmt::Assign(p, r) => { place_map(p, &m); rv_map(r, &m); }
                Stmt::SetDiscr(p, _) => place_map(p, &m),
                Stmt::Live(x) | Stmt::Dead(x) => *x = m[*x],
                Stmt::Assume(o) => op_map(o, &m),
                Stmt::CopyNonOverlapping => {}
            }
        }
        match &mut b.term {
            Term::Switch { op, .. } => op_map(op, &m),
            Term::Drop { place, .. } => place_map(place, &m),
            Term::Call { f, args, dest, .. } => { place_map(dest, &m); for a in args { op_map(a, &m); } if let Callee::Indirect(o) = f { op_map(o, &m); } }
            Term::Assert { cond, .. } => op_map(cond, &m),
            _ => {}
        }
    }
    f.locals = slots.iter().map(|s| f.locals[s[0]]).collect();
    f.local_names = vec![];
    if std::env::var("JSA_SLOTS").is_ok() { eprintln!("slots {} {} -> {} {}", f.name, nl, slots.len(), nfixed); }
    true
}

fn analyse(f: &Func) -> FnInfo {
    let path = norm(&f.path);
    let Some(bs) = &f.blocks else { return FnInfo { path, join: vec![], head: vec![], rpo: vec![], varying: vec![], live: vec![], rty: vec![], recursive: false, drops_locally: false } };
    let n = bs.len();
    let sc: Vec<Vec<usize>> = bs.iter().map(|b| succs(&b.term)).collect();
    // depth first search
    let mut color = vec![0u8; n];
    let mut head = vec![false; n];
    let mut npred = vec![0; n];
    let mut post = vec![];
    let mut stack = vec![(0usize, 0usize)];
    color[0] = 1;
    while let Some((b, i)) = stack.pop() {
        if i < sc[b].len() {
            stack.push((b, i + 1));
            let t = sc[b][i];
            match color[t] { 0 => { color[t] = 1; stack.push((t, 0)); } 1 => head[t] = true, _ => {} }
        } else { color[b] = 2; post.push(b); }
    }
    for b in 0..n { if color[b] == 2 { let mut ts = sc[b].clone(); ts.sort(); ts.dedup(); for t in ts { npred[t] += 1; } } }
    // natural loops, to number the blocks of a loop before what follows it
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
    for b in 0..n { if color[b] == 2 { for &t in &sc[b] { pred[t].push(b); } } }
    let mut pos = vec![0usize; n];
    for (i, b) in post.iter().enumerate() { pos[*b] = i; }
    let mut loops: Vec<Vec<bool>> = vec![];
    let mut heads = vec![];
    for h in 0..n {
        if !head[h] { continue; }
        let mut body = vec![false; n];
        body[h] = true;
        let mut st: Vec<usize> = pred[h].iter().cloned().filter(|u| pos[*u] <= pos[h]).collect();
        while let Some(x) = st.pop() { if !body[x] { body[x] = true; st.extend(&pred[x]); } }
        loops.push(body);
        heads.push(h);
    }
    let order: Vec<Vec<usize>> = (0..n).map(|b| { let mut v = sc[b].clone(); v.sort_by_key(|t| loops.iter().filter(|l| l[b] && l[*t]).count()); v }).collect();
    let mut seen = vec![false; n];
    let mut post2 = vec![];
    let mut stack = vec![(0usize, 0usize)];
    seen[0] = true;
    while let Some((b, i)) = stack.pop() {
        if i < order[b].len() {
            stack.push((b, i + 1));
            let t = order[b][i];
            if !seen[t] { seen[t] = true; stack.push((t, 0)); }
        } else { post2.push(b); }
    }
    let mut rpo = vec![0u32; n];
    for (i, b) in post2.iter().rev().enumerate() { rpo[*b] = i as u32; }
    let join = npred.iter().zip(&head).map(|(&c, &h)| c > 1 || h).collect();
    // liveness
    let nl = f.locals.len();
    let mut addr = vec![false; nl];
    for b in bs { for s in &b.stmts { if let Stmt::Assign(_, Rv::Ref(_, p)) | Stmt::Assign(_, Rv::Addr(p)) = s { if !p.p.contains(&Proj::Deref) { addr[p.l] = true; } } } }
    for b in bs { if let Term::Drop { place, .. } = &b.term { if !place.p.contains(&Proj::Deref) { addr[place.l] = true; } } }
    let mut varying: Vec<Option<Vec<bool>>> = vec![None; n];
    for (h, body) in heads.iter().zip(&loops) {
        let mut v = addr.clone();
        for b in 0..n {
            if !body[b] { continue; }
            for s in &bs[b].stmts { match s { Stmt::Assign(p, _) | Stmt::SetDiscr(p, _) => if !p.p.contains(&Proj::Deref) { v[p.l] = true; }, _ => {} } }
            if let Term::Call { dest, .. } = &bs[b].term { if !dest.p.contains(&Proj::Deref) { v[dest.l] = true; } }
        }
        varying[*h] = Some(v);
    }
    let mut live = vec![vec![false; nl]; n];
    loop {
        let mut changed = false;
        for &b in &post {
            let mut l = vec![false; nl];
            for &t in &sc[b] { for i in 0..nl { l[i] |= live[t][i]; } }
            let bl = &bs[b];
            let mut uses = vec![];
            match &bl.term {
                Term::Return => uses.push(0),
                Term::Switch { op, .. } => op_uses(op, &mut |x| uses.push(x)),
                Term::Drop { place, .. } => place_uses(place, &mut |x| uses.push(x)),
                Term::Call { f, args, dest, .. } => {
                    if dest.p.is_empty() { l[dest.l] = false; } else { place_uses(dest, &mut |x| uses.push(x)); }
                    for a in args { op_uses(a, &mut |x| uses.push(x)); }
                    if let Callee::Indirect(o) = f { op_uses(o, &mut |x| uses.push(x)); }
                }
                Term::Assert { cond, .. } => op_uses(cond, &mut |x| uses.push(x)),
                _ => {}
            }
            for u in uses { l[u] = true; }
            for s in bl.stmts.iter().rev() {
                match s {
                    Stmt::Assign(p, r) => {
                        if p.p.is_empty() { l[p.l] = false; } else { place_uses(p, &mut |x| l[x] = true); }
                        rv_uses(r, &mut |x| l[x] = true);
                    }
                    Stmt::SetDiscr(p, _) => place_uses(p, &mut |x| l[x] = true),
                    Stmt::Live(x) => l[*x] = false,
                    Stmt::Dead(x) => l[*x] = false,
                    Stmt::Assume(_) | Stmt::CopyNonOverlapping => {}
                }
            }
            if l != live[b] { live[b] = l; changed = true; }
        }
        if !changed { break; }
    }
    // a local whose address was taken stays until its storage dies (handled by the interpreter)
    for b in 0..n { for i in 0..nl { if addr[i] { live[b][i] = true; } } }
    FnInfo { path, join, head, rpo, varying, live, rty: vec![], recursive: false, drops_locally: false }
}

pub fn type_index(p: &Program) -> HashMap<String, TyId> { p.types.iter().enumerate().map(|(i, t)| (t.name.clone(), i)).collect() }

//! Models of the standard library and dependency functions that are not interpreted from their MIR.
use crate::interp::*;
use crate::state::*;
use crate::val::*;
use ir::*;
use std::rc::Rc;

fn val(v: Val) -> R<Option<CallRes>> { Ok(Some(CallRes::Val(v))) }
fn none() -> Val { agg(0, vec![]) }
fn some(v: Val) -> Val { agg(1, vec![v]) }

/// The text of a panic message, when it is known.
fn text(cx: &Cx, st: &State, v: &Val, depth: u32) -> Option<String> {
    match v {
        Val::Str(s) => Some(String::from_utf8_lossy(s).into_owned()),
        Val::Agg(_, f) if depth < 4 => f.iter().filter_map(|x| text(cx, st, x, depth + 1)).next(),
        Val::Ref(p) if depth < 4 => cx.read_ptr(st, p).ok().and_then(|x| text(cx, st, &x, depth + 1)),
        _ => None,
    }
}
fn panic_kind(cx: &Cx, st: &State, args: &[Val]) -> (PanicKind, String) {
    let msg = args.iter().filter_map(|a| text(cx, st, a, 0)).next().unwrap_or_default();
    let local = cx.p.f(st.top().f as usize).local;
    let internal = !local || msg.starts_with("internal error") || msg.starts_with("assertion") || msg.contains("overflow");
    if internal { (PanicKind::Internal(if msg.is_empty() { "panic".into() } else { msg.clone() }), msg) } else { (PanicKind::Explicit, msg) }
}

/// Are the two strings equal?
pub fn str_eq(cx: &Cx, st: &State, a: &Val, b: &Val) -> R<Val> {
    let strip = |v: &Val| -> Val { let mut v = v.clone(); for _ in 0..4 { match &v { Val::Ref(p) => match cx.read_ptr(st, p) { Ok(x @ (Val::Str(_) | Val::Opaque(_) | Val::Pw(..) | Val::Ref(_))) => v = x, _ => break }, _ => break } } cx.simp(st, v) };
    let (a, b) = (strip(a), strip(b));
    Ok(match (&a, &b) {
        (Val::Str(x), Val::Str(y)) => Val::B(x == y),
        (Val::Pw(v, t), Val::Str(_)) | (Val::Str(_), Val::Pw(v, t)) => {
            let k = if let Val::Str(_) = &a { a.clone() } else { b.clone() };
            map_table(*v, *t, MemoKey::Bin("streq".into(), k.clone(), true, 0), |l| match (l, &k) {
                (Val::Str(x), Val::Str(y)) => Val::B(x == y),
                // the distinguished strings are exactly those some code or rule mentions
                (Val::Opaque(_), _) => Val::B(false),
                _ => Val::Undef,
            })
        }
        (Val::Opaque(o), Val::Str(_)) | (Val::Str(_), Val::Opaque(o)) if o.starts_with("other") => Val::B(false),
        (Val::Sl(s), Val::Str(k)) | (Val::Str(k), Val::Sl(s)) => {
            let n = s.e.sub(&s.s);
            if n.is_k() && n.c != k.len() as i128 { return Ok(Val::B(false)); }
            if !n.is_k() {
                match (cx.lin_lt(st, &n, &Lin::k(k.len() as i128))?, cx.lin_lt(st, &Lin::k(k.len() as i128), &n)?) {
                    (Some(true), _) | (_, Some(true)) => return Ok(Val::B(false)),
                    (Some(false), Some(false)) => {}
                    _ => return Ok(UNK),
                }
            }
            prefix(cx, st, &s.s, k)?.map_or(UNK, Val::B)
        }
        (Val::Top, _) | (_, Val::Top) | (Val::Opaque(_), _) | (_, Val::Opaque(_)) => Val::Top,
        (Val::Pw(v, t), _) | (_, Val::Pw(v, t)) => return Err(cx.split_all(st, *v, *t)),
        _ => Val::Top,
    })
}
/// Do the input bytes from `s` on start with `k`?  (The caller has checked the length.)
fn prefix(cx: &Cx, st: &State, s: &Lin, k: &[u8]) -> R<Option<bool>> {
    for (i, want) in k.iter().enumerate() {
        match cx.cell(st, &s.addk(i as i128))? {
            Val::Pw(v, _) => {
                let d = st.vars[v as usize];
                let w = Bits::one(*want as usize);
                if d.and(&w).is_empty() { return Ok(Some(false)); }
                if !d.subset(&w) { return Err(Fork::Var(v, vec![w, d.minus(&w)])); }
            }
            Val::Int(b) => if b != *want as i128 { return Ok(Some(false)); },
            _ => return Ok(None),
        }
    }
    Ok(Some(true))
}
fn cow_str(cx: &Cx, st: &State, v: &Val) -> R<Val> {
    let v = cx.simp(st, v.clone());
    Ok(match &v {
        Val::Agg(0, f) => f[0].clone(),
        Val::Pw(x, t) => {
            let m = map_table(*x, *t, MemoKey::Named("cow"), |l| match l { Val::Agg(0, f) => f[0].clone(), Val::Undef => Val::Undef, _ => Val::Opaque("other string") });
            m
        }
        _ => Val::Top,
    })
}
fn through(cx: &Cx, st: &State, v: &Val) -> R<Val> {
    let l = cx.deref(st, &cx.simp(st, v.clone()))?;
    Ok(match l { Loc::InSl(s) => Val::Sl(Rc::new(s)), Loc::CStr(s) => Val::Str(s), Loc::Fat(p, n) => Val::Fat(Rc::new(p), n), l => cx.simp(st, cx.read(st, &l)?) })
}
/// Is the input position a character boundary?
fn boundary(cx: &Cx, st: &State, p: &Lin) -> R<Option<bool>> {
    if st.lex.bnd.contains(p) { return Ok(Some(true)); }
    let k = p.sub(&st.lex.frontier.0);
    if k.is_k() {
        if k.c == 0 { return Ok(Some(st.lex.pend == 0)); }
        if k.c > 0 { if st.lex.ended { return Ok(Some(false)); } return Err(Fork::Cell); }
        if k.c >= -(st.lex.cells.len() as i128) {
            if let Val::Pw(v, _) = cx.cell(st, p)? {
                let d = st.vars[v as usize];
                let cont = Bits::range(0x80, 0xBF);
                if d.and(&cont).is_empty() { return Ok(Some(true)); }
                if d.subset(&cont) { return Ok(Some(false)); }
            }
        }
    }
    if p == &Lin::base(0) || (st.lex.open_end && p == &Lin::base(1)) || p == &Lin::k(0) { return Ok(Some(true)); }
    Ok(None)
}
/// Subrange of a string or slice with its bounds check.
fn subrange(cx: &Cx, st: &State, v: &Val, lo: Option<Val>, hi: Option<Val>, is_str: bool) -> R<Result<(Val, bool), String>> {
    let v = cx.definite(st, v.clone())?;
    match &v {
        Val::Sl(s) => {
            let get = |o: Option<Val>, d: &Lin| -> R<Option<Lin>> { match o { None => Ok(Some(d.clone())), Some(x) => { match cx.to_lin(&x) { Some(l) => Ok(Some(s.s.add(&l, 1))), None => Ok(None) } } } };
            let (Some(a), Some(b)) = (get(lo, &s.s)?, get(hi, &s.e)?) else { return Ok(Ok((Val::Top, false))) };
            let mut sure = true;
            match cx.lin_lt(st, &b, &a)? { Some(true) => return Ok(Err("slice range starts after its end".into())), None => sure = false, _ => {} }
            if b != s.e { match cx.lin_lt(st, &s.e, &b)? { Some(true) => return Ok(Err("slice range ends after the end".into())), None => sure = false, _ => {} } }
            if is_str {
                for (p, edge) in [(&a, &s.s), (&b, &s.e)] {
                    if p == edge { continue; }
                    match boundary(cx, st, p)? { Some(true) => {} Some(false) => return Ok(Err("slice is not at a character boundary".into())), None => sure = false }
                }
            }
            Ok(Ok((Val::Sl(Rc::new(Slice { s: a, e: b })), sure)))
        }
        Val::Str(_) | Val::Fat(..) => {
            let n = match &v { Val::Str(s) => s.len() as i128, Val::Fat(_, n) => *n as i128, _ => 0 };
            let num = |o: Option<Val>, d: i128| -> R<i128> { match o { None => Ok(d), Some(x) => match cx.definite(st, x)? { Val::Int(i) => Ok(i), _ => stuck("range of a constant") } } };
            let (a, b) = (num(lo, 0)?, num(hi, n)?);
            if a > b || b > n { return Ok(Err("slice range out of bounds".into())); }
            Ok(Ok(match &v {
                Val::Str(s) => {
                    if is_str && std::str::from_utf8(s).map_or(false, |t| !t.is_char_boundary(a as usize) || !t.is_char_boundary(b as usize)) { return Ok(Err("slice is not at a character boundary".into())); }
                    (Val::Str(Rc::from(&s[a as usize..b as usize])), true)
                }
                Val::Fat(p, _) => (Val::Fat(Rc::new(ptr_add(p, a)), (b - a) as u32), true),
                _ => unreachable!(),
            }))
        }
        _ => Ok(Ok((Val::Top, true))),
    }
}
fn range_of(path: &str, r: &Val) -> Option<(Option<Val>, Option<Val>)> {
    let f = match r { Val::Agg(_, f) => f.clone(), Val::Top => return Some((Some(Val::Top), Some(Val::Top))), v => Rc::new(vec![v.clone()]) };
    let g = |i: usize| f.get(i).cloned();
    Some(if path.contains("RangeFull") { (None, None) }
    else if path.contains("RangeFrom") { (g(0), None) }
    else if path.contains("RangeToInclusive") || path.contains("RangeInclusive") { return None }
    else if path.contains("RangeTo") { (None, g(0)) }
    else if path.contains("Range<") { (g(0), g(1)) }
    else { return None })
}

/// Pointer to the next byte and end pointer held by a slice or character iterator.
fn iter_ptrs(v: &Val) -> Option<(Vec<El>, Vec<El>, Val, Val)> {
    // Iter { ptr: NonNull { pointer }, end_or_len, _marker }; wrappers around it have it as first field
    fn strip(v: &Val, path: &mut Vec<El>) -> Val { match v { Val::Agg(0, f) if f.len() == 1 => { path.push(El::F(0)); strip(&f[0], path) } o => o.clone() } }
    let mut base = vec![];
    let mut cur = v.clone();
    for _ in 0..4 {
        if let Val::Agg(_, f) = &cur {
            if f.len() >= 2 {
                let (mut a, mut b) = (base.clone(), base.clone());
                a.push(El::F(0)); b.push(El::F(1));
                let x = strip(&f[0], &mut a);
                let y = strip(&f[1], &mut b);
                if matches!(x, Val::Cell(_) | Val::Ref(_)) && matches!(y, Val::Cell(_) | Val::Ref(_)) { return Some((a, b, x, y)); }
            }
            if f.is_empty() { return None; }
            base.push(El::F(0));
            let n = f[0].clone();
            cur = n;
        } else { return None; }
    }
    None
}
/// Decode the character at `p` (before `e`): value and the position after it.
fn decode(cx: &Cx, st: &State, p: &Lin, e: &Lin) -> R<Option<(Val, Lin)>> {
    match cx.lin_lt(st, p, e)? {
        Some(false) => return Ok(None),
        Some(true) => {}
        None => return stuck("end of a character iterator is unknown"),
    }
    let v = match cx.cell(st, p)? { Val::Pw(v, t) => (v, t), _ => return Ok(Some((Val::Top, p.addk(1)))) };
    let d = st.vars[v.0 as usize];
    let classes = [(0usize, 0x7f, 1i128), (0xC2, 0xDF, 2), (0xE0, 0xEF, 3), (0xF0, 0xF4, 4)];
    let mut parts = vec![];
    for c in classes { let b = d.and(&Bits::range(c.0, c.1)); if !b.is_empty() { parts.push((b, c.2)); } }
    if parts.len() > 1 { return Err(Fork::Var(v.0, parts.into_iter().map(|x| x.0).collect())); }
    let Some(&(_, n)) = parts.first() else { return stuck("character iterator inside a character") };
    if n == 1 { return Ok(Some((Val::Pw(v.0, v.1), p.addk(1)))); }
    // is it one of the distinguished characters?
    for (enc, c) in [("\u{A0}", 0xA0), ("\u{FEFF}", 0xFEFF), ("\u{2028}", 0x2028), ("\u{2029}", 0x2029)] {
        if enc.len() as i128 != n { continue; }
        if prefix(cx, st, p, enc.as_bytes())? == Some(true) { return Ok(Some((Val::Int(c), p.addk(n)))); }
    }
    // make sure the continuation bytes have been seen
    cx.cell(st, &p.addk(n - 1))?;
    Ok(Some((Val::OtherChar(n as u8), p.addk(n))))
}

fn vec_at(cx: &Cx, st: &State, p: &Val) -> R<(Ptr, bool, Rc<Vec<Val>>)> {
    match cx.deref(st, p)? {
        Loc::Mem(q) => match cx.read_ptr(st, &q)? { Val::Vec(o, v) => Ok((q, o, v)), Val::Top => stuck("unknown vector"), v => stuck(format!("not a vector: {:?}", v)) },
        _ => stuck("vector place"),
    }
}

pub fn call(cx: &Cx, st: &mut State, f: FnId, a: &[Val], _rty: TyId) -> R<Option<CallRes>> {
    let fun = cx.p.f(f);
    let path = &cx.p.info[f].path[..];
    if let FnKind::Intrinsic(n) = &fun.kind { return intrinsic(cx, st, f, n, a); }
    if fun.local { return Ok(None); }
    let last = path.rsplit("::").next().unwrap_or("");
    if path.ends_with("::precondition_check") || path.ends_with("assert_unsafe_precondition") { return val(unit()); }
    // panics
    if path.starts_with("core::panicking::") || path.starts_with("core::rt::begin_panic") || path.starts_with("core::rt::panic") {
        if last == "unreachable_display" || last == "unreachable_default_msg" { return Ok(Some(CallRes::Panic(PanicKind::Internal("internal error: entered unreachable code".into()), String::new()))); }
        if last.contains("assert") || last.starts_with("panic_const") || last.contains("bounds") { return Ok(Some(CallRes::Panic(PanicKind::Internal(last.into()), String::new()))); }
        let (k, m) = panic_kind(cx, st, a);
        return Ok(Some(CallRes::Panic(k, m)));
    }
    if path.starts_with("core::option::unwrap_failed") || path.starts_with("core::option::expect_failed") { return Ok(Some(CallRes::Panic(PanicKind::Internal("unwrap of None".into()), String::new()))); }
    if path.starts_with("core::result::unwrap_failed") { return Ok(Some(CallRes::Panic(if st.par.on { PanicKind::Explicit } else { PanicKind::Internal("unwrap of Err".into()) }, String::new()))); }
    if path.contains("slice_error_fail") || path.contains("slice_index_fail") || path.contains("slice::index::slice_") || path.contains("::copy_from_slice::len_mismatch") { return Ok(Some(CallRes::Panic(PanicKind::Internal(last.into()), String::new()))); }
    if path.starts_with("core::process::exit") || path.starts_with("core::process::abort") { return Ok(Some(CallRes::Panic(PanicKind::Internal("process exit".into()), String::new()))); }
    if path.starts_with("core::fmt::Arguments") {
        return val(match last { "from_str" | "from_str_nonconst" | "new_const" | "new" | "new_v1" => a[0].clone(), _ => Val::Top });
    }
    if path.starts_with("core::fmt::") || path.starts_with("core::io::_") || path.ends_with("::fmt") && path.contains("core::fmt") { return val(if path.contains("_print") || path.contains("_eprint") { unit() } else { Val::Opaque("fmt") }); }
    if path.starts_with("time::") { return val(Val::Top); }
    if path.contains("failure::Error") && last == "from" || path == "failure::err_msg" || path.starts_with("failure::") { return val(Val::Opaque("error")); }
    // owned strings and Cow
    if path.contains("convert::From<&'a str> for core::borrow::Cow") { return val(agg(0, vec![a[0].clone()])); }
    if path.contains("for core::borrow::Cow") && last == "from" { return val(agg(1, vec![a[0].clone()])); }
    if path.contains("for core::borrow::Cow<'_, str>") && (last == "eq" || last == "ne") || path.contains("Cow<") && path.contains("PartialEq") && (last == "eq" || last == "ne") {
        let mut x = through(cx, st, &a[0])?;
        if !matches!(x, Val::Str(_) | Val::Sl(_)) { x = cow_str(cx, st, &x)?; }
        let mut y = match &a[1] { Val::Str(_) | Val::Sl(_) => a[1].clone(), v => through(cx, st, v)? };
        if matches!(y, Val::Agg(..)) { y = cow_str(cx, st, &y)?; }
        if let Val::Ref(_) = y { y = through(cx, st, &y)?; }
        let r = str_eq(cx, st, &x, &y)?;
        return val(if last == "ne" { not(r) } else { r });
    }
    if path.contains("<core::borrow::Cow") && last == "deref" || path.contains("Cow<") && (last == "as_ref" || last == "borrow") {
        let c = through(cx, st, &a[0])?;
        return val(cow_str(cx, st, &c)?);
    }
    if path.contains("Cow<") && last == "clone" { let c = through(cx, st, &a[0])?; return val(c); }
    if path.contains("impl core::cmp::PartialEq for str") || path.contains("<impl core::cmp::PartialEq<[B]> for [A]>") || path.contains("PartialEq<[U]> for [T]") || path.contains("for [T]>") && path.contains("PartialEq") {
        let r = str_eq(cx, st, &a[0], &a[1])?;
        return val(if last == "ne" { not(r) } else { r });
    }
    if path.contains("string::String") || path.starts_with("core::string::") || path.contains("ToString") || path.contains("ToOwned") || path.starts_with("core::str::<impl str>::to_") || path.ends_with("<impl str>::into_string") || path.ends_with("<impl str>::repeat") {
        return val(match last { "len" | "is_empty" | "as_str" | "as_bytes" | "deref" | "borrow" => Val::Top, "push" | "push_str" | "clear" => unit(), _ => Val::Opaque("string") });
    }
    // vectors
    if path.contains("vec::Vec") || path.starts_with("core::vec::") || path.contains("vec::IntoIter") || path.contains("core::slice::hack") || path.starts_with("core::boxed") || path.contains("box_new") {
        match last {
            "new" | "with_capacity" | "default" if path.contains("Vec") && (a.is_empty() || last == "with_capacity") => return val(Val::Vec(false, Rc::new(vec![]))),
            "push" => {
                let (p, o, mut v) = vec_at(cx, st, &a[0])?;
                if st.par.on && a[1] == unit() { cx.write(st, &p, Val::Vec(true, Rc::new(vec![])))?; return val(unit()); }
                if v.len() > 200 { return stuck("growing vector"); }
                Rc::make_mut(&mut v).push(a[1].clone());
                cx.write(st, &p, Val::Vec(o, v))?;
                return val(unit());
            }
            "pop" => {
                let (p, o, mut v) = vec_at(cx, st, &a[0])?;
                let r = Rc::make_mut(&mut v).pop();
                if r.is_none() && o { if st.par.on { return Ok(Some(CallRes::Panic(PanicKind::Internal("a stack is popped more often than pushed".into()), String::new()))); } return stuck("pop of an element pushed by a caller"); }
                cx.write(st, &p, Val::Vec(o, v))?;
                return val(r.map_or(none(), some));
            }
            "len" | "is_empty" => {
                let (_, o, v) = vec_at(cx, st, &a[0])?;
                return val(if o && !(last == "is_empty" && !v.is_empty()) { Val::Top } else if last == "len" { Val::Int(v.len() as i128) } else { Val::B(v.is_empty()) });
            }
            "clear" => { let (p, _, _) = vec_at(cx, st, &a[0])?; cx.write(st, &p, Val::Vec(false, Rc::new(vec![])))?; return val(unit()); }
            "truncate" => {
                let (p, o, mut v) = vec_at(cx, st, &a[0])?;
                if let (false, Val::Int(n)) = (o, &a[1]) { Rc::make_mut(&mut v).truncate(*n as usize); cx.write(st, &p, Val::Vec(o, v))?; return val(unit()); }
                return stuck("truncate");
            }
            "deref" | "deref_mut" | "as_slice" | "as_mut_slice" => {
                let (mut p, o, v) = vec_at(cx, st, &a[0])?;
                if o { return stuck("slice of a vector with unknown elements"); }
                p.path.push(El::I(0));
                return val(Val::Fat(Rc::new(p), v.len() as u32));
            }
            "into_iter" => return val(a[0].clone()),
            "next" => {
                if let Loc::Mem(p) = cx.deref(st, &a[0])? {
                    if let Val::Vec(false, mut v) = cx.read_ptr(st, &p)? {
                        if v.is_empty() { return val(none()); }
                        let x = Rc::make_mut(&mut v).remove(0);
                        cx.write(st, &p, Val::Vec(false, v))?;
                        return val(some(x));
                    }
                }
                return val(Val::Top);
            }
            _ => {}
        }
    }
    // string and slice indexing
    let is_str_idx = path.contains("SliceIndex<str>") || path.contains("for str>::index") || path.contains("for str>::get");
    let is_sl_idx = path.contains("SliceIndex<[T]>") && path.contains("Range");
    if (is_str_idx && path.contains("SliceIndex<str>") || is_sl_idx) && (last == "index" || last == "get" || last == "get_unchecked" || last == "index_mut") {
        if let Some((lo, hi)) = range_of(path, &a[0]) {
            for x in [&lo, &hi] { if let Some(v @ Val::Pw(..)) = x { cx.definite(st, v.clone())?; } }
            let r = subrange(cx, st, &a[1], lo, hi, is_str_idx)?;
            return Ok(Some(match (last, r) {
                ("get", Ok((v, true))) => CallRes::Val(some(v)),
                ("get", Ok((v, false))) => CallRes::Many(vec![(st.clone(), some(v)), (st.clone(), none())]),
                ("get", Err(_)) => CallRes::Val(none()),
                (_, Ok((v, true))) => CallRes::Val(v),
                (_, Ok((_, false))) => CallRes::Panic(PanicKind::Internal("string slice (not excluded)".into()), String::new()),
                (_, Err(e)) => CallRes::Panic(PanicKind::Internal(e), String::new()),
            }));
        }
    }
    if path.ends_with("<impl str>::is_char_boundary") {
        if let Val::Sl(s) = &a[0] {
            if let Some(k) = cx.to_lin(&a[1]) {
                let p = s.s.add(&k, 1);
                if p == s.s || p == s.e { return val(Val::B(true)); }
                if cx.lin_lt(st, &s.e, &p)? == Some(true) { return val(Val::B(false)); }
                return val(boundary(cx, st, &p)?.map_or(UNK, Val::B));
            }
        }
        return Ok(None);
    }
    if path.ends_with("<impl [T]>::starts_with") || path.contains("<&'b str as core::str::pattern::Pattern>::is_prefix_of") {
        let (hay, pat) = if last == "starts_with" { (&a[0], &a[1]) } else { (&a[1], &a[0]) };
        let pat = match pat { Val::Ref(_) => through(cx, st, pat)?, p => p.clone() };
        if let (Val::Sl(s), Val::Str(k)) = (hay, &pat) {
            // byte by byte, so that no more input is needed than the comparison looks at
            for (i, want) in k.iter().enumerate() {
                match cx.lin_lt(st, &s.s.addk(i as i128), &s.e)? { Some(true) => {} Some(false) => return val(Val::B(false)), None => return val(UNK) }
                match prefix(cx, st, &s.s.addk(i as i128), &[*want])? { Some(true) => {} Some(false) => return val(Val::B(false)), None => return val(UNK) }
            }
            return val(Val::B(true));
        }
        if let (Val::Str(h), Val::Str(k)) = (hay, &pat) { return val(Val::B(h.starts_with(k))); }
        return val(Val::Top);
    }
    if path.contains("<char as core::str::pattern::Pattern>::is_prefix_of") {
        if let (Val::Int(c), Val::Sl(s)) = (&a[0], &a[1]) {
            let mut buf = [0; 4];
            if let Some(c) = char::from_u32(*c as u32) {
                let k = c.encode_utf8(&mut buf).as_bytes();
                for (i, want) in k.iter().enumerate() {
                    match cx.lin_lt(st, &s.s.addk(i as i128), &s.e)? { Some(true) => {} Some(false) => return val(Val::B(false)), None => return val(UNK) }
                    match prefix(cx, st, &s.s.addk(i as i128), &[*want])? { Some(true) => {} Some(false) => return val(Val::B(false)), None => return val(UNK) }
                }
                return val(Val::B(true));
            }
        }
        return val(Val::Top);
    }
    if path.contains("<core::str::Chars<'a> as core::iter::Iterator>::next") && last == "next" || last == "next_code_point" && path.contains("core::str") {
        let Loc::Mem(p) = cx.deref(st, &a[0])? else { return stuck("character iterator") };
        let it = cx.read_ptr(st, &p)?;
        let Some((pa, _, Val::Cell(x), Val::Cell(y))) = iter_ptrs(&it) else { return Ok(None) };
        return match decode(cx, st, &x, &y)? {
            None => val(none()),
            Some((v, n)) => {
                let mut q = p.clone();
                q.path.extend(pa);
                cx.write(st, &q, Val::Cell(Rc::new(n)))?;
                val(some(v))
            }
        };
    }
    if path.contains("core::result::Result") && path.contains("Try>::branch") || path.contains("hint::must_use") { return Ok(None); }
    if path.contains("clone::Clone") && last == "clone" && fun.blocks.is_none() { let v = through(cx, st, &a[0])?; return val(v); }
    Ok(None)
}
pub fn not(v: Val) -> Val {
    match v { Val::B(b) => Val::B(!b), Val::Pw(x, t) => map_table(x, t, MemoKey::Named("not"), |l| match l { Val::B(b) => Val::B(!b), _ => Val::Undef }), o => o }
}

fn intrinsic(cx: &Cx, st: &mut State, f: FnId, n: &str, a: &[Val]) -> R<Option<CallRes>> {
    let t0 = cx.p.f(f).targs.get(0).cloned();
    match n {
        "cold_path" | "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => val(unit()),
        "likely" | "unlikely" | "black_box" | "must_use" => val(a[0].clone()),
        "ub_checks" | "contract_checks" | "overflow_checks" => val(Val::B(false)),
        "abort" | "unreachable" => stuck("unreachable code reached"),
        "powif64" | "powi" | "powif32" => match (&a[0], cx.to_lin(&a[1])) {
            (Val::F(x), Some(k)) => {
                if let (FT::C(c), true) = (&**x, k.is_k()) { return val(Val::F(Rc::new(FT::c(f64::from_bits(*c).powi(k.c as i32))))); }
                val(Val::F(Rc::new(FT::Powi(x.clone(), k))))
            }
            _ => val(Val::Top),
        },
        "ptr_offset_from_unsigned" | "ptr_offset_from" => match (&a[0], &a[1]) {
            (Val::Cell(x), Val::Cell(y)) => val(x.sub(y).val()),
            (Val::Ref(p), Val::Ref(q)) => match (p.path.last(), q.path.last()) { (Some(El::I(x)), Some(El::I(y))) => val(Val::Int(*x as i128 - *y as i128)), _ => stuck("pointer difference") },
            _ => stuck("pointer difference"),
        },
        "offset" | "arith_offset" => { let (v, _) = cx.binop(st, "Offset", &a[0], &a[1], t0.unwrap_or(0))?; val(v) }
        "saturating_add" | "saturating_sub" | "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_shl" | "unchecked_shr" | "exact_div" | "unchecked_div" | "unchecked_rem" => {
            let op = if n.ends_with("add") { "Add" } else if n.ends_with("sub") { "Sub" } else if n.ends_with("mul") { "Mul" } else if n.ends_with("shl") { "Shl" } else if n.ends_with("shr") { "Shr" } else if n.ends_with("rem") { "Rem" } else { "Div" };
            let t = t0.unwrap_or(0);
            let (v, o) = cx.binop(st, op, &a[0], &a[1], t)?;
            if n.starts_with("saturating") {
                // taken as exact on numbers without a known bound
                let o = if let Val::Pw(..) = o { cx.definite(st, o)? } else { o };
                if o == Val::B(true) {
                    let (bits, signed) = cx.bits(t);
                    let neg = op == "Sub" || matches!((&a[0], &a[1]), (Val::Int(x), _) if *x < 0);
                    return val(Val::Int(match (signed, neg) { (false, false) => (1i128 << bits) - 1, (false, true) => 0, (true, false) => (1i128 << (bits - 1)) - 1, (true, true) => -(1i128 << (bits - 1)) }));
                }
            }
            val(v)
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let op = if n.starts_with("add") { "Add" } else if n.starts_with("sub") { "Sub" } else { "Mul" };
            let (v, o) = cx.binop(st, op, &a[0], &a[1], t0.unwrap_or(0))?;
            // saturating_mul and friends: taken as exact on unbounded values
            let o = if o == UNK { Val::B(false) } else { o };
            val(agg(0, vec![v, o]))
        }
        "three_way_compare" => { let (v, _) = cx.binop(st, "Cmp", &a[0], &a[1], t0.unwrap_or(0))?; val(v) }
        "discriminant_value" => {
            let v = through(cx, st, &a[0])?;
            let t = t0.unwrap_or(0);
            val(cx.discr(st, &v, t)?)
        }
        "read_via_copy" | "volatile_load" | "typed_read" => { let v = through(cx, st, &a[0])?; val(v) }
        "write_via_move" | "typed_write" => { if let Loc::Mem(p) = cx.deref(st, &a[0])? { cx.write(st, &p, a[1].clone())?; return val(unit()); } stuck("raw write") }
        "typed_swap_nonoverlapping" => {
            if let (Loc::Mem(p), Loc::Mem(q)) = (cx.deref(st, &a[0])?, cx.deref(st, &a[1])?) {
                let (x, y) = (cx.read_ptr(st, &p)?, cx.read_ptr(st, &q)?);
                cx.write(st, &p, y)?; cx.write(st, &q, x)?;
                return val(unit());
            }
            stuck("raw swap")
        }
        "size_of" | "size_of_type" => val(match t0.map(|t| cx.p.ty(t).clone()) {
            Some(TyK::Int { bits, .. }) => Val::Int(bits as i128 / 8), Some(TyK::Bool) => Val::Int(1), Some(TyK::Char) => Val::Int(4), Some(TyK::Ref(..)) => Val::Int(8), Some(TyK::Tuple(v)) if v.is_empty() => Val::Int(0), _ => Val::Int(16),
        }),
        "compare_bytes" => Ok(None),
        "transmute" | "transmute_unchecked" => val(a[0].clone()),
        "const_eval_select" => {
            // runtime choice: the third argument
            if let (Val::Agg(..), Val::Fn(g)) = (&a[0], &a[2]) { let args = if let Val::Agg(_, f) = &a[0] { f.to_vec() } else { vec![] }; return Ok(Some(CallRes::Tail(*g, args))); }
            stuck("const_eval_select")
        }
        "is_val_statically_known" => val(Val::B(false)),
        "slice_get_unchecked" => match (&a[0], cx.to_lin(&a[1])) {
            (Val::Sl(s), Some(k)) => val(Val::Cell(Rc::new(s.s.add(&k, 1)))),
            (Val::Fat(p, _), Some(k)) if k.is_k() => val(Val::Ref(Rc::new(ptr_add(p, k.c)))),
            (Val::Str(s), Some(k)) if k.is_k() => val(Val::Ref(Rc::new(Ptr { root: Root::Const(Rc::new(Val::Str(s.clone()))), path: vec![El::I(k.c as u32)] }))),
            _ => stuck("slice_get_unchecked"),
        },
        "ptr_metadata" => match &a[0] { Val::Sl(s) => val(s.e.sub(&s.s).val()), Val::Str(s) => val(Val::Int(s.len() as i128)), Val::Fat(_, n) => val(Val::Int(*n as i128)), _ => val(Val::Top) },
        "aggregate_raw_ptr" => val(raw_slice(&a[0], &a[1])?),
        _ => Ok(None),
    }
}

//! The lexical specification: a hand-written transducer over bytes, run in lockstep with the code.
use crate::prog::Prog;
use crate::val::*;
use ir::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Q {
    Off,
    // one token
    Start, P(u16), Cr, E2, E280, C2, Ef, Efbb, Ident,
    Zero, Int, Radix(u8, bool), FracDot, Frac, ExpE, ExpSign(bool),
    /// sign, significant digits so far
    Exp(bool, u8),
    Str(u8, S, bool),
    Tmpl(bool, S, bool),
    Line(S), Block(bool),
    Re(bool, S), ReFlags,
    /// outcome known: vals[0] token, vals[1] size
    Done,
    /// no token: must be refused
    Reject,
    /// the input is excluded by assumption
    Void,
    // positions
    W, WC2, WEf, WEfbb, WStop, T, TCr, TE2, TE280, TEnd,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum S { N, Esc, EscCr, Hex(u8), Uni0, Uni(u8), UB(bool), E2, E280, EscE2, EscE280, Dollar }

/// Exponents of fewer digits than this are compared.
pub const EXP: u8 = 5;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct LS { pub q: Q, pub expr: bool, pub tmpl: bool, pub marks: Vec<Lin>, pub vals: Vec<Val>, pub kind: &'static str }
impl Default for LS { fn default() -> Self { LS { q: Q::Off, expr: false, tmpl: false, marks: vec![], vals: vec![], kind: "" } } }
impl LS {
    pub fn each_val(&mut self, f: &mut impl FnMut(&mut Val)) { for v in &mut self.vals { f(v) } }
    pub fn each_val_ref(&self, f: &mut impl FnMut(&Val)) { for v in &self.vals { f(v) } }
    pub fn each_lin(&mut self, f: &mut impl FnMut(&mut Lin)) { for l in &mut self.marks { f(l) } }
    pub fn decided(&self) -> bool { matches!(self.q, Q::Done | Q::Reject) }
}

/// Every punctuator of the module grammar with the variant that reports it.
pub const PUNCT: &[(&str, &str)] = &[
    ("{", "CurlyOpen"), ("}", "CurlyClose"), ("(", "ParenOpen"), (")", "ParenClose"), ("[", "SquareOpen"), ("]", "SquareClose"),
    (";", "Semicolon"), (",", "Comma"), ("~", "Tilde"), ("?", "Question"), (":", "Colon"), (".", "Period"), ("...", "Ellipsis"),
    ("<", "LAngle"), ("<=", "LAngleEq"), ("<<", "LAngleAngle"), ("<<=", "LAngleAngleEq"),
    (">", "RAngle"), (">=", "RAngleEq"), (">>", "RAngleAngle"), (">>=", "RAngleAngleEq"), (">>>", "RAngleAngleAngle"), (">>>=", "RAngleAngleAngleEq"),
    ("!", "Exclam"), ("!=", "ExclamEq"), ("!==", "ExclamEqEq"), ("=", "Eq"), ("=>", "Arrow"), ("==", "EqEq"), ("===", "EqEqEq"),
    ("+", "Plus"), ("+=", "PlusEq"), ("++", "PlusPlus"), ("-", "Minus"), ("-=", "MinusEq"), ("--", "MinusMinus"),
    ("%", "Percent"), ("%=", "PercentEq"), ("*", "Star"), ("*=", "StarEq"), ("**", "StarStar"), ("**=", "StarStarEq"),
    ("/", "Slash"), ("/=", "SlashEq"), ("&", "Amp"), ("&&", "AmpAmp"), ("&=", "AmpEq"), ("|", "Bar"), ("||", "BarBar"), ("|=", "BarEq"),
    ("^", "Caret"), ("^=", "CaretEq"),
];

/// The layout of the token type, by name.
pub struct Lay { pub tok: TyId, pub punct: TyId, pub cfmt: TyId, pub tfmt: TyId }
impl Lay {
    pub fn new(p: &Prog, tok: TyId) -> Result<Lay, String> {
        let sub = |variant: &str| -> Result<TyId, String> { p.variant(tok, variant).and_then(|v| p.field_ty(tok, v, 0)).ok_or(format!("token type has no {} variant", variant)) };
        let fld = |t: TyId, n: &str| -> Result<TyId, String> { p.field(t, 0, n).and_then(|i| p.field_ty(t, 0, i)).ok_or(format!("token payload has no field {}", n)) };
        Ok(Lay { tok, punct: sub("Punctuator")?, cfmt: fld(sub("Comment")?, "format")?, tfmt: fld(sub("Template")?, "format")? })
    }
    /// A token whose payload struct has the given fields.
    pub fn make(&self, p: &Prog, variant: &str, fields: &[(&str, Val)]) -> Val {
        let v = p.variant(self.tok, variant).expect("token variant");
        let t = p.field_ty(self.tok, v, 0).expect("token payload");
        let n = match p.ty(t) { TyK::Adt { variants, .. } => variants[0].fields.len(), _ => 0 };
        let mut fs = vec![Val::Undef; n];
        for (k, x) in fields { if let Some(i) = p.field(t, 0, k) { fs[i] = x.clone(); } }
        agg(v as u32, vec![agg(0, fs)])
    }
    pub fn punct(&self, p: &Prog, name: &str) -> Option<Val> {
        let k = p.variant(self.punct, name)?;
        Some(agg(p.variant(self.tok, "Punctuator")? as u32, vec![agg(k as u32, vec![])]))
    }
    pub fn unit_variant(&self, p: &Prog, ty: TyId, name: &str) -> Val { agg(p.variant(ty, name).unwrap_or(99) as u32, vec![]) }
}
pub fn cow(v: Val) -> Val { agg(0, vec![v]) }
pub fn any() -> Val { Val::Opaque("any") }
pub fn sl(s: Lin, e: Lin) -> Val { Val::Sl(Rc::new(Slice { s, e })) }

fn prefixes() -> &'static Vec<Vec<u8>> {
    use std::sync::OnceLock;
    static P: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v: Vec<Vec<u8>> = vec![];
        for (s, _) in PUNCT { for n in 1..=s.len() { let p = s.as_bytes()[..n].to_vec(); if !v.contains(&p) { v.push(p) } } }
        v
    })
}
fn hexd(b: u8) -> bool { b.is_ascii_hexdigit() }
fn idpart(b: u8) -> bool { b.is_ascii_alphanumeric() || b == b'$' || b == b'_' }

/// What the next byte (None: end of input) does.  Bytes with the same action are kept together.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum A {
    Go(Q),
    /// punctuator of that many bytes
    Punct(&'static str, usize),
    Eof,
    /// line terminator of that many bytes
    Lt(i128),
    /// token ends before this byte
    End,
    /// token ends after this byte
    EndAfter,
    /// line comment that ended two bytes ago
    LineEnd2,
    /// start a number with this digit
    IntDigit(Q), FracDigit(Q), RadDigit(Q), ExpDigit(Q),
    /// remember the position
    Mark(Q),
    /// positions: columns and lines
    Col(Q), Nl(Q),
}

fn longest(p: &[u8]) -> (&'static str, usize) {
    let mut best = ("", 0);
    for (s, n) in PUNCT { if p.starts_with(s.as_bytes()) && s.len() > best.1 { best = (n, s.len()); } }
    best
}

pub fn action(ls: &LS, b: Option<u8>) -> A {
    use A::*;
    let c = b.unwrap_or(0);
    match ls.q {
        Q::Start => match b {
            None => Eof,
            Some(9) | Some(0xB) | Some(0xC) | Some(0x20) => Go(Q::Void),
            Some(b'\n') => Lt(1),
            Some(b'\r') => Go(Q::Cr),
            Some(0xE2) => Go(Q::E2),
            Some(0xC2) => Go(Q::C2),
            Some(0xEF) => Go(Q::Ef),
            Some(b'0') => Go(Q::Zero),
            Some(b'1'..=b'9') => IntDigit(Q::Int),
            Some(b'"') | Some(b'\'') => Go(Q::Str(c, S::N, false)),
            Some(b'`') => Go(Q::Tmpl(true, S::N, false)),
            Some(b'}') if ls.tmpl => Go(Q::Tmpl(false, S::N, false)),
            Some(x) if idpart(x) => Go(Q::Ident),
            Some(x) => match prefixes().iter().position(|p| p == &[x]) {
                Some(i) => {
                    // a punctuator that nothing extends is complete
                    if !prefixes().iter().any(|p| p.len() == 2 && p[0] == x) { let (n, k) = longest(&[x]); Punct(n, k) } else { Go(Q::P(i as u16)) }
                }
                None => Go(Q::Reject),
            },
        },
        Q::P(i) => {
            let p = &prefixes()[i as usize];
            if p == b"." && b.map_or(false, |x| x.is_ascii_digit()) { return FracDigit(Q::Frac); }
            if p == b"/" {
                if b == Some(b'/') { return Go(Q::Line(S::N)); }
                if b == Some(b'*') { return Go(Q::Block(false)); }
                if ls.expr { let mut l = ls.clone(); l.q = Q::Re(false, S::N); return action(&l, b); }
            }
            if let Some(x) = b {
                let mut q = p.clone();
                q.push(x);
                if let Some(j) = prefixes().iter().position(|r| *r == q) {
                    if !prefixes().iter().any(|r| r.len() > q.len() && r.starts_with(&q)) { let (n, k) = longest(&q); return Punct(n, k); }
                    return Go(Q::P(j as u16));
                }
            }
            let (n, k) = longest(p);
            Punct(n, k)
        }
        Q::Cr => if b == Some(b'\n') { Lt(2) } else { Lt(1) },
        Q::E2 => if c == 0x80 { Go(Q::E280) } else { Go(Q::Reject) },
        Q::E280 => if c == 0xA8 || c == 0xA9 { Lt(3) } else { Go(Q::Reject) },
        Q::C2 => if c == 0xA0 { Go(Q::Void) } else { Go(Q::Reject) },
        Q::Ef => if c == 0xBB { Go(Q::Efbb) } else { Go(Q::Reject) },
        Q::Efbb => if c == 0xBF { Go(Q::Void) } else { Go(Q::Reject) },
        Q::Ident => if b.map_or(false, idpart) { Go(Q::Ident) } else { End },
        Q::Zero => match b {
            Some(b'x') | Some(b'X') => Go(Q::Radix(16, false)),
            Some(b'o') | Some(b'O') => Go(Q::Radix(8, false)),
            Some(b'b') | Some(b'B') => Go(Q::Radix(2, false)),
            Some(b'.') => Go(Q::FracDot),
            Some(b'e') | Some(b'E') => Go(Q::ExpE),
            _ => End,
        },
        Q::Radix(r, any) => match b {
            Some(x) if (x as char).to_digit(r as u32).is_some() && x < 128 => RadDigit(Q::Radix(r, true)),
            Some(b'0'..=b'9') => Go(Q::Reject),
            _ => if any { End } else { Go(Q::Reject) },
        },
        Q::Int => match b { Some(b'0'..=b'9') => IntDigit(Q::Int), Some(b'.') => Go(Q::FracDot), Some(b'e') | Some(b'E') => Go(Q::ExpE), _ => End },
        Q::FracDot | Q::Frac => match b { Some(b'0'..=b'9') => FracDigit(Q::Frac), Some(b'e') | Some(b'E') => Go(Q::ExpE), _ => End },
        Q::ExpE => match b { Some(b'+') => Go(Q::ExpSign(false)), Some(b'-') => Go(Q::ExpSign(true)), Some(b'0') => ExpDigit(Q::Exp(false, 0)), Some(b'1'..=b'9') => ExpDigit(Q::Exp(false, 1)), _ => Go(Q::Reject) },
        Q::ExpSign(n) => match b { Some(b'0') => ExpDigit(Q::Exp(n, 0)), Some(b'1'..=b'9') => ExpDigit(Q::Exp(n, 1)), _ => Go(Q::Reject) },
        Q::Exp(n, k) => match b { Some(b'0') if k == 0 => ExpDigit(Q::Exp(n, 0)), Some(b'0'..=b'9') => ExpDigit(Q::Exp(n, (k + 1).min(EXP))), _ => End },
        Q::Str(q, s, e) => {
            let g = |s: S, e: bool| Go(Q::Str(q, s, e));
            if b.is_none() { return Go(Q::Reject); }
            match s {
                S::N | S::EscCr => match c {
                    b'\n' if s == S::EscCr => g(S::N, e),
                    x if x == q => EndAfter,
                    b'\\' => g(S::Esc, true),
                    b'\n' | b'\r' => Go(Q::Reject),
                    0xE2 => g(S::E2, e),
                    _ => g(S::N, e),
                },
                S::E2 => if c == 0x80 { g(S::E280, e) } else { g(S::N, e) },
                S::E280 => if c == 0xA8 || c == 0xA9 { Go(Q::Reject) } else { g(S::N, e) },
                S::Esc => match c { b'\r' => g(S::EscCr, e), b'x' => g(S::Hex(2), e), b'u' => g(S::Uni0, e), b'1'..=b'9' => Go(Q::Reject), 0xE2 => g(S::EscE2, e), _ => g(S::N, e) },
                S::EscE2 => if c == 0x80 { g(S::EscE280, e) } else { g(S::N, e) },
                S::EscE280 => g(S::N, e),
                S::Hex(n) => if hexd(c) { g(if n == 1 { S::N } else { S::Hex(n - 1) }, e) } else { Go(Q::Reject) },
                S::Uni0 => if c == b'{' { g(S::UB(false), e) } else if hexd(c) { g(S::Uni(3), e) } else { Go(Q::Reject) },
                S::Uni(n) => if hexd(c) { g(if n == 1 { S::N } else { S::Uni(n - 1) }, e) } else { Go(Q::Reject) },
                S::UB(any) => if hexd(c) { g(S::UB(true), e) } else if c == b'}' && any { g(S::N, e) } else { Go(Q::Reject) },
                S::Dollar => Go(Q::Reject),
            }
        }
        Q::Tmpl(h, s, e) => {
            let g = |s: S, e: bool| Go(Q::Tmpl(h, s, e));
            if b.is_none() { return Go(Q::Reject); }
            match s {
                S::Esc => g(S::N, e),
                _ => match c { b'`' => EndAfter, b'{' if s == S::Dollar => EndAfter, b'$' => g(S::Dollar, e), b'\\' => g(S::Esc, true), _ => g(S::N, e) },
            }
        }
        Q::Line(s) => match (b, s) {
            (None, _) | (Some(b'\n'), _) | (Some(b'\r'), _) => End,
            (Some(0x80), S::E2) => Go(Q::Line(S::E280)),
            (Some(0xA8), S::E280) | (Some(0xA9), S::E280) => LineEnd2,
            (Some(0xE2), _) => Go(Q::Line(S::E2)),
            _ => Go(Q::Line(S::N)),
        },
        Q::Block(star) => match b { None => Go(Q::Reject), Some(b'/') if star => EndAfter, Some(b'*') => Go(Q::Block(true)), _ => Go(Q::Block(false)) },
        Q::Re(cl, s) => match (b, s) {
            (None, _) | (Some(b'\n'), _) | (Some(b'\r'), _) => Go(Q::Reject),
            (Some(0xE2), _) => Go(Q::Re(cl, S::E2)),
            (Some(0x80), S::E2) => Go(Q::Re(cl, S::E280)),
            (Some(0xA8), S::E280) | (Some(0xA9), S::E280) => Go(Q::Reject),
            (_, S::Esc) => Go(Q::Re(cl, S::N)),
            (Some(b'\\'), _) => Go(Q::Re(cl, S::Esc)),
            (Some(b'/'), _) if !cl => Mark(Q::ReFlags),
            (Some(b'['), _) => Go(Q::Re(true, S::N)),
            (Some(b']'), _) => Go(Q::Re(false, S::N)),
            _ => Go(Q::Re(cl, S::N)),
        },
        Q::ReFlags => match b { Some(b'a'..=b'z') => Go(Q::ReFlags), _ => End },
        // whitespace and positions
        Q::W => match b { Some(9) | Some(0xB) | Some(0xC) | Some(0x20) => Col(Q::W), Some(0xC2) => Go(Q::WC2), Some(0xEF) => Go(Q::WEf), _ => Go(Q::WStop) },
        Q::WC2 => if c == 0xA0 { Col(Q::W) } else { Go(Q::WStop) },
        Q::WEf => if c == 0xBB { Go(Q::WEfbb) } else { Go(Q::WStop) },
        Q::WEfbb => if c == 0xBF { Col(Q::W) } else { Go(Q::WStop) },
        Q::T | Q::TCr => match b {
            None => Go(Q::T),
            Some(b'\r') => Nl(Q::TCr),
            Some(b'\n') => if ls.q == Q::TCr { Go(Q::T) } else { Nl(Q::T) },
            Some(0xE2) => Go(Q::TE2),
            Some(0x80..=0xBF) => Go(Q::T),
            _ => Col(Q::T),
        },
        Q::TE2 => if c == 0x80 { Go(Q::TE280) } else { Col(Q::T) },
        Q::TE280 => if c == 0xA8 || c == 0xA9 { Nl(Q::T) } else { Col(Q::T) },
        q @ (Q::WStop | Q::TEnd | Q::Done | Q::Reject | Q::Void | Q::Off) => Go(q),
    }
}

/// Digit value of a byte as a piecewise integer.
fn digit(v: VarId) -> Lin {
    thread_local! { static T: TableId = match mk_pw(0, (0..256u32).map(|i| char::from_u32(i).filter(|c| (*c as u32) < 128).and_then(|c| c.to_digit(16)).map_or(Val::Int(0), |d| Val::Int(d as i128))).collect()) { Val::Pw(_, t) => t, _ => unreachable!() }; }
    T.with(|t| Lin::atom(Atom::P(v, *t)))
}
fn ft(v: &Val) -> FT { match v { Val::F(t) => (**t).clone(), _ => FT::c(0.0) } }
fn f(t: FT) -> Val { Val::F(Rc::new(t)) }
fn of_int(l: Lin) -> FT { if l.is_k() { FT::c(l.c as f64) } else { FT::OfInt(l) } }
fn lin(v: &Val) -> Lin { match v { Val::Lin(l) => (**l).clone(), Val::Int(i) => Lin::k(*i), Val::Pw(v, t) => Lin::atom(Atom::P(*v, *t)), _ => Lin::k(0) } }

/// Advance over the byte at `pos` (variable `v`, all of whose values have action `a`).
pub fn apply(p: &Prog, lay: &Lay, ls: &LS, a: &A, v: Option<VarId>, pos: &Lin) -> LS {
    let mut n = ls.clone();
    let zero = Lin::k(0);
    let start_num = |n: &mut LS| if n.vals.is_empty() { n.vals = vec![f(FT::c(0.0)), f(FT::c(0.0)), f(FT::c(0.1)), Val::Int(0)]; };
    let done = |n: &mut LS, tok: Val, size: Lin, kind: &'static str| { n.q = Q::Done; n.vals = vec![tok, size.val()]; n.marks.clear(); n.kind = kind; };
    match a {
        A::Go(q) => {
            match q {
                Q::Zero => start_num(&mut n),
                Q::Reject => { n.kind = kind_of(&ls.q); n.vals.clear(); n.marks.clear(); }
                Q::WStop => n.marks = vec![pos.addk(match ls.q { Q::WC2 | Q::WEf => -1, Q::WEfbb => -2, _ => 0 })],
                _ => {}
            }
            if *q == Q::WStop && ls.q == Q::WStop { n.marks = ls.marks.clone(); }
            n.q = *q;
        }
        A::Punct(name, k) => match lay.punct(p, name) { Some(t) => done(&mut n, t, Lin::k(*k as i128), "punctuator"), None => { n.q = Q::Reject; n.kind = "punctuator"; } },
        A::Eof => { let t = lay.make(p, "EOF", &[]); done(&mut n, t, zero, "eof") }
        A::Lt(k) => { let t = lay.make(p, "LineTerminator", &[]); done(&mut n, t, Lin::k(*k), "line terminator") }
        A::Mark(q) => { n.marks = vec![pos.clone()]; n.q = *q; }
        A::IntDigit(q) => {
            start_num(&mut n);
            n.vals[0] = f(FT::mk("+", FT::mk("*", ft(&n.vals[0]), FT::c(10.0)), of_int(digit(v.unwrap()))));
            n.q = *q;
        }
        A::RadDigit(q) => {
            let r = match q { Q::Radix(r, _) => *r as f64, _ => 10.0 };
            n.vals[0] = f(FT::mk("+", FT::mk("*", ft(&n.vals[0]), FT::c(r)), of_int(digit(v.unwrap()))));
            n.q = *q;
        }
        A::FracDigit(q) => {
            start_num(&mut n);
            n.vals[1] = f(FT::mk("+", ft(&n.vals[1]), FT::mk("*", ft(&n.vals[2]), of_int(digit(v.unwrap())))));
            n.vals[2] = f(FT::mk("/", ft(&n.vals[2]), FT::c(10.0)));
            n.q = *q;
        }
        A::ExpDigit(q) => {
            // longer exponents: the value is not compared
            n.vals[3] = if let Q::Exp(_, EXP) = q { any() } else { lin(&n.vals[3]).scale(10).add(&digit(v.unwrap()), 1).val() };
            if n.vals[3] == any() { n.vals[..3].clone_from_slice(&[any(), any(), any()]); }
            n.q = *q;
        }
        A::Col(q) => { n.vals[1] = lin(&n.vals[1]).addk(1).val(); n.q = *q; }
        A::Nl(q) => { n.vals[0] = lin(&n.vals[0]).addk(1).val(); n.vals[1] = Val::Int(0); n.q = *q; }
        A::LineEnd2 => {
            let e = pos.addk(-2);
            let t = lay.make(p, "Comment", &[("format", lay.unit_variant(p, lay.cfmt, "Line")), ("value", cow(sl(Lin::k(2), e.clone())))]);
            done(&mut n, t, e, "comment");
        }
        A::End => match ls.q {
            Q::Ident => { let t = lay.make(p, "IdentifierName", &[("name", cow(sl(zero, pos.clone())))]); done(&mut n, t, pos.clone(), "identifier") }
            Q::Line(_) => {
                let t = lay.make(p, "Comment", &[("format", lay.unit_variant(p, lay.cfmt, "Line")), ("value", cow(sl(Lin::k(2), pos.clone())))]);
                done(&mut n, t, pos.clone(), "comment")
            }
            Q::ReFlags => {
                let m = ls.marks[0].clone();
                let t = lay.make(p, "RegularExpressionLiteral", &[("pattern", cow(sl(Lin::k(1), m.clone()))), ("flags", cow(sl(m.addk(1), pos.clone())))]);
                done(&mut n, t, pos.clone(), "regular expression")
            }
            _ => {
                let mut x = FT::mk("+", ft(&ls.vals[0]), ft(&ls.vals[1]));
                if let Q::Exp(neg, _) = ls.q {
                    let e = lin(&ls.vals[3]).scale(if neg { -1 } else { 1 });
                    let pw = if e.is_k() { FT::c(10f64.powi(e.c as i32)) } else { FT::Powi(Rc::new(FT::c(10.0)), e) };
                    x = FT::mk("*", x, pw);
                }
                let t = lay.make(p, "NumericLiteral", &[("value", if let Q::Exp(_, EXP) = ls.q { any() } else { f(x) })]);
                done(&mut n, t, pos.clone(), "number")
            }
        },
        A::EndAfter => {
            let size = pos.addk(1);
            match ls.q {
                Q::Str(_, _, esc) => {
                    let x = if esc { any() } else { sl(Lin::k(1), pos.clone()) };
                    let t = lay.make(p, "StringLiteral", &[("value", cow(x))]);
                    done(&mut n, t, size, "string")
                }
                Q::Tmpl(head, s, esc) => {
                    // `c` decides between the end of the template and a substitution; the caller split on it
                    let _ = (head, s, esc);
                    unreachable!()
                }
                _ => {
                    let t = lay.make(p, "Comment", &[("format", lay.unit_variant(p, lay.cfmt, "Block")), ("value", cow(sl(Lin::k(2), pos.addk(-1))))]);
                    done(&mut n, t, size, "comment")
                }
            }
        }
    }
    n
}
/// End of a template piece at byte `c`.
pub fn end_template(p: &Prog, lay: &Lay, ls: &LS, c: u8, pos: &Lin) -> LS {
    let Q::Tmpl(head, _, esc) = ls.q else { unreachable!() };
    let mut n = ls.clone();
    let (fmt, end) = match (head, c) { (true, b'`') => ("NoSubstitution", pos.clone()), (true, _) => ("Head", pos.addk(-1)), (false, b'`') => ("Tail", pos.clone()), (false, _) => ("Middle", pos.addk(-1)) };
    let raw = sl(Lin::k(1), end);
    let cooked = if esc { any() } else { raw.clone() };
    let t = lay.make(p, "Template", &[("format", lay.unit_variant(p, lay.tfmt, fmt)), ("raw", cow(raw)), ("cooked", cow(cooked))]);
    n.q = Q::Done;
    n.vals = vec![t, pos.addk(1).val()];
    n.kind = "template";
    n
}
pub fn kind_of(q: &Q) -> &'static str {
    match q {
        Q::P(_) => "punctuator", Q::Ident => "identifier", Q::Cr => "line terminator",
        Q::Zero | Q::Int | Q::Radix(..) | Q::FracDot | Q::Frac | Q::ExpE | Q::ExpSign(_) | Q::Exp(..) => "number",
        Q::Str(..) => "string", Q::Tmpl(..) => "template", Q::Line(_) | Q::Block(_) => "comment", Q::Re(..) | Q::ReFlags => "regular expression",
        Q::W | Q::WC2 | Q::WEf | Q::WEfbb | Q::WStop => "whitespace", Q::T | Q::TCr | Q::TE2 | Q::TE280 | Q::TEnd => "position",
        _ => "unknown character",
    }
}

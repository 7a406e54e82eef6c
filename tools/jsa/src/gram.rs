//! The syntactic grammar: an EBNF text compiled to nodes, and the step function over sets of stacks.
//!
//! A stack holds what is still expected, innermost last.  A token is matched by the innermost element that
//! can begin with it; an element that cannot and may be empty is skipped.  This is the usual reading of the
//! ECMAScript grammar: operators, arguments and `else` belong to the innermost construct, and a semicolon
//! is only inserted before a token that does not continue the statement.
use crate::val::Bits;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type GId = u32;
pub const P_IN: u32 = 1;
pub const P_YIELD: u32 = 2;
pub const P_AWAIT: u32 = 4;
/// within the parameters of a function
pub const P_PARAM: u32 = 8;
const BOT: u32 = 0x8000_0000;

/// Token classes.
pub const KEYWORDS: &[&str] = &["break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "export", "extends", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch", "this", "throw", "try", "typeof", "var", "void", "while", "with", "yield", "enum", "null", "true", "false", "await"];
pub const WORDS: &[&str] = &["let", "static", "get", "set", "async", "of", "as", "from", "target"];
pub const SPECIAL: &[&str] = &["NUM", "STR", "REGEX", "TNO", "THEAD", "TMID", "TTAIL", "EOF"];

/// `Rule area = body`; see `Compiler` for the notation.
const GRAMMAR: &str = r#"
Root module = ModuleItem* EOF
ModuleItem module = Import | Export | Item
Import module = 'import' ( STR | %( '(' '.' ) | ImportNames 'from' STR ) SEMI
ImportNames module = BindId ( ',' ( ImportAll | '{' ImportList ) )? | ImportAll | '{' ImportList
ImportAll module = '*' 'as' BindId
ImportList module = '}' | ( IDENT ( 'as' BindId )? | 'let' ( 'as' BindId )? | RESERVED 'as' BindId ) ( '}' | ',' ImportList )
Export module = 'export' ( 'default' ExportDefault | VarStmt | LetDecl | ConstDecl | Function | ClassDecl | '*' ( %( 'as' ) | 'from' STR SEMI ) | %( 'async' ) | '{' ExportList ( 'from' STR )? SEMI )
ExportList module = '}' | NAME ( 'as' NAME )? ( '}' | ',' ExportList )
ExportDefault module = 'function' ( '*' BindId? FnRest-i+y-a | BindId? FnRest-i-y-a ) | 'class' BindId? ClassTail | !( 'function' 'class' ) Assign+i SEMI

Item statement = LetDecl-i | ConstDecl-i | Function-i | ClassDecl-i | !( 'let' 'const' 'function' 'class' ) Stmt-i
LetDecl declaration = 'let' LetBinding+i ( ',' LetBinding+i )* SEMI
ConstDecl declaration = 'const' ConstBinding+i ( ',' ConstBinding+i )* SEMI
LetBinding declaration = Pattern Init | BindId Init?
ConstBinding declaration = Pattern Init | BindId Init
Init declaration = [+p] %( '=' ) | '=' Assign
BindId identifier = IDENT | %( 'let' )

Pattern pattern = '{' PatProps | '[' PatElems
PatProps pattern = '}' | PatProp ( '}' | ',' PatProps )
PatProp pattern = %( '...' 'let' ) | ( STR | NUM | RESERVED | Computed ) ':' PatElem | IDENT ( ':' PatElem | Init+i )?
PatElems pattern = ']' | ',' PatElems | PatRest ']' | PatElem ( ']' | ',' PatElems )
PatRest pattern = '...' Target
PatElem pattern = Target Init+i?
Target pattern = BindId | Pattern
Computed object = [+p] %( '[' ) | '[' Assign+i ']'

Stmt statement = Block | ';' | VarStmt | If | Do | While | For | Switch | Jump | Return | With | Throw | Try | Debugger | Label | %( 'function' 'class' 'let' ) | !( '{' 'function' 'class' 'let' ) ExprStmt
Block statement = '{' Item* '}'
VarStmt declaration = 'var' LetBinding+i ( ',' LetBinding+i )* SEMI
If statement = 'if' '(' Expr+i ')' Stmt ( 'else' Stmt )?
Do statement = 'do' Stmt 'while' '(' Expr+i ')' SEMIDW
While statement = 'while' '(' Expr+i ')' Stmt
For statement = 'for' ( '(' ForHead ')' Stmt | %( 'await' ) )
ForHead statement = 'var' ForVar | 'const' ForConst | 'let' ( %~( IDENT '[' '{' ) | %( 'of' ) | !( 'of' ) ForVar ) | ForTail | !( 'let' ) Expr-i ( ForTail | ForOver )
ForVar statement = Pattern ( ForOver | Init-i ( ',' LetBinding-i )* ForTail ) | BindId ( ForOver | Init-i? ( ',' LetBinding-i )* ForTail )
ForConst statement = ( Pattern | BindId ) ( ForOver | Init-i ( ',' ConstBinding-i )* ForTail )
ForTail statement = ';' Expr+i? ';' Expr+i?
ForOver statement = 'in' Expr+i | 'of' Assign+i
Switch statement = 'switch' '(' Expr+i ')' '{' Case* ( 'default' ':' Item* Case* )? '}'
Case statement = 'case' Expr+i ':' Item*
Jump asi = ( 'continue' | 'break' ) ( ^BindId )? SEMI
Return asi = 'return' ( ^Expr+i )? SEMI
Throw asi = 'throw' ^Expr+i SEMI
With statement = 'with' '(' Expr+i ')' Stmt
Try statement = 'try' Block ( Catch Finally? | Finally )
Catch statement = 'catch' ( %( '{' ) | '(' Target ')' Block )
Finally statement = 'finally' Block
Debugger asi = 'debugger' SEMI
Label statement = BindId ':' Stmt
ExprStmt statement = Expr+i SEMI

Function function = 'function' ( '*' BindId FnRest-i+y-a | BindId FnRest-i-y-a )
FnRest function = '(' Params+p Block-p
Params function = ')' | PatRest ')' | PatElem ( ')' | ',' Params )
FunctionExpr function = 'function' ( '*' BindId? FnRest-i+y-a | BindId? FnRest-i-y-a )
ClassDecl class = 'class' BindId ClassTail
ClassExpr class = 'class' BindId? ClassTail-i
ClassTail class = ( 'extends' Lhs )? '{' ClassItem-i* '}'
ClassItem class = ';' | 'static' ( FnRest-i-y-a | Method ) | !( 'static' ) Method
Method class = !( 'get' 'set' 'async' ) PropName FnRest-i-y-a | '*' PropName FnRest-i+y-a | 'get' ( FnRest-i-y-a | Getter ) | 'set' ( FnRest-i-y-a | Setter ) | 'async' ( FnRest-i-y-a | AsyncMethod )
Getter class = PropName '(' ')' Block-i-y-a
Setter class = PropName '(' PatElem-i-y-a ')' Block-i-y-a
AsyncMethod class = ^PropName FnRest-i-y+a | ^%( '*' )
PropName object = NAME | STR | NUM | Computed

Expr expression = Assign ( ',' Assign )*
Assign expression = [+y] Yield | 'async' ( ^IDENT ^'=>' ArrowBody-y+a | ^%( 'function' '(' 'let' ) ) | Binary ( '?' Assign+i ':' Assign ( %( '=' '*=' '/=' '%=' '+=' '-=' '<<=' '>>=' '>>>=' '&=' '^=' '|=' '**=' ) | ^%( '=>' ) )? | ^'=>' ArrowBody-y-a-p | ( '=' | '*=' | '/=' | '%=' | '+=' | '-=' | '<<=' | '>>=' | '>>>=' | '&=' | '^=' | '|=' | '**=' ) Assign )?
ArrowBody function = Block-i | !( '{' ) Assign
Yield context = 'yield' ( ^'*' Assign | ^Assign )?
Binary expression = Unary-i ( ( '||' | '&&' | '|' | '^' | '&' | '==' | '===' | '!=' | '!==' | '<' | '>' | '<=' | '>=' | '<<' | '>>' | '>>>' | '+' | '-' | '*' | '%' | '/' | '**' | 'instanceof' ) Unary-i | [+i] 'in' Unary-i )*
Unary expression = ( '+' | '-' | '~' | '!' | 'delete' | 'void' | 'typeof' ) Unary | [+a] Await | Update
Await context = 'await' Unary
Update expression = ( '++' | '--' ) Update | Lhs ( ^( '++' | '--' ) )?
Lhs expression = 'new' ( '.' 'target' Suffix* | Lhs ) | Atom Suffix*
Suffix expression = '.' NAME | '[' Expr+i ']' | '(' Args | Template
Args expression = ')' | ( '...' Assign+i | Assign+i ) ( ')' | ',' Args )
Atom expression = 'this' | 'null' | 'true' | 'false' | 'super' | !( 'async' ) BindId | 'async' ( %( 'of' ) | @( IDENT ) ) | NUM | STR | REGEX | Template | '[' Elems | '{' Props | Paren | FunctionExpr | ClassExpr
Template template = TNO | THEAD Expr+i ( TMID Expr+i )* TTAIL
Elems expression = ']' | ',' Elems | ( '...' Assign+i | Assign+i ) ( ']' | ',' Elems )
Paren expression = '(' ( '...' Target ')' | ')' | Assign+i ParenRest )
ParenRest expression = ')' | ',' ( %( ')' ) | '...' Target ')' | Assign+i ParenRest )
Props object = '}' | Prop ( '}' | ',' Props )
Prop object = '...' Assign+i | ( STR | NUM | RESERVED | Computed ) PropTail | '*' PropName FnRest-i+y-a | !( 'get' 'set' 'async' ) ( IDENT | 'let' ) Shorthand | 'get' ( Getter | Shorthand ) | 'set' ( Setter | Shorthand ) | 'async' ( AsyncMethod | Shorthand )
PropTail object = ':' Assign+i | FnRest-i-y-a
Shorthand object = PropTail | ( %( '=' ) )?
"#;

#[derive(Debug, Clone, PartialEq)]
enum N {
    Tok(Bits),
    Seq(Vec<usize>),
    Alt(Vec<usize>),
    Opt(usize),
    Star(usize),
    /// rule, parameters cleared, parameters set
    Nt(usize, u32, u32),
    NoLt(usize),
    If(u32, usize),
    Not(Bits, usize),
    /// nothing, if none of these follows on the same line
    Stop(Bits),
    /// the grammar does not say what happens on these tokens
    Any(Bits),
    Semi,
    SemiDw,
}
struct Node { n: N, rule: usize }
pub struct Gram {
    nodes: Vec<Node>,
    rules: Vec<(String, usize, u32)>,
    pub areas: Vec<String>,
    /// for each area, something that no token matches
    never: Vec<usize>,
    pub classes: Vec<String>,
    idx: HashMap<String, usize>,
    root: usize,
    slashes: Bits,
    uses: Vec<u32>,
    /// the node of a rule as such
    plain: Vec<usize>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum G { Dead(u32), Live(Vec<Vec<u32>>) }

#[derive(Clone, Debug)]
pub enum Step {
    To(GId, u32),
    /// the grammar leaves this open
    Any,
    /// more of the stack is needed
    Under,
}

struct Compiler<'a> { toks: Vec<&'a str>, i: usize, g: &'a mut Gram, rules: &'a HashMap<String, usize>, rule: usize, names: Bits, reserved: Bits }
impl<'a> Compiler<'a> {
    fn mk(&mut self, n: N) -> usize { let rule = self.rule; if let Some(i) = self.g.nodes.iter().position(|x| x.n == n && (x.rule == rule || matches!(n, N::Tok(_)))) { return i; } self.g.nodes.push(Node { n, rule }); self.g.nodes.len() - 1 }
    fn peek(&self) -> &'a str { self.toks.get(self.i).copied().unwrap_or("") }
    fn next(&mut self) -> &'a str { self.i += 1; self.toks[self.i - 1] }
    fn alt(&mut self) -> usize {
        let mut v = vec![self.seq()];
        while self.peek() == "|" { self.next(); v.push(self.seq()); }
        if v.len() == 1 { v[0] } else { self.mk(N::Alt(v)) }
    }
    fn seq(&mut self) -> usize {
        let mut v = vec![];
        while !matches!(self.peek(), "" | "|" | ")") { v.push(self.post()); }
        if v.len() == 1 { v[0] } else { self.mk(N::Seq(v)) }
    }
    fn post(&mut self) -> usize {
        let mut x = self.prim();
        loop {
            match self.peek() {
                "?" => { self.next(); x = self.mk(N::Opt(x)); }
                "*" => { self.next(); x = self.mk(N::Star(x)); }
                _ => return x,
            }
        }
    }
    fn class(&self, t: &str) -> Bits {
        match t {
            "NAME" => self.names,
            "RESERVED" => self.reserved,
            "IDENT" => { let mut b = self.names.minus(&self.reserved); if let Some(i) = self.g.idx.get("let") { b = b.minus(&Bits::one(*i)); } b }
            _ => { let k = t.trim_matches('\''); Bits::one(*self.g.idx.get(k).unwrap_or_else(|| panic!("grammar token {}", t))) }
        }
    }
    fn set(&mut self) -> Bits {
        assert_eq!(self.next(), "(");
        let mut b = Bits::EMPTY;
        while self.peek() != ")" { let t = self.next(); b = b.or(&self.class(t)); }
        self.next();
        b
    }
    fn par(c: u8) -> u32 { match c { b'i' => P_IN, b'y' => P_YIELD, b'a' => P_AWAIT, b'p' => P_PARAM, _ => panic!() } }
    fn prim(&mut self) -> usize {
        let t = self.next();
        match t {
            "(" => { let x = self.alt(); assert_eq!(self.next(), ")"); x }
            "^" => { let x = self.prim(); self.mk(N::NoLt(x)) }
            "%" => { let b = self.set(); self.mk(N::Any(b)) }
            "%~" => { let b = Bits::full(self.g.classes.len()).minus(&self.set()); self.mk(N::Any(b)) }
            "!" => { let b = self.set(); let x = self.post(); self.mk(N::Not(b, x)) }
            "@" => { let b = self.set(); self.mk(N::Stop(b)) }
            "SEMI" => self.mk(N::Semi),
            "SEMIDW" => self.mk(N::SemiDw),
            _ if t.starts_with('[') => { let p = Self::par(t.as_bytes()[2]); let x = self.prim(); self.mk(N::If(p, x)) }
            _ if t.starts_with('\'') || SPECIAL.contains(&t) || matches!(t, "NAME" | "RESERVED" | "IDENT") => { let b = self.class(t); self.mk(N::Tok(b)) }
            _ => {
                let n = t.find(['+', '-']).unwrap_or(t.len());
                let (mut clear, mut set) = (0, 0);
                for c in t.as_bytes()[n..].chunks(2) { if c[0] == b'+' { set |= Self::par(c[1]) } else { clear |= Self::par(c[1]) } }
                let r = *self.rules.get(&t[..n]).unwrap_or_else(|| panic!("grammar rule {}", t));
                self.mk(N::Nt(r, clear, set))
            }
        }
    }
}
fn lex(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let st = i;
        match b[i] {
            b' ' => { i += 1; continue; }
            b'\'' => { i += 1; while b[i] != b'\'' { i += 1; } i += 1; }
            b'[' => i += 4,
            b'%' if b[i + 1] == b'~' => i += 2,
            c if c.is_ascii_alphabetic() => {
                while i < b.len() && b[i].is_ascii_alphanumeric() { i += 1; }
                while i + 1 < b.len() && matches!(b[i], b'+' | b'-') && matches!(b[i + 1], b'i' | b'y' | b'a' | b'p') { i += 2; }
            }
            _ => i += 1,
        }
        v.push(&s[st..i]);
    }
    v
}

impl Gram {
    /// `names`: further identifier names the code knows about.
    pub fn new(puncts: &[&str], names: &[String]) -> Gram {
        let mut classes: Vec<String> = puncts.iter().map(|s| s.to_string()).collect();
        let n0 = classes.len();
        classes.extend(KEYWORDS.iter().chain(WORDS).map(|s| s.to_string()));
        for n in names { if !classes.contains(n) { classes.push(n.clone()); } }
        classes.push("other name".into());
        let n1 = classes.len();
        classes.extend(SPECIAL.iter().map(|s| s.to_string()));
        let idx: HashMap<String, usize> = classes.iter().enumerate().map(|(i, s)| (s.clone(), i)).collect();
        let slashes = ["/", "/=", "REGEX"].iter().fold(Bits::EMPTY, |b, s| b.or(&Bits::one(idx[*s])));
        let mut reserved = Bits::EMPTY;
        for k in KEYWORDS { reserved.set(idx[*k]); }
        let mut g = Gram { nodes: vec![], rules: vec![], areas: vec![], classes, idx, root: 0, slashes, uses: vec![], plain: vec![], never: vec![] };
        let lines: Vec<(&str, &str, &str)> = GRAMMAR.lines().filter(|l| !l.trim().is_empty()).map(|l| { let (h, b) = l.split_once(" = ").unwrap(); let (n, a) = h.split_once(' ').unwrap(); (n, a, b) }).collect();
        let rules: HashMap<String, usize> = lines.iter().enumerate().map(|(i, l)| (l.0.to_string(), i)).collect();
        for (i, (n, a, b)) in lines.iter().enumerate() {
            let area = match g.areas.iter().position(|x| x == a) { Some(k) => k, None => { g.areas.push(a.to_string()); g.areas.len() - 1 } };
            let mut c = Compiler { toks: lex(b), i: 0, g: &mut g, rules: &rules, rule: i, names: Bits::range(n0, n1 - 1), reserved };
            let body = c.alt();
            assert!(c.peek().is_empty(), "grammar: {} at {}", n, c.peek());
            g.rules.push((n.to_string(), body, area as u32));
        }
        g.root = g.nodes.len();
        g.nodes.push(Node { n: N::Nt(0, 0, 0), rule: 0 });
        for r in 0..g.rules.len() { g.plain.push(g.nodes.len()); g.nodes.push(Node { n: N::Nt(r, 0, 0), rule: r }); }
        for a in 0..g.areas.len() { let r = g.rules.iter().position(|r| r.2 == a as u32).unwrap(); g.never.push(g.nodes.len()); g.nodes.push(Node { n: N::Tok(Bits::EMPTY), rule: r }); }
        // which parameters matter below a node
        let mut uses = vec![0u32; g.nodes.len()];
        loop {
            let mut ch = false;
            for i in 0..g.nodes.len() {
                let u = match &g.nodes[i].n {
                    N::Seq(v) | N::Alt(v) => v.iter().fold(0, |a, x| a | uses[*x]),
                    N::Opt(x) | N::Star(x) | N::NoLt(x) | N::Not(_, x) => uses[*x],
                    N::If(p, x) => uses[*x] | p,
                    N::Nt(r, c, s) => uses[g.rules[*r].1] & !c & !s,
                    _ => 0,
                };
                if u != uses[i] { uses[i] = u; ch = true; }
            }
            if !ch { break; }
        }
        g.uses = uses;
        g
    }
    pub fn class(&self, s: &str) -> usize { self.idx[s] }
    pub fn start(&self) -> GId { intern(G::Live(vec![vec![self.sym(self.root, 0)]])) }
    /// Tokens that do not begin an expression.
    pub fn idle(&self) -> Bits {
        let r = self.rules.iter().position(|r| r.0 == "Assign").unwrap();
        let mut b = Bits::EMPTY;
        for i in 0..self.classes.len() * 2 {
            let go = |p: u32| match self.succ(self.plain[r], p, i / 2, i & 1 == 1) { Ok(v) => v.is_empty(), Err(_) => false };
            if go(P_IN) && go(P_IN | P_YIELD) && go(P_IN | P_AWAIT) && go(P_IN | P_YIELD | P_PARAM) && go(P_IN | P_AWAIT | P_PARAM) { b.set(i); }
        }
        b
    }
    pub fn unknown(&self) -> GId { intern(G::Live(vec![vec![BOT]])) }
    /// Nothing that can come next is allowed.
    pub fn never(&self, areas: u32) -> GId { intern(G::Live((0..self.areas.len()).filter(|a| areas >> a & 1 == 1).map(|a| vec![self.sym(self.never[a], 0)]).collect())) }
    pub fn refused(&self) -> GId { intern(G::Dead(0)) }
    fn sym(&self, mut node: usize, mut par: u32) -> u32 {
        if let N::Nt(r, c, s) = self.nodes[node].n { node = self.plain[r]; par = par & !c | s; }
        let mut p = par & self.uses[node];
        if p & (P_YIELD | P_AWAIT) == 0 { p &= !P_PARAM; }
        (node as u32) << 4 | p
    }
    fn rule_par(&self, r: usize, par: u32) -> u32 { let _ = r; par }
    /// All ways to consume the token: what is expected next (next first), and the node that took it.
    fn succ(&self, node: usize, par: u32, tok: usize, lt: bool) -> Result<Vec<(Vec<u32>, usize)>, ()> {
        Ok(match &self.nodes[node].n {
            N::Tok(s) => if s.get(tok) { vec![(vec![], node)] } else { vec![] },
            N::Any(s) => if s.get(tok) { return Err(()) } else { vec![] },
            N::Seq(v) => {
                for (i, x) in v.iter().enumerate() {
                    let mut s = self.succ(*x, par, tok, lt)?;
                    if !s.is_empty() { for y in &mut s { y.0.extend(v[i + 1..].iter().map(|z| self.sym(*z, par))); } return Ok(s); }
                    if !self.nullable(*x, par, tok, lt)? { break; }
                }
                vec![]
            }
            N::Alt(v) => { let mut o = vec![]; for x in v { o.extend(self.succ(*x, par, tok, lt)?); } o }
            N::Opt(x) => self.succ(*x, par, tok, lt)?,
            N::Star(x) => { let mut s = self.succ(*x, par, tok, lt)?; for y in &mut s { y.0.push(self.sym(node, par)); } s }
            N::Nt(r, c, s) => self.succ(self.rules[*r].1, self.rule_par(*r, par & !c | s), tok, lt)?,
            N::NoLt(x) => if lt { vec![] } else { self.succ(*x, par, tok, lt)? },
            N::If(p, x) => if par & p != 0 { self.succ(*x, par, tok, lt)? } else { vec![] },
            N::Stop(_) => vec![],
            N::Not(s, x) => if s.get(tok) { vec![] } else { self.succ(*x, par, tok, lt)? },
            N::Semi | N::SemiDw => if self.classes[tok] == ";" { vec![(vec![], node)] } else { vec![] },
        })
    }
    fn nullable(&self, node: usize, par: u32, tok: usize, lt: bool) -> Result<bool, ()> {
        Ok(match &self.nodes[node].n {
            N::Tok(_) | N::Any(_) => false,
            N::Seq(v) => { for x in v { if !self.nullable(*x, par, tok, lt)? { return Ok(false); } } true }
            N::Alt(v) => { for x in v { if self.nullable(*x, par, tok, lt)? { return Ok(true); } } false }
            N::Opt(_) | N::Star(_) => true,
            N::Nt(r, c, s) => self.nullable(self.rules[*r].1, self.rule_par(*r, par & !c | s), tok, lt)?,
            N::NoLt(x) => self.nullable(*x, par, tok, lt)?,
            N::If(p, x) => par & p != 0 && self.nullable(*x, par, tok, lt)?,
            N::Not(_, x) => self.nullable(*x, par, tok, lt)?,
            N::Stop(s) => lt || !s.get(tok),
            N::Semi => { let c = &self.classes[tok]; let n = lt || c == "}" || c == "EOF"; if n && self.slashes.get(tok) { return Err(()) } n }
            N::SemiDw => true,
        })
    }
    /// What the grammar leaves open need not be left open twice.
    fn open(&self, n: usize) -> bool { match &self.nodes[n].n { N::Any(_) => true, N::Opt(x) | N::NoLt(x) => self.open(*x), N::Alt(v) => v.iter().all(|x| self.open(*x)), _ => false } }
    fn push(&self, s: &mut Vec<u32>, y: u32) { if s.last() != Some(&y) || !self.open((y >> 4) as usize) { s.push(y) } }
    fn area_bit(&self, node: usize) -> u32 {
        let mut b = 1 << self.rules[self.nodes[node].rule].2;
        if matches!(self.nodes[node].n, N::NoLt(_) | N::Semi | N::SemiDw) { if let Some(i) = self.areas.iter().position(|a| a == "asi") { b |= 1 << i; } }
        b
    }
    fn top_area(&self, s: &[u32]) -> u32 {
        match s.last() { Some(x) if x & BOT == 0 => { let n = (x >> 4) as usize; self.area_bit(n) | if let N::Nt(r, ..) = self.nodes[n].n { 1 << self.rules[r].2 } else { 0 } } _ => 0 }
    }
    pub fn step(&self, g: GId, tok: usize, lt: bool) -> Step {
        thread_local! { static M: RefCell<HashMap<(GId, usize, bool), Step>> = Default::default(); }
        if let Some(r) = M.with(|m| m.borrow().get(&(g, tok, lt)).cloned()) { return r; }
        let r = self.step1(g, tok, lt);
        M.with(|m| m.borrow_mut().insert((g, tok, lt), r.clone()));
        r
    }
    fn step1(&self, g: GId, tok: usize, lt: bool) -> Step {
        let stacks = match &*get(g) { G::Dead(_) => return Step::To(g, 0), G::Live(s) => s.clone() };
        let mut out: Vec<Vec<u32>> = vec![];
        let mut dead = 0;
        let mut by = 0;
        let mut under = false;
        // a semicolon is inserted only before a token that is not allowed otherwise
        let (mut out_semi, mut under_semi) = (vec![], false);
        for s in &stacks {
            let mut s = s.clone();
            let mut last = 0;
            let mut semi = false;
            loop {
                match s.last() {
                    None => { dead |= last; break; }
                    Some(x) if x & BOT != 0 => { if semi { under_semi = true; } else { under = true; } break; }
                    Some(x) => {
                        let (n, p) = ((x >> 4) as usize, x & 15);
                        let Ok(su) = self.succ(n, p, tok, lt) else { return Step::Any };
                        last |= self.top_area(&s);
                        if !su.is_empty() {
                            s.pop();
                            for (mut next, owner) in su {
                                next.reverse();
                                let mut t = s.clone();
                                for y in next { self.push(&mut t, y); }
                                if semi { out_semi.push((t, self.area_bit(owner))); } else { by |= self.area_bit(owner); out.push(t); }
                            }
                            break;
                        }
                        match self.nullable(n, p, tok, lt) { Err(()) => return Step::Any, Ok(false) => { dead |= last; break; } Ok(true) => { semi |= matches!(self.nodes[n].n, N::Semi | N::SemiDw); s.pop(); } }
                    }
                }
            }
        }
        if out.is_empty() { under |= under_semi; for (t, a) in out_semi { out.push(t); by |= a; } }
        if under { return Step::Under; }
        if out.is_empty() {
            // refused only for the line terminator before it
            if lt { if let Step::To(n, _) = self.step(g, tok, false) { if self.dead(n).is_none() { dead |= self.asi(); } } }
            return Step::To(intern(G::Dead(dead)), dead);
        }
        out.sort();
        out.dedup();
        Step::To(intern(G::Live(out)), by)
    }
    /// Drop what cannot match any of the tokens that may come next.
    pub fn trim(&self, g: GId, dom: &Bits) -> GId {
        thread_local! { static M: RefCell<HashMap<(GId, Bits), GId>> = Default::default(); }
        if let Some(r) = M.with(|m| m.borrow().get(&(g, *dom)).cloned()) { return r; }
        let G::Live(stacks) = &*get(g) else { return g };
        let mut out: Vec<Vec<u32>> = vec![];
        'stack: for s in stacks {
            let mut s = s.clone();
            loop {
                let Some(x) = s.last() else { break };
                if x & BOT != 0 { break; }
                let (n, p) = ((x >> 4) as usize, x & 15);
                let mut skip = true;
                let mut dead = true;
                for e in dom.iter() {
                    let (tok, lt) = (e / 2, e & 1 == 1);
                    match self.succ(n, p, tok, lt) { Ok(v) if v.is_empty() => {} _ => { skip = false; dead = false; break; } }
                    match self.nullable(n, p, tok, lt) { Ok(true) => dead = false, Ok(false) => skip = false, Err(()) => { skip = false; dead = false; } }
                    if !skip && !dead { break; }
                }
                if skip { s.pop(); continue; }
                if dead && stacks.len() > 1 { continue 'stack; }
                break;
            }
            if !out.contains(&s) { out.push(s); }
        }
        let r = if out.is_empty() { g } else { out.sort(); intern(G::Live(out)) };
        M.with(|m| m.borrow_mut().insert((g, *dom), r));
        r
    }
    /// The tokens the grammar says something about here.
    pub fn closed(&self, g: GId, dom: &Bits) -> Bits {
        thread_local! { static M: RefCell<HashMap<(GId, Bits), Bits>> = Default::default(); }
        if let Some(r) = M.with(|m| m.borrow().get(&(g, *dom)).cloned()) { return r; }
        let mut b = *dom;
        for e in dom.iter() { if let Step::Any = self.step(g, e / 2, e & 1 == 1) { b = b.minus(&Bits::one(e)); } }
        M.with(|m| m.borrow_mut().insert((g, *dom), b));
        b
    }
    /// Go down to an expression: for which of the tokens the grammar can only go on with one, and how.
    pub fn predict(&self, g: GId, dom: &Bits) -> Option<(GId, Bits)> {
        thread_local! { static M: RefCell<HashMap<(GId, Bits), Option<(GId, Bits)>>> = Default::default(); }
        if let Some(r) = M.with(|m| m.borrow().get(&(g, *dom)).cloned()) { return r; }
        let r = self.predict1(g, dom, 0).map(|h| {
            let mut b = Bits::EMPTY;
            for e in dom.iter() {
                match (self.step(g, e / 2, e & 1 == 1), self.step(h, e / 2, e & 1 == 1)) { (Step::To(x, _), Step::To(y, _)) if x == y && self.dead(x).is_none() => b.set(e), (Step::Any, Step::Any) => b.set(e), _ => {} }
            }
            (h, b)
        }).filter(|x| x.0 != g && !x.1.is_empty());
        M.with(|m| m.borrow_mut().insert((g, *dom), r));
        r
    }
    /// The first way down to an expression.
    fn predict1(&self, g: GId, dom: &Bits, depth: u32) -> Option<GId> {
        if depth > 30 { return None; }
        let G::Live(stacks) = &*get(g) else { return None };
        let [s] = &stacks[..] else { return None };
        let x = *s.last().filter(|x| **x & BOT == 0)?;
        let (n, p) = ((x >> 4) as usize, x & 15);
        if matches!(self.nodes[n].n, N::Nt(r, ..) if self.rules[r].0 == "Assign") { return Some(g); }
        let mut ways: Vec<Vec<u32>> = vec![];
        match &self.nodes[n].n {
            N::Seq(v) => ways.push(v.iter().rev().map(|y| self.sym(*y, p)).collect()),
            N::Alt(v) => for y in v { ways.push(vec![self.sym(*y, p)]); },
            N::Opt(y) => ways.push(vec![self.sym(*y, p)]),
            N::Star(y) => ways.push(vec![x, self.sym(*y, p)]),
            N::Nt(r, c, t) => ways.push(vec![self.sym(self.rules[*r].1, p & !c | t)]),
            N::If(q, y) => if p & q != 0 { ways.push(vec![self.sym(*y, p)]); },
            N::Not(_, y) | N::NoLt(y) => ways.push(vec![self.sym(*y, p)]),
            _ => {}
        }
        for w in ways {
            let mut t = s.clone();
            t.pop();
            for y in w { self.push(&mut t, y); }
            if let Some(h) = self.predict1(intern(G::Live(vec![t])), dom, depth + 1) { return Some(h); }
        }
        None
    }
    /// Cut the stacks to `k` elements; returns what was cut off.
    pub fn cut(&self, g: GId, k: usize) -> (GId, Vec<Vec<Vec<u32>>>) {
        let G::Live(stacks) = &*get(g) else { return (g, vec![]) };
        let mut tops: std::collections::BTreeMap<Vec<u32>, Vec<Vec<u32>>> = Default::default();
        for s in stacks {
            let n = s.len() - if s.first().map_or(false, |x| x & BOT != 0) { 1 } else { 0 };
            let c = s.len() - n.min(k);
            let r = tops.entry(s[c..].to_vec()).or_default();
            if !r.iter().any(|x| x[..] == s[..c]) { r.push(s[..c].to_vec()); }
        }
        let mut rests: Vec<Vec<Vec<u32>>> = vec![];
        let mut out = vec![];
        for (top, mut rest) in tops {
            rest.sort();
            let mut s = vec![];
            if rest.len() > 1 || !rest[0].is_empty() {
                let i = match rests.iter().position(|r| *r == rest) { Some(i) => i, None => { rests.push(rest); rests.len() - 1 } };
                s.push(BOT | i as u32);
            }
            s.extend(top);
            out.push(s);
        }
        out.sort();
        (intern(G::Live(out)), rests)
    }
    pub fn attach(&self, g: GId, rests: &[Vec<Vec<u32>>]) -> GId {
        let G::Live(stacks) = &*get(g) else { return g };
        let mut out: Vec<Vec<u32>> = vec![];
        for s in stacks {
            match s.first() {
                Some(x) if x & BOT != 0 => for r in &rests[(x & !BOT) as usize] { let mut t = r.clone(); for y in &s[1..] { self.push(&mut t, *y); } out.push(t); },
                _ => out.push(s.clone()),
            }
        }
        out.sort();
        out.dedup();
        intern(G::Live(out))
    }
    pub fn size(&self, g: GId) -> usize { match &*get(g) { G::Dead(_) => 0, G::Live(s) => s.len() } }
    pub fn dead(&self, g: GId) -> Option<u32> { match &*get(g) { G::Dead(a) => Some(*a), _ => None } }
    pub fn done(&self, g: GId) -> bool { match &*get(g) { G::Dead(_) => false, G::Live(s) => s.iter().any(|x| x.is_empty()) } }
    pub fn asi(&self) -> u32 { 1 << self.areas.iter().position(|a| a == "asi").unwrap() }
    pub fn top_areas(&self, g: GId) -> u32 { match &*get(g) { G::Dead(a) => *a, G::Live(s) => s.iter().fold(0, |a, x| a | self.top_area(x)) } }
    pub fn area_names(&self, a: u32) -> Vec<String> { self.areas.iter().enumerate().filter(|x| a >> x.0 & 1 == 1).map(|x| x.1.clone()).collect() }
    pub fn show(&self, g: GId) -> String {
        match &*get(g) {
            G::Dead(a) => format!("refused ({})", self.area_names(*a).join(", ")),
            G::Live(v) => v.iter().map(|s| s.iter().rev().map(|x| if x & BOT != 0 { format!("^{}", x & !BOT) } else { self.show_sym(*x) }).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("  or  "),
        }
    }
    fn show_sym(&self, x: u32) -> String {
        let mut s = self.show_node((x >> 4) as usize, 0);
        let x = match self.nodes[(x >> 4) as usize].n { N::Nt(_, c, t) => x & !c | t, _ => x };
        for (b, c) in [(P_IN, 'i'), (P_YIELD, 'y'), (P_AWAIT, 'a'), (P_PARAM, 'p')] { if x & b != 0 { s.push('+'); s.push(c); } }
        s
    }
    fn show_node(&self, n: usize, d: u32) -> String {
        if d > 4 { return "..".into(); }
        match &self.nodes[n].n {
            N::Tok(b) => if b.count() == 1 { format!("'{}'", self.classes[b.first().unwrap()]) } else { format!("<{} tokens>", b.count()) },
            N::Seq(v) => format!("({})", v.iter().map(|x| self.show_node(*x, d + 1)).collect::<Vec<_>>().join(" ")),
            N::Alt(v) => if v.len() > 4 { "(..|..)".into() } else { format!("({})", v.iter().map(|x| self.show_node(*x, d + 1)).collect::<Vec<_>>().join("|")) },
            N::Opt(x) => format!("{}?", self.show_node(*x, d + 1)),
            N::Star(x) => format!("{}*", self.show_node(*x, d + 1)),
            N::Nt(r, ..) => self.rules[*r].0.clone(),
            N::NoLt(x) => format!("^{}", self.show_node(*x, d + 1)),
            N::If(_, x) | N::Not(_, x) => self.show_node(*x, d + 1),
            N::Any(_) => "any".into(),
            N::Stop(_) => "".into(),
            N::Semi => "SEMI".into(),
            N::SemiDw => "SEMIDW".into(),
        }
    }
}

thread_local! { static GS: RefCell<(Vec<Rc<G>>, HashMap<Rc<G>, GId>)> = Default::default(); }
pub fn intern(g: G) -> GId {
    GS.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(i) = t.1.get(&g) { return *i; }
        let rc = Rc::new(g);
        let id = t.0.len() as GId;
        t.0.push(rc.clone());
        t.1.insert(rc, id);
        id
    })
}
fn get(g: GId) -> Rc<G> { GS.with(|t| t.borrow().0[g as usize].clone()) }

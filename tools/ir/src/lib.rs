//! The intermediate representation exchanged between the MIR extractor (`mirdump`, a rustc driver) and
//! the analyser (`jsa`).  It is rustc's monomorphic MIR with every constant evaluated and every direct
//! callee resolved.
use serde::{Deserialize, Serialize};

pub type TyId = usize;
pub type FnId = usize;

#[derive(Serialize, Deserialize, Debug, Default)]
pub struct Program {
    pub fns: Vec<Func>,
    pub types: Vec<Type>,
    pub roots: Vec<(String, FnId)>,
    pub statics: Vec<Static>,
    /// Structural facts about the crate that are not part of any body.
    pub facts: Facts,
}

#[derive(Serialize, Deserialize, Debug, Default)]
pub struct Facts {
    pub crate_name: String,
    pub overflow_checks: bool,
    /// (function, file, line) of every unsafe function or mutable static of the crate.
    pub unsafe_items: Vec<String>,
    pub mutable_statics: Vec<String>,
    pub local_fns: Vec<String>,
    pub problems: Vec<String>,
}

#[derive(Serialize, Deserialize, Debug)]
pub struct Static {
    pub name: String,
    pub val: Const,
    pub ty: TyId,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum FnKind {
    Item,
    Closure,
    Shim,
    Intrinsic(String),
    Virtual,
}

#[derive(Serialize, Deserialize, Debug)]
pub struct Func {
    /// Full instance name, generic arguments included.
    pub name: String,
    /// Definition path without the instance's generic arguments.
    pub path: String,
    pub krate: String,
    pub local: bool,
    pub kind: FnKind,
    /// Ids of the type arguments.
    pub targs: Vec<TyId>,
    pub self_ty: Option<TyId>,
    pub nargs: usize,
    pub spread: Option<usize>,
    pub locals: Vec<TyId>,
    pub local_names: Vec<Option<String>>,
    pub blocks: Option<Vec<Block>>,
    pub span: Span,
}

#[derive(Serialize, Deserialize, Debug, Clone, Default, PartialEq)]
pub struct Span {
    pub file: String,
    pub line: u32,
}

#[derive(Serialize, Deserialize, Debug)]
pub struct Block {
    pub stmts: Vec<Stmt>,
    pub term: Term,
    pub line: u32,
    pub file: Option<String>,
}

#[derive(Serialize, Deserialize, Debug)]
pub enum Stmt {
    Assign(Place, Rv),
    SetDiscr(Place, usize),
    Live(usize),
    Dead(usize),
    Assume(Op),
    CopyNonOverlapping,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Place {
    pub l: usize,
    pub p: Vec<Proj>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Proj {
    Deref,
    Field(usize),
    Index(usize),
    ConstIndex { off: u64, min: u64, from_end: bool },
    Subslice { from: u64, to: u64, from_end: bool },
    Variant(usize),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    Copy(Place),
    Move(Place),
    Const(Const, TyId),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Const {
    Int(i128),
    F64(u64),
    Str(String),
    Bytes(Vec<u8>),
    Fn(FnId),
    Zst,
    Agg(usize, Vec<Const>),
    Ref(Box<Const>),
    /// reference to a static item
    Static(usize),
    Opaque(String),
}

#[derive(Serialize, Deserialize, Debug)]
pub enum Rv {
    Use(Op),
    Ref(bool, Place),
    Addr(Place),
    Agg(AggKind, Vec<Op>),
    Bin(String, Op, Op, TyId),
    Checked(String, Op, Op, TyId),
    Un(String, Op, TyId),
    Cast(String, Op, TyId, TyId),
    Discr(Place, TyId),
    Len(Place),
    Repeat(Op, u64),
    Other(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum AggKind {
    Array,
    Tuple,
    Adt(TyId, usize, Option<usize>),
    Closure(TyId),
    RawPtr,
}

#[derive(Serialize, Deserialize, Debug)]
pub enum Term {
    Goto(usize),
    Switch { op: Op, ty: TyId, targets: Vec<(u128, usize)>, otherwise: usize },
    Return,
    Unreachable,
    Abort,
    Drop { place: Place, target: usize, glue: Option<FnId> },
    Call { f: Callee, args: Vec<Op>, dest: Place, target: Option<usize>, rust_call: bool },
    Assert { cond: Op, expected: bool, kind: String, target: usize },
    Other(String),
}

#[derive(Serialize, Deserialize, Debug)]
pub enum Callee {
    Direct(FnId),
    Indirect(Op),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Type {
    pub name: String,
    pub kind: TyK,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum TyK {
    Bool,
    Char,
    Int { bits: u32, signed: bool },
    Float(u32),
    Str,
    Never,
    Slice(TyId),
    Array(TyId, u64),
    Ref(bool, TyId),
    Ptr(bool, TyId),
    Tuple(Vec<TyId>),
    Adt { path: String, local: bool, kind: String, args: Vec<TyId>, variants: Vec<VariantT> },
    Closure(String, Vec<TyId>),
    FnDef(String),
    FnPtr,
    Dyn,
    Other,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct VariantT {
    pub name: String,
    pub discr: i128,
    pub fields: Vec<(String, TyId)>,
}

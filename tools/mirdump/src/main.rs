//! rustc driver: dumps the monomorphic MIR reachable from the crate's public entry points as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER.  For the crate named in JSA_CRATE the dump is written to JSA_OUT;
//! every other invocation is passed through to the real compiler unchanged.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Dumper {
    prog: ir::Program,
    tys: HashMap<Ty, usize>,
    fns: HashMap<Instance, usize>,
    statics: HashMap<StaticDef, usize>,
    queue: VecDeque<Instance>,
    local_drop_adts: HashSet<AdtDef>,
    local_drop_memo: HashMap<Ty, bool>,
}

/// Library areas whose bodies are never needed: the analyser treats calls into them as leaves.
const CUT: &[&str] = &[
    "std::io", "std::rt", "std::panicking", "core::panicking", "core::fmt", "alloc::raw_vec",
    "alloc::alloc", "failure::", "backtrace", "time::", "core::str::slice_error_fail", "std::sys",
    "std::thread", "alloc::fmt", "std::fmt", "core::slice::index::slice_", "core::num::flt2dec",
    "core::unicode", "core::slice::memchr", "core::str::pattern", "std::process", "std::env", "std::fs",
    "std::vec", "alloc::vec", "std::string", "alloc::string", "std::time", "core::num::imp::",
    "core::str::count", "core::result::unwrap_failed", "core::option::unwrap_failed",
    "core::option::expect_failed", "std::collections", "alloc::collections", "core::slice::sort",
    "core::alloc", "std::alloc",
];

fn span_of(s: Span) -> ir::Span {
    let l = s.get_lines();
    ir::Span { file: s.get_filename(), line: l.start_line as u32 }
}

fn strip_generics(name: &str) -> String {
    // "<T as Trait>::f::<X>" keeps the leading qualified path, only the trailing generic list goes away.
    let mut s = name.to_string();
    while s.ends_with('>') {
        let b = s.as_bytes();
        let mut depth = 0i32;
        let mut i = b.len();
        loop {
            if i == 0 { return s; }
            i -= 1;
            if b[i] == b'>' && (i == 0 || (b[i - 1] != b'-' && b[i - 1] != b'=')) { depth += 1; }
            if b[i] == b'<' { depth -= 1; if depth == 0 { break; } }
        }
        if i >= 2 && &s[i - 2..i] == "::" { s.truncate(i - 2); } else { break; }
    }
    s
}

impl Dumper {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) { return i; }
        let i = self.prog.types.len();
        self.tys.insert(t, i);
        self.prog.types.push(ir::Type { name: format!("{}", t), kind: ir::TyK::Other });
        let kind = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => ir::TyK::Bool,
                RigidTy::Char => ir::TyK::Char,
                RigidTy::Int(i) => ir::TyK::Int { bits: (i.num_bytes() * 8) as u32, signed: true },
                RigidTy::Uint(i) => ir::TyK::Int { bits: (i.num_bytes() * 8) as u32, signed: false },
                RigidTy::Float(f) => ir::TyK::Float(match f { FloatTy::F32 => 32, FloatTy::F64 => 64, _ => 0 }),
                RigidTy::Str => ir::TyK::Str,
                RigidTy::Never => ir::TyK::Never,
                RigidTy::Slice(t) => ir::TyK::Slice(self.ty(t)),
                RigidTy::Array(t, n) => { let e = self.ty(t); ir::TyK::Array(e, n.eval_target_usize().unwrap_or(0)) }
                RigidTy::Ref(_, t, m) => ir::TyK::Ref(m == Mutability::Mut, self.ty(t)),
                RigidTy::RawPtr(t, m) => ir::TyK::Ptr(m == Mutability::Mut, self.ty(t)),
                RigidTy::Tuple(ts) => ir::TyK::Tuple(ts.iter().map(|t| self.ty(*t)).collect()),
                RigidTy::Adt(d, args) => {
                    let targs: Vec<usize> = args.0.iter().filter_map(|a| a.ty().copied()).map(|t| self.ty(t)).collect();
                    let kind = match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    let mut variants = vec![];
                    for v in d.variants() {
                        let fields = v.fields().iter().map(|f| {
                            let ft = rustc_public::CrateDefType::ty_with_args(f, &args);
                            (f.name.to_string(), self.ty(ft))
                        }).collect();
                        let discr = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val as i128 } else { 0 };
                        variants.push(ir::VariantT { name: v.name().to_string(), discr, fields });
                    }
                    ir::TyK::Adt { path: d.name().to_string(), local: d.krate().is_local, kind: kind.into(), args: targs, variants }
                }
                RigidTy::Closure(d, args) => {
                    let ups = match args.0.last().and_then(|a| a.ty().copied()).map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => ts.iter().map(|t| self.ty(*t)).collect(),
                        _ => vec![],
                    };
                    ir::TyK::Closure(d.name().to_string(), ups)
                }
                RigidTy::FnDef(d, _) => ir::TyK::FnDef(d.name().to_string()),
                RigidTy::FnPtr(_) => ir::TyK::FnPtr,
                RigidTy::Dynamic(..) => ir::TyK::Dyn,
                _ => ir::TyK::Other,
            },
            _ => ir::TyK::Other,
        };
        self.prog.types[i].kind = kind;
        i
    }

    fn has_local_drop(&mut self, t: Ty) -> bool {
        if let Some(&b) = self.local_drop_memo.get(&t) { return b; }
        self.local_drop_memo.insert(t, false);
        let r = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Adt(d, args) => {
                    if self.local_drop_adts.contains(&d) { true } else {
                        let mut r = args.0.iter().filter_map(|a| a.ty().copied()).any(|t| self.has_local_drop(t));
                        if !r && d.krate().is_local {
                            'o: for v in d.variants() {
                                for f in v.fields() {
                                    let ft = rustc_public::CrateDefType::ty_with_args(&f, &args);
                                    if self.has_local_drop(ft) { r = true; break 'o; }
                                }
                            }
                        }
                        r
                    }
                }
                RigidTy::Tuple(ts) => ts.iter().any(|t| self.has_local_drop(*t)),
                RigidTy::Array(t, _) | RigidTy::Slice(t) => self.has_local_drop(t),
                RigidTy::Closure(_, args) => match args.0.last().and_then(|a| a.ty().copied()) {
                    Some(t) => self.has_local_drop(t),
                    None => false,
                },
                _ => false,
            },
            _ => false,
        };
        self.local_drop_memo.insert(t, r);
        r
    }

    fn func(&mut self, inst: Instance) -> usize {
        if let Some(&i) = self.fns.get(&inst) { return i; }
        let i = self.prog.fns.len();
        self.fns.insert(inst, i);
        let name = inst.name().to_string();
        let def = rustc_public::CrateItem::try_from(inst).ok();
        let (krate, local) = match &def { Some(d) => { let k = d.krate(); (k.name.to_string(), k.is_local) } None => { let k = inst.def.krate(); (k.name.to_string(), k.is_local) } };
        let is_closure = matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let kind = match inst.kind {
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => ir::FnKind::Intrinsic(inst.intrinsic_name().map(|s| s.to_string()).unwrap_or_default()),
            InstanceKind::Virtual { .. } => ir::FnKind::Virtual,
            InstanceKind::Shim => ir::FnKind::Shim,
            InstanceKind::Item => if is_closure { ir::FnKind::Closure } else { ir::FnKind::Item },
        };
        let targs = inst.args().0.iter().filter_map(|a| a.ty().copied()).map(|t| self.ty(t)).collect();
        let path = match &def { Some(d) if inst.kind != InstanceKind::Shim => d.name().to_string(), _ => strip_generics(&name) };
        let span = def.as_ref().map(|d| span_of(d.span())).unwrap_or_default();
        self.prog.fns.push(ir::Func { name, path, krate, local, kind, targs, self_ty: None, nargs: 0, spread: None, locals: vec![], local_names: vec![], blocks: None, span });
        self.queue.push_back(inst);
        i
    }

    fn static_(&mut self, d: StaticDef) -> usize {
        if let Some(&i) = self.statics.get(&d) { return i; }
        let i = self.prog.statics.len();
        self.statics.insert(d, i);
        let t = self.ty(d.ty());
        self.prog.statics.push(ir::Static { name: d.name().to_string(), val: ir::Const::Opaque("static".into()), ty: t });
        if d.krate().is_local {
            if let Ok(a) = d.eval_initializer() {
                let v = self.decode(&a, 0, d.ty(), 0);
                self.prog.statics[i].val = v;
            }
        }
        i
    }

    fn bytes_at(&self, a: &Allocation, off: usize, n: usize) -> Option<Vec<u8>> {
        if off + n > a.bytes.len() { return None; }
        a.bytes[off..off + n].iter().copied().collect()
    }

    fn uint_at(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let b = self.bytes_at(a, off, n)?;
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() { v |= (*x as u128) << (8 * i); }
        Some(v)
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> ir::Const {
        if depth > 12 { return ir::Const::Opaque("deep".into()); }
        self.decode_(a, off, t, depth).unwrap_or_else(|| ir::Const::Opaque(format!("const of type {}", t)))
    }

    fn decode_(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Option<ir::Const> {
        let kind = t.kind();
        let r = kind.rigid()?.clone();
        Some(match r {
            RigidTy::Bool => ir::Const::Int(self.uint_at(a, off, 1)? as i128),
            RigidTy::Char => ir::Const::Int(self.uint_at(a, off, 4)? as i128),
            RigidTy::Uint(u) => {
                let v = self.uint_at(a, off, u.num_bytes())?;
                if v > i128::MAX as u128 { return None; }
                ir::Const::Int(v as i128)
            }
            RigidTy::Int(u) => {
                let n = u.num_bytes();
                let v = self.uint_at(a, off, n)?;
                let sh = 128 - 8 * n as u32;
                ir::Const::Int(((v << sh) as i128) >> sh)
            }
            RigidTy::Float(FloatTy::F64) => ir::Const::F64(self.uint_at(a, off, 8)? as u64),
            RigidTy::Float(_) => return None,
            RigidTy::Tuple(ts) => {
                if ts.is_empty() { return Some(ir::Const::Agg(0, vec![])); }
                let sh = t.layout().ok()?.shape();
                let FieldsShape::Arbitrary { offsets, .. } = sh.fields else { return None };
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() { v.push(self.decode(a, off + offsets[i].bytes(), *t, depth + 1)); }
                ir::Const::Agg(0, v)
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let sz = e.layout().ok()?.shape().size.bytes();
                if n > 4096 { return None; }
                ir::Const::Agg(0, (0..n).map(|i| self.decode(a, off + i * sz, e, depth + 1)).collect())
            }
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let base = self.uint_at(a, off, 8)? as usize;
                let Some(id) = prov else {
                    // dangling reference to a zero-sized value, e.g. the data pointer of an empty slice
                    return Some(match inner.kind().rigid()? {
                        RigidTy::Str => ir::Const::Str(String::new()),
                        RigidTy::Slice(_) => ir::Const::Ref(Box::new(ir::Const::Agg(0, vec![]))),
                        _ => ir::Const::Ref(Box::new(ir::Const::Zst)),
                    });
                };
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => match inner.kind().rigid()?.clone() {
                        RigidTy::Str => {
                            let len = self.uint_at(a, off + 8, 8)? as usize;
                            ir::Const::Str(String::from_utf8(self.bytes_at(&m, base, len)?).ok()?)
                        }
                        RigidTy::Slice(e) => {
                            let len = self.uint_at(a, off + 8, 8)? as usize;
                            if let RigidTy::Uint(UintTy::U8) = e.kind().rigid()? {
                                return Some(ir::Const::Bytes(self.bytes_at(&m, base, len)?));
                            }
                            let sz = e.layout().ok()?.shape().size.bytes();
                            ir::Const::Ref(Box::new(ir::Const::Agg(0, (0..len).map(|i| self.decode(&m, base + i * sz, e, depth + 1)).collect())))
                        }
                        RigidTy::Dynamic(..) => return None,
                        _ => ir::Const::Ref(Box::new(self.decode(&m, base, inner, depth + 1))),
                    },
                    GlobalAlloc::Static(s) => ir::Const::Static(self.static_(s)),
                    GlobalAlloc::Function(i) => ir::Const::Fn(self.func(i)),
                    _ => return None,
                }
            }
            RigidTy::FnPtr(_) => {
                let id = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)?;
                match GlobalAlloc::from(id) { GlobalAlloc::Function(i) => ir::Const::Fn(self.func(i)), _ => return None }
            }
            RigidTy::FnDef(d, args) => ir::Const::Fn(self.func(Instance::resolve(d, &args).ok()?)),
            RigidTy::Closure(..) => ir::Const::Zst,
            RigidTy::Adt(d, args) => {
                let sh = t.layout().ok()?.shape();
                match d.kind() {
                    AdtKind::Union => return None,
                    AdtKind::Struct => {
                        let fs = d.variants()[0].fields();
                        let mut v = vec![];
                        for (i, f) in fs.iter().enumerate() {
                            let o = match &sh.fields { FieldsShape::Arbitrary { offsets, .. } => offsets[i].bytes(), _ => 0 };
                            let ft = rustc_public::CrateDefType::ty_with_args(f, &args);
                            v.push(self.decode(a, off + o, ft, depth + 1));
                        }
                        ir::Const::Agg(0, v)
                    }
                    AdtKind::Enum => {
                        let (vi, offsets): (usize, Vec<usize>) = match &sh.variants {
                            VariantsShape::Empty => return None,
                            VariantsShape::Single { index } => {
                                let o = match &sh.fields { FieldsShape::Arbitrary { offsets, .. } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                                (index.to_index(), o)
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let tag_off = match &sh.fields { FieldsShape::Arbitrary { offsets, .. } => offsets[*tag_field].bytes(), _ => 0 };
                                let size = match tag {
                                    rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes(),
                                };
                                let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + tag_off);
                                let raw = self.uint_at(a, off + tag_off, size)?;
                                let idx = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let mut found = None;
                                        for v in d.variants() {
                                            let dv = d.discriminant_for_variant(v.idx()).val;
                                            let mask = if size >= 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
                                            if dv & mask == raw { found = Some(v.idx().to_index()); }
                                        }
                                        found?
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        if has_prov { untagged_variant.to_index() } else {
                                            let mask = if size >= 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
                                            let rel = raw.wrapping_sub(*niche_start) & mask;
                                            let lo = niche_variants.start().to_index() as u128;
                                            let hi = niche_variants.end().to_index() as u128;
                                            if rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                                        }
                                    }
                                };
                                (idx, variants[idx].offsets.iter().map(|o| o.bytes()).collect())
                            }
                        };
                        let var = &d.variants()[vi];
                        let mut v = vec![];
                        for (i, f) in var.fields().iter().enumerate() {
                            let ft = rustc_public::CrateDefType::ty_with_args(f, &args);
                            v.push(self.decode(a, off + offsets.get(i).copied().unwrap_or(0), ft, depth + 1));
                        }
                        ir::Const::Agg(vi, v)
                    }
                }
            }
            _ => return None,
        })
    }

    fn constant(&mut self, c: &MirConst) -> ir::Const {
        let t = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, args)) => match Instance::resolve(d, &args) {
                    Ok(i) => ir::Const::Fn(self.func(i)),
                    Err(_) => ir::Const::Opaque(format!("unresolved {}", t)),
                },
                TyKind::RigidTy(RigidTy::Tuple(_)) => ir::Const::Agg(0, vec![]),
                TyKind::RigidTy(RigidTy::Adt(..)) => ir::Const::Agg(0, vec![]),
                _ => ir::Const::Zst,
            },
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => ir::Const::Int(v as i128),
                Err(_) => match tc.kind() {
                    TyConstKind::Value(t, a) => self.decode(a, 0, *t, 0),
                    _ => ir::Const::Opaque("type const".into()),
                },
            },
            _ => ir::Const::Opaque("unevaluated".into()),
        }
    }

    fn op(&mut self, o: &Operand) -> ir::Op {
        match o {
            Operand::Copy(p) => ir::Op::Copy(self.place(p)),
            Operand::Move(p) => ir::Op::Move(self.place(p)),
            Operand::Constant(c) => { let v = self.constant(&c.const_); ir::Op::Const(v, self.ty(c.const_.ty())) }
            Operand::RuntimeChecks(k) => {
                let t = self.ty(Ty::bool_ty());
                ir::Op::Const(ir::Const::Int(matches!(k, RuntimeChecks::OverflowChecks) as i128), t)
            }
        }
    }

    fn place(&mut self, p: &Place) -> ir::Place {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => ir::Proj::Deref,
                ProjectionElem::Field(i, _) => ir::Proj::Field(*i),
                ProjectionElem::Index(l) => ir::Proj::Index(*l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => ir::Proj::ConstIndex { off: *offset, min: *min_length, from_end: *from_end },
                ProjectionElem::Subslice { from, to, from_end } => ir::Proj::Subslice { from: *from, to: *to, from_end: *from_end },
                ProjectionElem::Downcast(i) => ir::Proj::Variant(i.to_index()),
                ProjectionElem::OpaqueCast(_) => continue,
            });
        }
        ir::Place { l: p.local, p: v }
    }

    fn rv(&mut self, r: &Rvalue, body: &Body) -> ir::Rv {
        let locals = body.locals();
        match r {
            Rvalue::Use(o, _) => ir::Rv::Use(self.op(o)),
            Rvalue::CopyForDeref(p) => ir::Rv::Use(ir::Op::Copy(self.place(p))),
            Rvalue::Ref(_, k, p) => ir::Rv::Ref(matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => {
                let mut pl = self.place(p);
                let _ = &mut pl;
                ir::Rv::Use(ir::Op::Copy(pl)).tap(*m)
            }
            Rvalue::AddressOf(_, p) => ir::Rv::Addr(self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let k = match k {
                    AggregateKind::Array(_) => ir::AggKind::Array,
                    AggregateKind::Tuple => ir::AggKind::Tuple,
                    AggregateKind::Adt(d, v, args, _, f) => ir::AggKind::Adt(self.ty(d.ty_with_args(args)), v.to_index(), *f),
                    AggregateKind::Closure(d, args) => ir::AggKind::Closure(self.ty(Ty::new_closure(*d, args.clone()))),
                    AggregateKind::RawPtr(..) => ir::AggKind::RawPtr,
                    _ => return ir::Rv::Other(format!("{:?}", k)),
                };
                ir::Rv::Agg(k, ops.iter().map(|o| self.op(o)).collect())
            }
            Rvalue::BinaryOp(b, x, y) => { let t = x.ty(locals).unwrap(); ir::Rv::Bin(format!("{:?}", b), self.op(x), self.op(y), self.ty(t)) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let t = x.ty(locals).unwrap(); ir::Rv::Checked(format!("{:?}", b), self.op(x), self.op(y), self.ty(t)) }
            Rvalue::UnaryOp(u, x) => { let t = x.ty(locals).unwrap(); ir::Rv::Un(format!("{:?}", u), self.op(x), self.ty(t)) }
            Rvalue::Cast(k, x, t) => { let f = x.ty(locals).unwrap(); ir::Rv::Cast(format!("{:?}", k), self.op(x), self.ty(f), self.ty(*t)) }
            Rvalue::Discriminant(p) => { let t = p.ty(locals).unwrap(); ir::Rv::Discr(self.place(p), self.ty(t)) }
            Rvalue::Len(p) => ir::Rv::Len(self.place(p)),
            Rvalue::Repeat(o, n) => ir::Rv::Repeat(self.op(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(_) => ir::Rv::Other("thread local".into()),
        }
    }

    fn body(&mut self, inst: Instance, id: usize) {
        let path = self.prog.fns[id].path.clone();
        let name = self.prog.fns[id].name.clone();
        let stripped = path.trim_start_matches('<');
        if CUT.iter().any(|c| path.starts_with(c) || stripped.starts_with(c)) && !self.prog.fns[id].local { return; }
        if matches!(self.prog.fns[id].kind, ir::FnKind::Intrinsic(_) | ir::FnKind::Virtual) { return; }
        if !inst.has_body() { return; }
        let Some(b) = inst.body() else { return };
        let _ = name;
        let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![None; locals.len()];
        for v in &b.var_debug_info { if let Some(l) = v.local() { names[l] = Some(v.name.to_string()); } }
        let mut blocks = vec![];
        let fspan = span_of(b.span);
        for blk in &b.blocks {
            let mut stmts = vec![];
            for s in &blk.statements {
                stmts.push(match &s.kind {
                    StatementKind::Assign(p, r) => ir::Stmt::Assign(self.place(p), self.rv(r, &b)),
                    StatementKind::SetDiscriminant { place, variant_index } => ir::Stmt::SetDiscr(self.place(place), variant_index.to_index()),
                    StatementKind::StorageLive(l) => ir::Stmt::Live(*l),
                    StatementKind::StorageDead(l) => ir::Stmt::Dead(*l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => ir::Stmt::Assume(self.op(o)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => ir::Stmt::CopyNonOverlapping,
                    _ => continue,
                });
            }
            let sp = span_of(blk.terminator.source_info.span);
            let term = match &blk.terminator.kind {
                TerminatorKind::Goto { target } => ir::Term::Goto(*target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(b.locals()).unwrap();
                    ir::Term::Switch { op: self.op(discr), ty: self.ty(t), targets: targets.branches().collect(), otherwise: targets.otherwise() }
                }
                TerminatorKind::Return => ir::Term::Return,
                TerminatorKind::Unreachable => ir::Term::Unreachable,
                TerminatorKind::Resume | TerminatorKind::Abort => ir::Term::Abort,
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).unwrap();
                    let glue = if self.has_local_drop(t) { Some(self.func(Instance::resolve_drop_in_place(t))) } else { None };
                    ir::Term::Drop { place: self.place(place), target: *target, glue }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(b.locals()).unwrap();
                    let mut rust_call = false;
                    let f = match ft.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                            rust_call = matches!(d.fn_sig().skip_binder().abi, Abi::RustCall);
                            match Instance::resolve(d, &a) {
                            Ok(i) => ir::Callee::Direct(self.func(i)),
                            Err(_) => ir::Callee::Indirect(ir::Op::Const(ir::Const::Opaque(format!("unresolved {}", ft)), self.ty(ft))),
                            }
                        }
                        _ => ir::Callee::Indirect(self.op(func)),
                    };
                    ir::Term::Call { f, args: args.iter().map(|o| self.op(o)).collect(), dest: self.place(destination), target: *target, rust_call }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = msg.description().map(|s| s.to_string()).unwrap_or_else(|_| "assertion".into());
                    ir::Term::Assert { cond: self.op(cond), expected: *expected, kind, target: *target }
                }
                k => ir::Term::Other(format!("{:?}", k)),
            };
            blocks.push(ir::Block { stmts, term, line: sp.line, file: if sp.file == fspan.file { None } else { Some(sp.file) } });
        }
        let f = &mut self.prog.fns[id];
        f.nargs = b.arg_locals().len();
        f.spread = b.spread_arg();
        f.locals = locals;
        f.local_names = names;
        f.blocks = Some(blocks);
        f.span = fspan;
    }
}

trait Tap { fn tap(self, m: Mutability) -> Self; }
impl Tap for ir::Rv { fn tap(self, _m: Mutability) -> Self { self } }

fn analyse() -> ControlFlow<(), ()> {
    let mut d = Dumper {
        prog: Default::default(), tys: HashMap::new(), fns: HashMap::new(), statics: HashMap::new(), queue: VecDeque::new(),
        local_drop_adts: HashSet::new(), local_drop_memo: HashMap::new(),
    };
    let krate = rustc_public::local_crate();
    d.prog.facts.crate_name = krate.name.to_string();
    for im in krate.trait_impls() {
        let t = im.trait_impl();
        let tr = t.value;
        if tr.def_id.name().to_string().ends_with("ops::Drop") || tr.def_id.name().to_string() == "Drop" {
            if let TyKind::RigidTy(RigidTy::Adt(a, _)) = tr.self_ty().kind() { d.local_drop_adts.insert(a); }
        }
    }
    for f in krate.fn_defs() {
        d.prog.facts.local_fns.push(f.name().to_string());
        let sig = f.fn_sig().skip_binder();
        if sig.safety == Safety::Unsafe { d.prog.facts.unsafe_items.push(format!("unsafe fn {}", f.name())); }
    }
    for s in krate.statics() {
        if s.name().is_empty() { continue; }
        let it = rustc_public::mir::mono::Instance::from(s);
        let _ = it;
        d.static_(s);
    }
    // The root: parse_root::<&str, ()>
    let str_ref = Ty::new_ref(Region { kind: RegionKind::ReErased }, Ty::from_rigid_kind(RigidTy::Str), Mutability::Not);
    let unit = Ty::new_tuple(&[]);
    for f in krate.fn_defs() {
        let n = f.name().to_string();
        if n.rsplit("::").next() == Some("parse_root") || n.rsplit("::").next() == Some("read_next") {
            let is_root = n.ends_with("parse_root");
            let g = f.generics_of();
            let mut args = vec![];
            let mut tyi = 0;
            for p in &g.params {
                match p.kind {
                    GenericParamDefKind::Lifetime => args.push(GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })),
                    GenericParamDefKind::Type { .. } => { args.push(GenericArgKind::Type(if tyi == 0 { str_ref } else { unit })); tyi += 1; }
                    GenericParamDefKind::Const { .. } => {}
                }
            }
            match Instance::resolve(f, &GenericArgs(args)) {
                Ok(i) => { let id = d.func(i); d.prog.roots.push((if is_root { "parse_root" } else { "read_next" }.into(), id)); }
                Err(e) => d.prog.facts.problems.push(format!("cannot resolve {}: {:?}", n, e)),
            }
        }
    }
    while let Some(i) = d.queue.pop_front() {
        let id = d.fns[&i];
        d.body(i, id);
    }
    let out = std::env::var("JSA_OUT").unwrap();
    std::fs::write(&out, serde_json::to_vec(&d.prog).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let want = std::env::var("JSA_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) && std::env::var("JSA_OUT").is_ok()
        && !args.iter().any(|a| a == "--test");
    let r = if is_target {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        run!(&args, analyse)
    } else {
        fn nop() -> ControlFlow<(), ()> { ControlFlow::Continue(()) }
        run!(&args, nop)
    };
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}

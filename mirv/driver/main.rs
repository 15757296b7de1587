//! MIR server: runs rustc on the `roots` crate and answers questions about monomorphic MIR.
//!
//! One JSON document per request line on stdin/stdout.  The MIR handed out is the MIR rustc built
//! from /repo's sources (and from its dependencies and std); nothing is rewritten here.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_hir;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_driver as _d;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};

#[derive(Default)]
struct S {
    tys: Vec<Ty>,
    tyidx: HashMap<Ty, usize>,
    insts: Vec<Instance>,
    instidx: HashMap<Instance, usize>,
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T>(it: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let mut o = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

impl S {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        self.tys.push(t);
        self.tyidx.insert(t, self.tys.len() - 1);
        self.tys.len() - 1
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.instidx.get(&i) {
            return *k;
        }
        self.insts.push(i);
        self.instidx.insert(i, self.insts.len() - 1);
        self.insts.len() - 1
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        list(a.0.iter(), |g| match g {
            GenericArgKind::Type(t) => self.ty(*t).to_string(),
            GenericArgKind::Lifetime(_) => "null".into(),
            GenericArgKind::Const(c) => match c.eval_target_usize() {
                Ok(n) => format!("{{\"n\":{n}}}"),
                Err(_) => "{\"c\":1}".into(),
            },
        })
    }
    fn tyinfo(&mut self, t: Ty) -> String {
        let s = q(&format!("{t}"));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into());
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n)
                }
                RigidTy::Pat(e, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::FnDef(d, a) => {
                    let i = match Instance::resolve(d, &a) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"inst\":{},\"name\":{},\"args\":{}", i, q(&d.name()), self.args(&a))
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let ups = match a.0.last() {
                        Some(GenericArgKind::Type(t)) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Tuple(ts)) => list(ts, |t| self.ty(t).to_string()),
                            _ => "[]".into(),
                        },
                        _ => "[]".into(),
                    };
                    let once = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok().map(|i| self.inst(i));
                    format!("\"k\":\"closure\",\"name\":{},\"ups\":{},\"args\":{},\"once\":{}", q(&d.name()), ups, self.args(&a),
                        once.map(|x| x.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Tuple(ts) => format!("\"k\":\"tuple\",\"es\":{}", list(ts, |t| self.ty(t).to_string())),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Adt(d, a) => {
                    let kind = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let vs = list(d.variants(), |v| {
                        let discr = if d.kind() == AdtKind::Enum {
                            let x = d.discriminant_for_variant(v.idx());
                            let bits = match x.ty.kind() {
                                TyKind::RigidTy(RigidTy::Int(t)) => match t {
                                    rustc_public::ty::IntTy::I8 => 8,
                                    rustc_public::ty::IntTy::I16 => 16,
                                    rustc_public::ty::IntTy::I32 => 32,
                                    rustc_public::ty::IntTy::I128 => 128,
                                    _ => 64,
                                },
                                _ => 0,
                            };
                            if bits > 0 { (((x.val << (128 - bits)) as i128) >> (128 - bits)).to_string() } else { x.val.to_string() }
                        } else {
                            "0".into()
                        };
                        let fs = list(v.fields(), |f| {
                            format!("{{\"name\":{},\"ty\":{}}}", q(&f.name), self.ty(f.ty_with_args(&a)))
                        });
                        format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", q(&v.name()), discr, fs)
                    });
                    format!(
                        "\"k\":\"adt\",\"kind\":\"{}\",\"crate\":{},\"name\":{},\"args\":{},\"box\":{},\"variants\":{}",
                        kind, q(&d.krate().name), q(&d.name()), self.args(&a), d.is_box(), vs
                    )
                }
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{\"s\":{s},{body}}}")
    }
    fn layout(&mut self, t: Ty) -> String {
        match t.layout() {
            Err(_) => "null".into(),
            Ok(l) => {
                let sh = l.shape();
                let v = match &sh.variants {
                    VariantsShape::Empty => "{\"k\":\"empty\"}".to_string(),
                    VariantsShape::Single { index } => format!("{{\"k\":\"single\",\"i\":{}}}", index.to_index()),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let enc = match tag_encoding {
                            TagEncoding::Direct => "\"direct\"".to_string(),
                            TagEncoding::Niche { .. } => "\"niche\"".to_string(),
                        };
                        let off = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as i64,
                            _ => -1,
                        };
                        format!(
                            "{{\"k\":\"multi\",\"enc\":{},\"off\":{},\"tag\":{},\"n\":{}}}",
                            enc, off, q(&format!("{tag:?}")), variants.len()
                        )
                    }
                };
                format!("{{\"size\":{},\"variants\":{}}}", sh.size.bytes(), v)
            }
        }
    }
    // ---- constants -------------------------------------------------------------------------
    fn uint(al: &Allocation, off: usize, n: usize) -> Option<u128> {
        al.read_partial_uint(off..off + n).ok()
    }
    fn decode(&mut self, t: Ty, al: &Allocation, off: usize, depth: usize) -> String {
        let opaque = |why: &str| format!("{{\"k\":\"opaque\",\"why\":{},\"bytes\":{}}}", q(why),
            list(al.bytes.iter().skip(off).take(64), |b| b.map(|b| b.to_string()).unwrap_or("null".into())));
        if depth > 12 {
            return opaque("depth");
        }
        let tid = self.ty(t);
        let TyKind::RigidTy(r) = t.kind() else { return opaque("kind") };
        match r {
            RigidTy::Bool => match Self::uint(al, off, 1) {
                Some(b) => format!("{{\"k\":\"bool\",\"v\":{}}}", b != 0),
                None => opaque("uninit"),
            },
            RigidTy::Char => match Self::uint(al, off, 4) {
                Some(b) => format!("{{\"k\":\"int\",\"v\":{b}}}"),
                None => opaque("uninit"),
            },
            RigidTy::Uint(u) => match Self::uint(al, off, u.num_bytes()) {
                Some(b) => format!("{{\"k\":\"int\",\"v\":{b}}}"),
                None => opaque("uninit"),
            },
            RigidTy::Int(u) => match Self::uint(al, off, u.num_bytes()) {
                Some(b) => {
                    let n = u.num_bytes() * 8;
                    let v = if n < 128 && b >> (n - 1) == 1 { b as i128 - (1i128 << n) } else { b as i128 };
                    format!("{{\"k\":\"int\",\"v\":{v}}}")
                }
                None => opaque("uninit"),
            },
            RigidTy::FnDef(..) => format!("{{\"k\":\"zst\",\"ty\":{tid}}}"),
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off);
                let Some((_, p)) = prov else {
                    // no provenance: dangling (ZST / empty slice) or null
                    let addr = Self::uint(al, off, 8).unwrap_or(0);
                    return match e.kind() {
                        TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str) => {
                            format!("{{\"k\":\"emptyslice\",\"ty\":{}}}", self.ty(e))
                        }
                        _ if addr != 0 => {
                            let empty = Allocation { bytes: vec![], ..al.clone() };
                            let v = self.decode(e, &empty, 0, depth + 1);
                            format!("{{\"k\":\"ref\",\"v\":{v}}}")
                        }
                        _ => "{\"k\":\"null\"}".into(),
                    };
                };
                let base = Self::uint(al, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = Self::uint(al, off + 8, 8).unwrap_or(0) as usize;
                            let b: Option<Vec<u8>> = m.bytes[base..base + n].iter().copied().collect();
                            match b.and_then(|b| String::from_utf8(b).ok()) {
                                Some(s) => format!("{{\"k\":\"str\",\"v\":{}}}", q(&s)),
                                None => opaque("str"),
                            }
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = Self::uint(al, off + 8, 8).unwrap_or(0) as usize;
                            let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let vs = list(0..n.min(4096), |i| self.decode(el, &m, base + i * sz, depth + 1));
                            format!("{{\"k\":\"slice\",\"e\":{},\"vs\":{}}}", self.ty(el), vs)
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => opaque("dyn"),
                        _ => {
                            let v = self.decode(e, &m, base, depth + 1);
                            format!("{{\"k\":\"ref\",\"v\":{v}}}")
                        }
                    },
                    GlobalAlloc::Static(s) => format!("{{\"k\":\"static\",\"name\":{},\"ty\":{}}}", q(&s.name()), self.ty(e)),
                    GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"inst\":{}}}", self.inst(i)),
                    _ => opaque("alloc"),
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off);
                match prov.map(|(_, p)| GlobalAlloc::from(p.0)) {
                    Some(GlobalAlloc::Function(i)) => format!("{{\"k\":\"fn\",\"inst\":{}}}", self.inst(i)),
                    _ => opaque("fnptr"),
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let vs = list(0..n.min(4096), |i| self.decode(e, al, off + i * sz, depth + 1));
                format!("{{\"k\":\"array\",\"e\":{},\"vs\":{}}}", self.ty(e), vs)
            }
            RigidTy::Pat(e, _) => self.decode(e, al, off, depth + 1),
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return opaque("layout") };
                let FieldsShape::Arbitrary { offsets } = l.shape().fields else {
                    return if ts.is_empty() { format!("{{\"k\":\"agg\",\"ty\":{tid},\"variant\":0,\"vs\":[]}}") } else { opaque("tuple") };
                };
                let vs = list(ts.iter().zip(offsets.iter()), |(t, o)| self.decode(*t, al, off + o.bytes(), depth + 1));
                format!("{{\"k\":\"agg\",\"ty\":{tid},\"variant\":0,\"vs\":{vs}}}")
            }
            RigidTy::Closure(_, a) => {
                let Some(GenericArgKind::Type(up)) = a.0.last() else { return opaque("closure") };
                let TyKind::RigidTy(RigidTy::Tuple(ts)) = up.kind() else { return opaque("closure") };
                if ts.is_empty() { format!("{{\"k\":\"agg\",\"ty\":{tid},\"variant\":0,\"vs\":[]}}") } else { opaque("closure") }
            }
            RigidTy::Adt(d, a) => {
                if d.kind() == AdtKind::Union { return opaque("union"); }
                let Ok(l) = t.layout() else { return opaque("layout") };
                let sh = l.shape();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return opaque("empty"),
                    VariantsShape::Single { index } => match &sh.fields {
                        FieldsShape::Arbitrary { offsets } => (index.to_index(), offsets.iter().map(|o| o.bytes()).collect()),
                        _ => (index.to_index(), vec![]),
                    },
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &sh.fields else { return opaque("fields") };
                        let toff = off + offsets[*tag_field].bytes();
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => value,
                            rustc_public::abi::Scalar::Union { value } => value,
                        };
                        let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let has_prov = al.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                        let tagv = Self::uint(al, toff, tsz);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tagv else { return opaque("tag") };
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                match d.variants().iter().position(|v| d.discriminant_for_variant(v.idx()).val & mask == tv) {
                                    Some(i) => i,
                                    None => return opaque("discr"),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    untagged_variant.to_index()
                                } else {
                                    let Some(tv) = tagv else { return opaque("tag") };
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let s = niche_variants.start().to_index() as u128;
                                    let e = niche_variants.end().to_index() as u128;
                                    if rel <= e - s { (s + rel) as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let v = d.variants()[vi];
                let vs = list(v.fields().iter().zip(offs.iter()), |(f, o)| {
                    let ft = f.ty_with_args(&a);
                    self.decode(ft, al, off + o, depth + 1)
                });
                format!("{{\"k\":\"agg\",\"ty\":{tid},\"variant\":{vi},\"vs\":{vs}}}")
            }
            _ => opaque("type"),
        }
    }
    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::ZeroSized => format!("{{\"k\":\"zst\",\"ty\":{tid}}}"),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("{{\"k\":\"int\",\"v\":{n}}}"),
                Err(_) => "{\"k\":\"opaque\",\"why\":\"tyconst\"}".into(),
            },
            k => format!("{{\"k\":\"opaque\",\"why\":{}}}", q(&format!("{k:?}"))),
        };
        format!("{{\"ty\":{tid},\"v\":{v}}}")
    }
    // ---- bodies ----------------------------------------------------------------------------
    fn place(&mut self, p: &Place) -> String {
        let pr = list(p.projection.iter(), |e| match e {
            ProjectionElem::Deref => "[\"deref\"]".into(),
            ProjectionElem::Field(i, t) => format!("[\"field\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"index\",{l}]"),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"cindex\",{offset},{min_length},{from_end}]")
            }
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{from},{to},{from_end}]"),
            ProjectionElem::Downcast(v) => format!("[\"downcast\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"ocast\",{}]", self.ty(*t)),
        });
        format!("[{},{}]", p.local, pr)
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rtcheck\",{}]", q(&format!("{r:?}"))),
        }
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        let t = r.ty(locals).ok();
        let t = t.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
        let b = match r {
            Rvalue::Use(o, _) => format!("\"use\",{}", self.op(o)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("\"ref\",{},{}", m, self.place(p))
            }
            Rvalue::AddressOf(k, p) => {
                format!("\"addr\",{},{}", k.to_mutable_lossy() == Mutability::Mut, self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(_) => "\"array\",0".to_string(),
                    AggregateKind::Tuple => "\"tuple\",0".into(),
                    AggregateKind::Adt(_, v, _, _, f) => match f {
                        Some(f) => format!("\"union\",{f}"),
                        None => format!("\"adt\",{}", v.to_index()),
                    },
                    AggregateKind::Closure(..) => "\"closure\",0".into(),
                    AggregateKind::RawPtr(..) => "\"rawptr\",0".into(),
                    _ => "\"other\",0".into(),
                };
                format!("\"agg\",{},{}", kk, list(ops, |o| self.op(o)))
            }
            Rvalue::BinaryOp(b, x, y) => {
                let tx = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("\"bin\",\"{:?}\",{},{},{}", b, self.op(x), self.op(y), tx)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let tx = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("\"cbin\",\"{:?}\",{},{},{}", b, self.op(x), self.op(y), tx)
            }
            Rvalue::UnaryOp(u, x) => format!("\"un\",\"{:?}\",{}", u, self.op(x)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let k = match k {
                    CastKind::PointerCoercion(c) => format!("{c:?}"),
                    k => format!("{k:?}"),
                };
                format!("\"cast\",{},{},{},{}", q(&k), self.op(o), from, self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("\"use\",[\"copy\",{}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("\"discr\",{}", self.place(p)),
            Rvalue::Len(p) => format!("\"len\",{}", self.place(p)),
            Rvalue::Repeat(o, n) => format!("\"repeat\",{},{}", self.op(o),
                n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())),
            Rvalue::Reborrow(_, m, p) => format!("\"ref\",{},{}", *m == Mutability::Mut, self.place(p)),
            Rvalue::ThreadLocalRef(i) => format!("\"tls\",{}", q(&i.name())),
        };
        format!("[{t},{b}]")
    }
    fn bodyinfo(&mut self, i: Instance) -> String {
        let Some(b) = i.body() else { return "null".into() };
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let ls = list(locals.iter(), |l| self.ty(l.ty).to_string());
        let names = {
            let mut o = Vec::new();
            for v in &b.var_debug_info {
                if let Some(l) = v.local() {
                    o.push(format!("[{},{}]", l, q(&v.name)));
                }
            }
            format!("[{}]", o.join(","))
        };
        let blocks = list(b.blocks.iter(), |bb| {
            let mut sts = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let l = s.source_info.span.get_lines().start_line;
                        sts.push(format!("[\"=\",{},{},{}]", self.place(p), self.rv(r, &locals), l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        sts.push(format!("[\"setdiscr\",{},{}]", self.place(place), variant_index.to_index()))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        sts.push(format!("[\"assume\",{}]", self.op(o)))
                    }
                    StatementKind::Intrinsic(_) => sts.push("[\"unsupported\",\"copy_nonoverlapping\"]".into()),
                    StatementKind::StorageDead(l) => sts.push(format!("[\"dead\",{l}]")),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tid = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let br = list(targets.branches(), |(v, b)| format!("[{v},{b}]"));
                    format!("[\"switch\",{},{},{},{}]", self.op(discr), br, targets.otherwise(), tid)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let callee = match func.ty(&locals).map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => match Instance::resolve(d, &a) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => format!("{{\"unresolved\":{}}}", q(&d.name())),
                        },
                        _ => "null".into(),
                    };
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        callee,
                        self.op(func),
                        list(args, |a| self.op(a)),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, q(&msg.description().unwrap_or("?").to_string()), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"unsupported\",\"asm\"]".into(),
            };
            format!("{{\"s\":[{}],\"t\":{},\"l\":{}}}", sts.join(","), t, line)
        });
        let f = b.span.get_filename();
        format!(
            "{{\"argc\":{},\"locals\":{},\"spread\":{},\"names\":{},\"file\":{},\"line\":{},\"blocks\":{}}}",
            b.arg_locals().len(),
            ls,
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            names,
            q(&f),
            b.span.get_lines().start_line,
            blocks
        )
    }
    fn instinfo(&mut self, i: Instance) -> String {
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let t = i.ty();
        let ty = self.ty(t);
        let (ins, out) = match t.kind().fn_sig() {
            Some(s) => {
                let s = s.skip_binder();
                (list(s.inputs().iter(), |t| self.ty(*t).to_string()), self.ty(s.output()).to_string())
            }
            None => ("null".into(), "null".into()),
        };
        let hb = i.has_body() || matches!(i.kind, InstanceKind::Shim) && i.body().is_some();
        format!(
            "{{\"name\":{},\"def\":{},\"kind\":\"{}\",\"body\":{},\"ty\":{},\"args\":{},\"in\":{},\"out\":{},\"crate\":{},\"intr\":{}}}",
            q(&i.name()),
            q(&i.def.name()),
            kind,
            hb,
            ty,
            self.args(&i.args()),
            ins,
            out,
            q(&i.def.krate().name),
            i.intrinsic_name().map(|s| q(&s)).unwrap_or("null".into()),
        )
    }
    fn serve(&mut self, tcx: rustc_middle::ty::TyCtxt<'_>) {
        let stdin = std::io::stdin();
        let mut out = std::io::stdout();
        for line in stdin.lock().lines() {
            let Ok(line) = line else { break };
            let w: Vec<&str> = line.split_whitespace().collect();
            let n = |k: usize| w.get(k).and_then(|x| x.parse::<usize>().ok()).unwrap_or(usize::MAX);
            let r = match w.first().copied() {
                Some("fns") => {
                    let krate = if w[1] == "." { vec![rustc_public::local_crate()] } else { rustc_public::find_crates(w[1]) };
                    let mut o = Vec::new();
                    for c in krate {
                        for d in c.fn_defs() {
                            let id = rustc_public::rustc_internal::internal(tcx, d.def_id());
                            let mono = !tcx.generics_of(id).requires_monomorphization(tcx);
                            if mono {
                                let i: Instance = rustc_public::rustc_internal::stable(rustc_middle::ty::Instance::mono(tcx, id));
                                o.push(format!("[{},{}]", q(&d.name()), self.inst(i)));
                                continue;
                            }
                            o.push(format!("[{},null]", q(&d.name())));
                        }
                    }
                    format!("[{}]", o.join(","))
                }
                // which functions of CRATE can code outside of it call?
                Some("vis") => {
                    let krate = if w[1] == "." { vec![rustc_public::local_crate()] } else { rustc_public::find_crates(w[1]) };
                    let mut o = Vec::new();
                    for c in krate {
                        for d in c.fn_defs() {
                            let id = rustc_public::rustc_internal::internal(tcx, d.def_id());
                            let mut public = tcx.def_kind(id) != rustc_hir::def::DefKind::Closure;
                            let mut p = Some(id);
                            while let Some(x) = p {
                                if matches!(tcx.def_kind(x), rustc_hir::def::DefKind::Mod | rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
                                    public = public && (x.is_crate_root() || tcx.visibility(x).is_public());
                                }
                                p = tcx.opt_parent(x);
                                if let Some(q) = p { if matches!(tcx.def_kind(q), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) { public = false; } }
                            }
                            o.push(format!("[{},{}]", q(&d.name()), public));
                        }
                    }
                    format!("[{}]", o.join(","))
                }
                Some("inst") => { let i = self.insts[n(1)]; self.instinfo(i) }
                Some("body") => { let i = self.insts[n(1)]; self.bodyinfo(i) }
                Some("ty") => { let t = self.tys[n(1)]; self.tyinfo(t) }
                Some("layout") => { let t = self.tys[n(1)]; self.layout(t) }
                // resolve NAME-of-local-generic-fn TY...  (used for executable reference contracts)
                Some("apply") => {
                    let mut r = "null".to_string();
                    for d in rustc_public::local_crate().fn_defs() {
                        if d.name().rsplit("::").next() == Some(w[1]) {
                            let a: Vec<_> = w[2..].iter().map(|x| GenericArgKind::Type(self.tys[x.parse::<usize>().unwrap()])).collect();
                            if let Ok(i) = Instance::resolve(d, &GenericArgs(a)) { r = self.inst(i).to_string(); }
                        }
                    }
                    r
                }
                Some("closure") => {
                    let t = self.tys[n(1)];
                    match t.kind() {
                        TyKind::RigidTy(RigidTy::Closure(d, a)) => match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => "null".into(),
                        },
                        _ => "null".into(),
                    }
                }
                Some("quit") => break,
                _ => "null".into(),
            };
            let _ = writeln!(out, "{r}");
            let _ = out.flush();
        }
    }
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = rustc_public::run_with_tcx!(&args, |tcx| -> ControlFlow<()> {
        S::default().serve(tcx);
        ControlFlow::Break(())
    });
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(e) => {
            eprintln!("driver: {e:?}");
            std::process::exit(3);
        }
    }
}

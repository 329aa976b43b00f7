// mirserve: run the compiler's front end over one crate and then answer queries about the
// type-checked program (monomorphic MIR, types, layouts, vtables, constants) on stdin/stdout.
// One JSON document per line.  No code of the analysed program is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

extern crate rustc_public;

use rustc_public::abi::*;
use rustc_public::mir::alloc::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::convert::TryFrom;
use std::ops::ControlFlow;

#[derive(Default)]
struct Tables {
    tys: Vec<Ty>,
    ty_ix: HashMap<Ty, usize>,
    insts: Vec<Instance>,
    inst_ix: HashMap<Instance, usize>,
    allocs: Vec<AllocId>,
    alloc_ix: HashMap<AllocId, usize>,
    statics: Vec<StaticDef>,
    static_ix: HashMap<StaticDef, usize>,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}

fn args_open(a: &GenericArgs) -> bool {
    a.0.iter().any(|x| match x {
        GenericArgKind::Type(t) => is_open(*t),
        GenericArgKind::Const(c) => matches!(c.kind(), TyConstKind::Param(_) | TyConstKind::Unevaluated(..)),
        _ => false,
    })
}
// does the type mention type parameters (so that nothing about it can be resolved)?
fn is_open(t: Ty) -> bool {
    match t.kind() {
        TyKind::Param(_) | TyKind::Alias(..) | TyKind::Bound(..) => true,
        TyKind::RigidTy(r) => match r {
            RigidTy::Adt(_, a) | RigidTy::FnDef(_, a) | RigidTy::Closure(_, a) => args_open(&a),
            RigidTy::Array(t, c) => {
                is_open(t) || matches!(c.kind(), TyConstKind::Param(_) | TyConstKind::Unevaluated(..))
            }
            RigidTy::Slice(t) | RigidTy::RawPtr(t, _) | RigidTy::Ref(_, t, _) | RigidTy::Pat(t, _) => is_open(t),
            RigidTy::Tuple(ts) => ts.into_iter().any(is_open),
            RigidTy::Dynamic(ps, _) => ps.iter().any(|p| match &p.value {
                ExistentialPredicate::Trait(t) => args_open(&t.generic_args),
                ExistentialPredicate::Projection(p) => {
                    args_open(&p.generic_args) || matches!(&p.term, TermKind::Type(t) if is_open(*t))
                }
                _ => false,
            }),
            _ => false,
        },
    }
}

impl Tables {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.push(t);
        self.ty_ix.insert(t, i);
        i
    }
    fn inst(&mut self, t: Instance) -> usize {
        if let Some(i) = self.inst_ix.get(&t) {
            return *i;
        }
        let i = self.insts.len();
        self.insts.push(t);
        self.inst_ix.insert(t, i);
        i
    }
    fn alloc(&mut self, t: AllocId) -> usize {
        if let Some(i) = self.alloc_ix.get(&t) {
            return *i;
        }
        let i = self.allocs.len();
        self.allocs.push(t);
        self.alloc_ix.insert(t, i);
        i
    }
    fn stat(&mut self, t: StaticDef) -> usize {
        if let Some(i) = self.static_ix.get(&t) {
            return *i;
        }
        let i = self.statics.len();
        self.statics.push(t);
        self.static_ix.insert(t, i);
        i
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in a.0.iter() {
            match x {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(n) => v.push(format!("{{\"const\":{}}}", n)),
                    Err(_) => v.push(format!("{{\"const\":{}}}", esc(&format!("{:?}", c.kind())))),
                },
            }
        }
        arr(v)
    }
    fn size(&self, t: Ty) -> Option<(usize, u64)> {
        if is_open(t) {
            return None;
        }
        let l = t.layout().ok()?.shape();
        Some((l.size.bytes(), l.abi_align))
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let open = is_open(t);
        let name = esc(&format!("{}", t));
        let k = t.kind();
        let rest = match &k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!(
                    "\"k\":\"float\",\"bits\":{}",
                    match f {
                        FloatTy::F16 => 16,
                        FloatTy::F32 => 32,
                        FloatTy::F64 => 64,
                        FloatTy::F128 => 128,
                    }
                ),
                RigidTy::Adt(d, a) => {
                    let mut vs = vec![];
                    for v in d.variants() {
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let ft = if open { f.ty() } else { f.ty_with_args(a) };
                                format!("[{},{}]", esc(&f.name), self.ty(ft))
                            })
                            .collect();
                        let discr = if d.kind() == AdtKind::Enum {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!(
                            "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                            esc(&v.name()),
                            discr,
                            arr(fs)
                        ));
                    }
                    let repr = format!("{:?}", d.repr());
                    format!(
                        "\"k\":\"adt\",\"adt\":\"{:?}\",\"def\":{},\"krate\":{},\"box\":{},\"args\":{},\"variants\":{},\"repr\":{},\"reprc\":{},\"reprt\":{}",
                        d.kind(),
                        esc(&d.name()),
                        esc(&d.krate().name),
                        d.is_box(),
                        self.args(a),
                        arr(vs),
                        esc(&repr),
                        d.repr().flags.is_c,
                        d.repr().flags.is_transparent
                    )
                }
                RigidTy::Foreign(_) => "\"k\":\"foreign\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(t, c) => format!(
                    "\"k\":\"array\",\"elem\":{},\"len\":{}",
                    self.ty(*t),
                    c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                ),
                RigidTy::Pat(t, _) => format!("\"k\":\"pat\",\"elem\":{}", self.ty(*t)),
                RigidTy::Slice(t) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(*t)),
                RigidTy::RawPtr(t, m) => format!(
                    "\"k\":\"ptr\",\"elem\":{},\"mut\":{}",
                    self.ty(*t),
                    *m == Mutability::Mut
                ),
                RigidTy::Ref(_, t, m) => format!(
                    "\"k\":\"ref\",\"elem\":{},\"mut\":{}",
                    self.ty(*t),
                    *m == Mutability::Mut
                ),
                RigidTy::FnDef(d, a) => {
                    let inst = if args_open(a) { None } else { Instance::resolve(*d, a).ok() };
                    format!(
                        "\"k\":\"fndef\",\"def\":{},\"krate\":{},\"args\":{},\"inst\":{}",
                        esc(&d.name()),
                        esc(&d.krate().name),
                        self.args(a),
                        inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into())
                    )
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let inst = Instance::resolve_closure(*d, a, ClosureKind::FnOnce).ok();
                    // upvar types: last generic arg is a tuple type
                    let ups = match a.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                        _ => "null".into(),
                    };
                    let _ = inst;
                    format!(
                        "\"k\":\"closure\",\"def\":{},\"ups\":{}",
                        esc(&d.name()),
                        ups
                    )
                }
                RigidTy::Dynamic(ps, _) => {
                    let mut v = vec![];
                    for p in ps {
                        match &p.value {
                            ExistentialPredicate::Trait(t) => v.push(esc(&t.def_id.name())),
                            ExistentialPredicate::Projection(_) => {}
                            ExistentialPredicate::AutoTrait(t) => v.push(esc(&t.name())),
                        }
                    }
                    format!("\"k\":\"dyn\",\"traits\":{}", arr(v))
                }
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Tuple(ts) => {
                    format!("\"k\":\"tuple\",\"elems\":{}", arr(ts.iter().map(|t| self.ty(*t).to_string())))
                }
                _ => "\"k\":\"other\"".into(),
            },
            TyKind::Param(p) => format!("\"k\":\"param\",\"index\":{}", p.index),
            TyKind::Alias(..) => "\"k\":\"alias\"".into(),
            TyKind::Bound(..) => "\"k\":\"bound\"".into(),
        };
        let sz = match self.size(t) {
            Some((s, a)) => format!("\"size\":{},\"align\":{}", s, a),
            None => "\"size\":null,\"align\":null".into(),
        };
        format!("{{\"name\":{},{},{}}}", name, sz, rest)
    }
    fn layout_json(&mut self, t: Ty) -> String {
        match t.layout() {
            Err(e) => format!("{{\"err\":{}}}", esc(&format!("{:?}", e))),
            Ok(l) => {
                let s = l.shape();
                let offs = match &s.fields {
                    FieldsShape::Arbitrary { offsets } => arr(offsets.iter().map(|o| o.bytes().to_string())),
                    _ => "null".into(),
                };
                format!(
                    "{{\"size\":{},\"align\":{},\"offsets\":{},\"repr\":{},\"variants\":{},\"unsized\":{}}}",
                    s.size.bytes(),
                    s.abi_align,
                    offs,
                    esc(&format!("{:?}", s.value_repr)),
                    esc(&format!("{:?}", s.variants)),
                    s.is_unsized()
                )
            }
        }
    }
    fn inst_json(&mut self, i: Instance) -> String {
        let (kind, idx) = match i.kind {
            InstanceKind::Item => ("item", 0),
            InstanceKind::Intrinsic => ("intrinsic", 0),
            InstanceKind::LlvmIntrinsic => ("llvm", 0),
            InstanceKind::Virtual { idx } => ("virtual", idx),
            InstanceKind::Shim => ("shim", 0),
        };
        let intr = i.intrinsic_name().map(|s| esc(&s)).unwrap_or("null".into());
        let did = i.def.def_id();
        let _ = did;
        let span = i.def.span();
        let sl = span.get_lines();
        format!(
            "{{\"name\":{},\"path\":{},\"krate\":{},\"kind\":\"{}\",\"idx\":{},\"intrinsic\":{},\"args\":{},\"body\":{},\"foreign\":{},\"emptyshim\":{},\"ty\":{},\"mangled\":{},\"file\":{},\"line\":{}}}",
            esc(&i.name()),
            esc(&i.def.name()),
            esc(&i.def.krate().name),
            kind,
            idx,
            intr,
            self.args(&i.args()),
            i.has_body() || i.kind == InstanceKind::Shim,
            i.is_foreign_item(),
            i.is_empty_shim(),
            if i.kind == InstanceKind::Shim { "null".to_string() } else { self.ty(i.ty()).to_string() },
            esc(&i.mangled_name()),
            esc(&span.get_filename()),
            sl.start_line
        )
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"dc\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t),
            ConstantKind::ZeroSized => "{\"zst\":1}".into(),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("{{\"int\":\"{}\"}}", n),
                Err(_) => format!("{{\"unk\":{}}}", esc(&format!("{:?}", tc))),
            },
            k => format!("{{\"unk\":{}}}", esc(&format!("{:?}", k))),
        };
        format!("[{},{}]", ti, v)
    }
    fn rd(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if off + n > a.bytes.len() {
            return None;
        }
        a.read_partial_uint(off..off + n).ok()
    }
    fn ptr_at(&mut self, a: &Allocation, off: usize) -> String {
        let base = self.rd(a, off, 8);
        for (o, p) in &a.provenance.ptrs {
            if *o == off {
                let id = p.0;
                return match GlobalAlloc::from(id) {
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                    GlobalAlloc::Static(s) => {
                        format!("{{\"static\":{},\"off\":{}}}", self.stat(s), base.unwrap_or(0))
                    }
                    GlobalAlloc::VTable(t, _) => format!("{{\"vtable\":{}}}", self.ty(t)),
                    GlobalAlloc::Memory(_) => {
                        format!("{{\"alloc\":{},\"off\":{}}}", self.alloc(id), base.unwrap_or(0))
                    }
                    GlobalAlloc::TypeId { ty } => format!("{{\"typeid\":{}}}", self.ty(ty)),
                };
            }
        }
        match base {
            Some(b) => format!("{{\"addr\":\"{}\"}}", b),
            None => "null".into(),
        }
    }
    fn pointee_meta(&mut self, t: Ty) -> &'static str {
        if is_open(t) {
            return "";
        }
        // what metadata a pointer to t carries
        match t.kind() {
            TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Slice(_)) => "len",
            TyKind::RigidTy(RigidTy::Dynamic(..)) => "vt",
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct => {
                let vs = d.variants();
                match vs[0].fields().last() {
                    Some(f) => {
                        let ft = f.ty_with_args(&a);
                        self.pointee_meta(ft)
                    }
                    None => "",
                }
            }
            _ => "",
        }
    }
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty) -> String {
        let (size, _) = match self.size(t) {
            Some(x) => x,
            None => return "{\"unk\":\"unsized\"}".into(),
        };
        let k = t.kind();
        let r = match &k {
            TyKind::RigidTy(r) => r.clone(),
            _ => return "{\"unk\":\"nonrigid\"}".into(),
        };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match self.rd(a, off, size) {
                Some(v) => format!("{{\"int\":\"{}\"}}", v),
                None => "{\"uninit\":1}".into(),
            },
            RigidTy::Int(_) => match self.rd(a, off, size) {
                Some(v) => {
                    let sh = 128 - 8 * size as u32;
                    format!("{{\"int\":\"{}\"}}", ((v << sh) as i128) >> sh)
                }
                None => "{\"uninit\":1}".into(),
            },
            RigidTy::Float(_) => match self.rd(a, off, size) {
                Some(v) => format!("{{\"fbits\":\"{}\"}}", v),
                None => "{\"uninit\":1}".into(),
            },
            RigidTy::FnPtr(_) => self.ptr_at(a, off),
            RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => {
                let pm = self.pointee_meta(p);
                let base = self.ptr_at(a, off);
                let meta = match pm {
                    "len" => self.rd(a, off + 8, 8).map(|v| v.to_string()).unwrap_or("null".into()),
                    "vt" => self.ptr_at(a, off + 8),
                    _ => "null".into(),
                };
                format!("{{\"p\":{},\"meta\":{},\"to\":{}}}", base, meta, self.ty(p))
            }
            RigidTy::FnDef(..) | RigidTy::Never => "{\"zst\":1}".into(),
            RigidTy::Tuple(ts) => {
                let l = t.layout().unwrap().shape();
                let mut v = vec![];
                if let FieldsShape::Arbitrary { offsets } = &l.fields {
                    for (i, t) in ts.iter().enumerate() {
                        v.push(self.decode(a, off + offsets[i].bytes(), *t));
                    }
                }
                format!("{{\"agg\":{}}}", arr(v))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = self.size(e).map(|x| x.0).unwrap_or(0);
                let v: Vec<String> = (0..n).map(|i| self.decode(a, off + i * es, e)).collect();
                format!("{{\"arr\":{}}}", arr(v))
            }
            RigidTy::Closure(_, _) => "{\"zst\":1}".into(),
            RigidTy::Adt(d, args) => {
                let l = t.layout().unwrap().shape();
                match d.kind() {
                    AdtKind::Union => "{\"unk\":\"union\"}".into(),
                    AdtKind::Struct => {
                        let vs = d.variants();
                        let fs = vs[0].fields();
                        let mut v = vec![];
                        match &l.fields {
                            FieldsShape::Arbitrary { offsets } => {
                                for (i, f) in fs.iter().enumerate() {
                                    let ft = f.ty_with_args(&args);
                                    v.push(self.decode(a, off + offsets[i].bytes(), ft));
                                }
                            }
                            _ => {
                                for f in fs.iter() {
                                    let ft = f.ty_with_args(&args);
                                    v.push(self.decode(a, off, ft));
                                }
                            }
                        }
                        format!("{{\"agg\":{}}}", arr(v))
                    }
                    AdtKind::Enum => match &l.variants {
                        VariantsShape::Single { index } => {
                            let ix = index.to_index();
                            let vs = d.variants();
                            let fs = vs[ix].fields();
                            let mut v = vec![];
                            if let FieldsShape::Arbitrary { offsets } = &l.fields {
                                for (i, f) in fs.iter().enumerate() {
                                    let ft = f.ty_with_args(&args);
                                    v.push(self.decode(a, off + offsets[i].bytes(), ft));
                                }
                            }
                            format!("{{\"var\":{},\"agg\":{}}}", ix, arr(v))
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &l.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => 0,
                            };
                            let prim = match tag {
                                Scalar::Initialized { value, .. } => value.clone(),
                                Scalar::Union { value } => value.clone(),
                            };
                            let isptr = matches!(prim, Primitive::Pointer(_));
                            let n = match prim {
                                Primitive::Int { length, .. } => length.bits() / 8,
                                Primitive::Float { length } => length.bits() / 8,
                                Primitive::Pointer(_) => 8,
                            };
                            let hasprov = isptr && a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let raw = match self.rd(a, off + toff, n) {
                                Some(v) => v,
                                None if hasprov => 1 << 70,
                                None => return "{\"uninit\":1}".into(),
                            };
                            let ix = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut r = None;
                                    for v in d.variants() {
                                        let dv = d.discriminant_for_variant(v.idx()).val;
                                        let mask = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                        if dv & mask == raw & mask {
                                            r = Some(v.idx().to_index());
                                        }
                                    }
                                    r
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    let mask = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    if !hasprov && rel <= hi - lo {
                                        Some((lo + rel) as usize)
                                    } else {
                                        Some(untagged_variant.to_index())
                                    }
                                }
                            };
                            let ix = match ix {
                                Some(i) => i,
                                None => return "{\"unk\":\"tag\"}".into(),
                            };
                            let vs = d.variants();
                            let fs = vs[ix].fields();
                            let mut v = vec![];
                            for (i, f) in fs.iter().enumerate() {
                                let ft = f.ty_with_args(&args);
                                v.push(self.decode(a, off + variants[ix].offsets[i].bytes(), ft));
                            }
                            format!("{{\"var\":{},\"agg\":{}}}", ix, arr(v))
                        }
                        VariantsShape::Empty => "{\"unk\":\"empty\"}".into(),
                    },
                }
            }
            RigidTy::Pat(t, _) => self.decode(a, off, t),
            _ => "{\"unk\":\"kind\"}".into(),
        }
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(m, p) => format!("[\"addr\",\"{:?}\",{}]", m, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops = arr(ops.iter().map(|o| self.operand(o)).collect::<Vec<_>>());
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            v.to_index(),
                            f.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, ops)
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y))
            }
            Rvalue::Cast(k, o, t) => {
                let kk = match k {
                    CastKind::PointerCoercion(p) => match p {
                        PointerCoercion::Unsize => "Unsize".to_string(),
                        PointerCoercion::ReifyFnPointer(_) => "ReifyFnPointer".into(),
                        PointerCoercion::ClosureFnPointer(_) => "ClosureFnPointer".into(),
                        PointerCoercion::MutToConstPointer => "MutToConstPointer".into(),
                        PointerCoercion::ArrayToPointer => "ArrayToPointer".into(),
                        PointerCoercion::UnsafeFnPointer => "UnsafeFnPointer".into(),
                    },
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",\"{}\",{},{}]", kk, self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => format!(
                "[\"ref\",\"{}\",{}]",
                match b {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                },
                self.place(p)
            ),
            Rvalue::Repeat(o, c) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&d.name())),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(t, _, p) => format!("[\"reborrow\",{},{}]", self.ty(*t), self.place(p)),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Continue => "\"continue\"".into(),
            UnwindAction::Unreachable => "\"unreachable\"".into(),
            UnwindAction::Terminate => "\"terminate\"".into(),
            UnwindAction::Cleanup(b) => b.to_string(),
        }
    }
    fn body_json(&mut self, b: &Body) -> String {
        let locals = arr(b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, esc(&v.name)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                let j = match &s.kind {
                    StatementKind::Assign(p, r) => format!("[\"=\",{},{},{}]", line, self.place(p), self.rvalue(r)),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{},{}]", line, self.place(place), variant_index.to_index())
                    }
                    StatementKind::StorageLive(l) => format!("[\"live\",{},{}]", line, l),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{},{}]", line, l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        format!("[\"assume\",{},{}]", line, self.operand(o))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => format!(
                        "[\"copyno\",{},{},{},{}]",
                        line,
                        self.operand(&c.src),
                        self.operand(&c.dst),
                        self.operand(&c.count)
                    ),
                    _ => continue,
                };
                st.push(j);
            }
            let sp = bb.terminator.source_info.span;
            let li = sp.get_lines();
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "[\"switch\",{},{},{}]",
                    self.operand(discr),
                    arr(targets.branches().map(|(v, b)| format!("[\"{}\",{}]", v, b))),
                    targets.otherwise()
                ),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let (di, ety) = match place.ty(b.locals()) {
                        Ok(t) if is_open(t) => ("null".into(), self.ty(t).to_string()),
                        Ok(t) => {
                            let d = Instance::resolve_drop_in_place(t);
                            (
                                if d.is_empty_shim() { "null".to_string() } else { self.inst(d).to_string() },
                                self.ty(t).to_string(),
                            )
                        }
                        Err(_) => ("null".into(), "null".into()),
                    };
                    format!(
                        "[\"drop\",{},{},{},{},{}]",
                        self.place(place),
                        di,
                        target,
                        self.unwind(unwind),
                        ety
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => format!(
                    "[\"call\",{},{},{},{},{}]",
                    self.operand(func),
                    arr(args.iter().map(|o| self.operand(o)).collect::<Vec<_>>()),
                    self.place(destination),
                    target.map(|t| t.to_string()).unwrap_or("null".into()),
                    self.unwind(unwind)
                ),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index))
                        }
                        AssertMessage::Overflow(op, x, y) => {
                            format!("[\"overflow\",\"{:?}\",{},{}]", op, self.operand(x), self.operand(y))
                        }
                        AssertMessage::OverflowNeg(x) => format!("[\"overflowneg\",{}]", self.operand(x)),
                        m => format!("[\"other\",{}]", esc(m.description().unwrap_or("?"))),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        m,
                        target,
                        self.unwind(unwind)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"line\":{},\"file\":{}}}", arr(st), t, li.start_line, esc(&sp.get_filename())));
        }
        let li = b.span.get_lines();
        format!(
            "{{\"file\":{},\"line\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}",
            esc(&b.span.get_filename()),
            li.start_line,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            locals,
            arr(names),
            arr(blocks)
        )
    }

    fn cmd(&mut self, line: &str) -> String {
        let p: Vec<&str> = line.split('\t').collect();
        let n = |i: usize| -> usize { p[i].parse().unwrap() };
        match p[0] {
            // all functions defined in this crate that need no type parameters
            "locals" => {
                let mut v = vec![];
                for it in all_local_items() {
                    let k = format!("{:?}", it.kind());
                    let inst = if !it.requires_monomorphization() && matches!(it.kind(), ItemKind::Fn) {
                        Instance::try_from(it).ok().map(|i| self.inst(i).to_string())
                    } else {
                        None
                    };
                    v.push(format!("[{},{},{}]", esc(&it.name()), esc(&k), inst.unwrap_or("null".into())));
                }
                arr(v)
            }
            "body" => {
                let i = self.insts[n(1)];
                let has = match i.kind {
                    InstanceKind::Item => i.has_body() && !i.is_foreign_item(),
                    InstanceKind::Shim => true,
                    _ => false,
                };
                if !has {
                    return "null".into();
                }
                match i.body() {
                    Some(b) => self.body_json(&b),
                    None => "null".into(),
                }
            }
            "inst" => {
                let i = self.insts[n(1)];
                self.inst_json(i)
            }
            "ty" => {
                let t = self.tys[n(1)];
                self.ty_json(t)
            }
            "layout" => {
                let t = self.tys[n(1)];
                self.layout_json(t)
            }
            "drop" => {
                let t = self.tys[n(1)];
                let d = Instance::resolve_drop_in_place(t);
                if d.is_empty_shim() { "null".into() } else { self.inst(d).to_string() }
            }
            "mkref" => {
                let t = self.tys[n(1)];
                let r = Ty::new_ref(Region { kind: RegionKind::ReErased }, t, if p[2] == "mut" { Mutability::Mut } else { Mutability::Not });
                self.ty(r).to_string()
            }
            "mkptr" => {
                let t = self.tys[n(1)];
                let r = Ty::new_ptr(t, Mutability::Mut);
                self.ty(r).to_string()
            }
            "mkbox" => {
                let t = self.tys[n(1)];
                let r = Ty::new_box(t);
                self.ty(r).to_string()
            }
            // call a closure value of type T as FnOnce/FnMut/Fn
            "closure" => {
                let t = self.tys[n(1)];
                match t.kind() {
                    TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                        let k = match p[2] {
                            "once" => ClosureKind::FnOnce,
                            "mut" => ClosureKind::FnMut,
                            _ => ClosureKind::Fn,
                        };
                        match Instance::resolve_closure(d, &a, k) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => "null".into(),
                        }
                    }
                    _ => "null".into(),
                }
            }
            // a generic function of this crate at the given type arguments
            "sub" => {
                for it in all_local_items() {
                    if it.name() != p[1] {
                        continue;
                    }
                    if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() {
                        let a: Vec<GenericArgKind> = (2..p.len()).map(|i| GenericArgKind::Type(self.tys[n(i)])).collect();
                        return match Instance::resolve(d, &GenericArgs(a)) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => "null".into(),
                        };
                    }
                }
                "null".into()
            }
            // vtable entry: dyn type, concrete type, index
            "vt" => {
                let d = self.tys[n(1)];
                let c = self.tys[n(2)];
                let ix = n(3);
                if let TyKind::RigidTy(RigidTy::Dynamic(ps, _)) = d.kind() {
                    for p in ps {
                        if let ExistentialPredicate::Trait(t) = p.value {
                            let tr = t.with_self_ty(c);
                            return match tr.vtable_entry(ix) {
                                Some(VtblEntry::Method(i)) => self.inst(i).to_string(),
                                _ => "null".into(),
                            };
                        }
                    }
                }
                "null".into()
            }
            // trait methods implemented by concrete types: all (dyn ty, concrete ty) -> methods
            "vtall" => {
                let d = self.tys[n(1)];
                let c = self.tys[n(2)];
                let mut v = vec![];
                if let TyKind::RigidTy(RigidTy::Dynamic(ps, _)) = d.kind() {
                    for p in ps {
                        if let ExistentialPredicate::Trait(t) = p.value {
                            let tr = t.with_self_ty(c);
                            for (i, e) in tr.vtable_entries().iter().enumerate() {
                                if let VtblEntry::Method(m) = e {
                                    v.push(format!("[{},{}]", i, self.inst(*m)));
                                }
                            }
                        }
                    }
                }
                arr(v)
            }
            // resolve trait method by trait path + method name for Self (+ extra type args)
            "trait" => {
                let mut out = "null".to_string();
                for td in all_trait_decls() {
                    if td.name() == p[1] {
                        for ai in td.associated_items() {
                            if let AssocKind::Fn { name, .. } = &ai.kind {
                                if name == p[2] {
                                    let mut args = vec![];
                                    for x in &p[3..] {
                                        args.push(GenericArgKind::Type(self.tys[x.parse::<usize>().unwrap()]));
                                    }
                                    let fd = FnDef(ai.def_id.def_id());
                                    {
                                        if let Ok(i) = Instance::resolve(fd, &GenericArgs(args)) {
                                            out = self.inst(i).to_string();
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                out
            }
            "static" => {
                let s = self.statics[n(1)];
                let t = s.ty();
                let v = match s.eval_initializer() {
                    Ok(a) => self.decode(&a, 0, t),
                    Err(_) => "{\"unk\":\"static\"}".into(),
                };
                format!("{{\"name\":{},\"krate\":{},\"ty\":{},\"val\":{},\"mut\":{}}}", esc(&s.name()), esc(&s.krate().name), self.ty(t), v, {
                    match s.eval_initializer() { Ok(a) => a.mutability == Mutability::Mut, Err(_) => true }
                })
            }
            // decode memory allocation as type; optional slice length
            "alloc" => {
                let id = self.allocs[n(1)];
                let off = n(2);
                let t = self.tys[n(3)];
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(a) => match t.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let l = n(4);
                            arr((0..l).map(|i| a.bytes[off + i].map(|x| x.to_string()).unwrap_or("null".into())))
                        }
                        TyKind::RigidTy(RigidTy::Slice(e)) => {
                            let l = n(4);
                            let es = self.size(e).map(|x| x.0).unwrap_or(0);
                            let v: Vec<String> = (0..l).map(|i| self.decode(&a, off + i * es, e)).collect();
                            format!("{{\"arr\":{}}}", arr(v))
                        }
                        _ => self.decode(&a, off, t),
                    },
                    _ => "null".into(),
                }
            }
            // every item of a crate
            "crate" => {
                let mut v = vec![];
                let cs = if p[1].is_empty() { vec![local_crate()] } else { find_crates(p[1]) };
                for c in cs {
                    let fns = arr(c.fn_defs().iter().map(|f| esc(&f.name())));
                    let sts: Vec<String> = c.statics().iter().map(|s| self.stat(*s).to_string()).collect();
                    let adts: Vec<String> = c.adts().iter().map(|s| esc(&s.name())).collect();
                    let impls: Vec<String> = c
                        .trait_impls()
                        .iter()
                        .map(|i| {
                            let t = i.trait_impl().value;
                            let ai = i.associated_items();
                            let ms = arr(ai.iter().filter_map(|a| match &a.kind { AssocKind::Fn { name, .. } => Some(esc(name)), _ => None }));
                            format!("[{},{},{}]", esc(&t.def_id.name()), esc(&format!("{}", t.self_ty())), ms)
                        })
                        .collect();
                    v.push(format!(
                        "{{\"name\":{},\"fns\":{},\"statics\":{},\"adts\":{},\"impls\":{}}}",
                        esc(&c.name),
                        fns,
                        arr(sts),
                        arr(adts),
                        arr(impls)
                    ));
                }
                arr(v)
            }
            // generic (uninstantiated) MIR of every function of a crate: for effect inventories
            "gbodies" => {
                let mut v = vec![];
                let cs = if p[1].is_empty() { vec![local_crate()] } else { find_crates(p[1]) };
                for c in cs {
                    for f in c.fn_defs() {
                        if f.has_body() {
                            if let Some(b) = f.body() {
                                v.push(format!("[{},{}]", esc(&f.name()), self.body_json(&b)));
                            }
                        }
                    }
                }
                arr(v)
            }
            "crates" => {
                let mut v: Vec<String> = external_crates().into_iter().map(|c| c.name.to_string()).collect();
                v.sort();
                v.dedup();
                arr(v.into_iter().map(|c| esc(&c)))
            }
            // regions of every function a user of the crate can name
            "sigs" => sigs(p[1]),
            "quit" => std::process::exit(0),
            _ => "\"?\"".into(),
        }
    }
}

fn sigs(krate: &str) -> String {
    use rustc_hir::def::{DefKind, Res};
    use rustc_middle::mir as m;
    use rustc_middle::ty as t;
    use rustc_span::def_id::DefId;
    fn regs(ty: t::Ty<'_>) -> Vec<String> {
        let mut v: Vec<String> = ty
            .walk()
            .filter_map(|a| match a.kind() {
                t::GenericArgKind::Lifetime(r) => Some(format!("{:?}", r)),
                _ => None,
            })
            .collect();
        v.sort();
        v.dedup();
        v
    }
    t::tls::with(|tcx| {
        let mut out = vec![];
        let mut fns: Vec<DefId> = vec![];
        let mut seen: Vec<DefId> = vec![];
        let mut work: Vec<DefId> = tcx
            .crates(())
            .iter()
            .filter(|c| tcx.crate_name(**c).as_str() == krate)
            .map(|c| c.as_def_id())
            .collect();
        while let Some(d) = work.pop() {
            if seen.contains(&d) || d.krate != seen.first().map(|x| x.krate).unwrap_or(d.krate) {
                continue;
            }
            seen.push(d);
            match tcx.def_kind(d) {
                DefKind::Mod => {
                    for c in tcx.module_children(d) {
                        if let (true, Res::Def(_, x)) = (c.vis.is_public(), c.res) {
                            work.push(x);
                        }
                    }
                }
                DefKind::Fn => fns.push(d),
                DefKind::Trait => {
                    for i in tcx.inherent_impls(d) {
                        for a in tcx.associated_items(*i).in_definition_order() {
                            if let (true, t::AssocKind::Fn { .. }) = (tcx.visibility(a.def_id).is_public(), a.kind) {
                                fns.push(a.def_id);
                            }
                        }
                    }
                    for a in tcx.associated_items(d).in_definition_order() {
                        if let t::AssocKind::Fn { .. } = a.kind {
                            fns.push(a.def_id);
                        }
                    }
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    for i in tcx.inherent_impls(d) {
                        for a in tcx.associated_items(*i).in_definition_order() {
                            if let (true, t::AssocKind::Fn { .. }) = (tcx.visibility(a.def_id).is_public(), a.kind) {
                                fns.push(a.def_id);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        for f in fns {
            let sig = tcx.fn_sig(f).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<String> = sig.inputs().iter().flat_map(|x| regs(*x)).collect();
            let outs = regs(sig.output());
            let mut how = vec![];
            let sref = sig.output().walk().any(|a| match a.kind() {
                t::GenericArgKind::Type(x) => matches!(x.kind(), t::TyKind::Ref(r, _, _) if r.is_static()),
                _ => false,
            });
            let mut bodies = vec![f];
            let mut k = 0;
            while k < bodies.len() {
                let g = bodies[k];
                k += 1;
                if !tcx.is_mir_available(g) {
                    continue;
                }
                let b = tcx.optimized_mir(g);
                for l in b.local_decls.iter() {
                    if let t::TyKind::Closure(c, _) = l.ty.kind() {
                        if !bodies.contains(c) && c.krate == f.krate {
                            bodies.push(*c);
                        }
                    }
                }
                for d in b.basic_blocks.iter() {
                    for s in &d.statements {
                        if let m::StatementKind::Assign(x) = &s.kind {
                            match &x.1 {
                                m::Rvalue::Cast(m::CastKind::Transmute, _, ty) => {
                                    if !regs(*ty).is_empty() {
                                        how.push("a transmute".to_string())
                                    }
                                }
                                m::Rvalue::Ref(_, _, p) if p.iter_projections().any(|(q, e)| e == m::ProjectionElem::Deref && q.ty(b, tcx).ty.is_raw_ptr()) => how.push("a reference made from a raw pointer".to_string()),
                                _ => {}
                            }
                        }
                    }
                    if let Some(m::TerminatorKind::Call { func, .. }) = d.terminator.as_ref().map(|x| &x.kind) {
                        if let t::TyKind::FnDef(g, _) = func.ty(b, tcx).kind() {
                            let gs = tcx.fn_sig(*g).instantiate_identity().skip_norm_wip().skip_binder();
                            let gi: Vec<String> = gs.inputs().iter().flat_map(|x| regs(*x)).collect();
                            if g.krate == f.krate && regs(gs.output()).iter().any(|r| !gi.contains(r)) {
                                how.push(format!("a call to {}, whose result borrows from nothing", tcx.def_path_str(*g)));
                            }
                            if gs.safety().is_unsafe() {
                                how.push(format!("a call to unsafe {}", tcx.def_path_str(*g)));
                            }
                        }
                    }
                }
            }
            let l = |v: &Vec<String>| arr(v.iter().map(|x| esc(x)));
            out.push(format!(
                "{{\"name\":{},\"unsafe\":{},\"sref\":{},\"ins\":{},\"outs\":{},\"how\":{}}}",
                esc(&tcx.def_path_str(f)),
                sig.safety().is_unsafe(),
                sref,
                l(&ins),
                l(&outs),
                l(&how)
            ));
        }
        arr(out)
    })
}

fn serve() -> ControlFlow<()> {
    let mut t = Tables::default();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    writeln!(out, "\"ready\"").unwrap();
    out.flush().unwrap();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let r = t.cmd(&line);
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
    ControlFlow::Break(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = run!(&args, serve);
    match r {
        Ok(_) => {}
        Err(CompilerError::Interrupted(_)) => {}
        Err(e) => {
            eprintln!("mirserve: {:?}", e);
            std::process::exit(3);
        }
    }
}

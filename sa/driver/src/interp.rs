//! Abstract interpreter over monomorphic MIR (rustc_public).
use crate::num::*;
use crate::num::IntTy;
use crate::val::*;
use rustc_public::CrateDef;
use rustc_public::abi::{FieldsShape, LayoutShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Out {
    Ret(Val),
    Panic(Rc<str>),
    Unsup(Rc<str>),
}

#[derive(Clone)]
pub struct Outcome {
    pub st: State,
    pub out: Out,
}

pub struct AllocX {
    pub bytes: Vec<Option<u8>>,
    pub prov: HashMap<usize, rustc_public::mir::alloc::AllocId>,
}

pub struct BodyX {
    pub b: Body,
    pub inst: Instance,
    pub name: Rc<str>,
    pub local_tys: Vec<Ty>,
}

pub enum GA {
    Alloc(usize),
    Fn(Instance),
    Vt(Ty),
    Other,
}

pub struct Interp {
    kinds: HashMap<Ty, Rc<TyKind>>,
    layouts: HashMap<Ty, Rc<LayoutShape>>,
    vfields: HashMap<(Ty, usize), Rc<Vec<Ty>>>,
    discrs: HashMap<Ty, Rc<Vec<I>>>,
    bodies: HashMap<Instance, Option<Rc<BodyX>>>,
    names: HashMap<Instance, Rc<str>>,
    pub allocs: Vec<Rc<AllocX>>,
    alloc_ids: HashMap<rustc_public::mir::alloc::AllocId, Rc<GA>>,
    resolved: HashMap<(FnDef, GenericArgs), Option<Instance>>,
    pub steps: u64,
    pub budget: u64,
    pub depth: usize,
    pub analysed: BTreeSet<Rc<str>>,
    pub trace: bool,
    /// property lookups are uninterpreted functions
    pub uf: Option<I>,
    pub idna: Option<I>,
    pub ubidi: bool,
    pub class_names: Vec<String>,
    pub mappings: Vec<Val>,
    pub oblig: u64,
    pub fix: crate::text::Fix,
    pub prof_on: bool,
    pub prof: HashMap<Rc<str>, u64>,
    /// one entry per frame but the top: callee return point and the destination it defines
    pub stack: Vec<(Instance, usize, Option<usize>)>,
}

pub type R<T> = Result<T, String>;

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

impl Interp {
    pub fn new() -> Interp {
        Interp {
            kinds: HashMap::new(),
            layouts: HashMap::new(),
            vfields: HashMap::new(),
            discrs: HashMap::new(),
            bodies: HashMap::new(),
            names: HashMap::new(),
            allocs: vec![],
            alloc_ids: HashMap::new(),
            resolved: HashMap::new(),
            steps: 0,
            budget: 400_000_000,
            depth: 0,
            analysed: BTreeSet::new(),
            uf: None,
            idna: None, ubidi: false, class_names: vec![],
            mappings: vec![],
            trace: std::env::var("ABSINT_TRACE").is_ok(),
            oblig: 0,
            prof_on: std::env::var("ABSINT_PROF").is_ok(),
            prof: Default::default(),
            fix: crate::text::Fix { reps: std::env::var("ABSINT_REPS").ok().and_then(|s| s.parse().ok()).unwrap_or(2), keep: std::env::var("ABSINT_KEEP").ok().and_then(|s| s.parse().ok()).unwrap_or(1), ..Default::default() },
            stack: vec![],
        }
    }

    // ---------------------------------------------------------------- types
    pub fn kind(&mut self, ty: Ty) -> Rc<TyKind> {
        if let Some(k) = self.kinds.get(&ty) {
            return k.clone();
        }
        let k = Rc::new(ty.kind());
        self.kinds.insert(ty, k.clone());
        k
    }
    pub fn layout(&mut self, ty: Ty) -> R<Rc<LayoutShape>> {
        if let Some(k) = self.layouts.get(&ty) {
            return Ok(k.clone());
        }
        let l = ty.layout().map_err(|e| format!("layout of {ty}: {e:?}"))?;
        let k = Rc::new(l.shape());
        self.layouts.insert(ty, k.clone());
        Ok(k)
    }
    pub fn size_of(&mut self, ty: Ty) -> R<usize> {
        Ok(self.layout(ty)?.size.bytes())
    }
    pub fn is_zst(&mut self, ty: Ty) -> bool {
        self.layout(ty).map(|l| l.is_sized() && l.size.bytes() == 0).unwrap_or(false)
    }
    pub fn fields(&mut self, ty: Ty, variant: usize) -> R<Rc<Vec<Ty>>> {
        if let Some(f) = self.vfields.get(&(ty, variant)) {
            return Ok(f.clone());
        }
        let k = self.kind(ty);
        let v: Vec<Ty> = match &*k {
            TyKind::RigidTy(RigidTy::Adt(def, args)) => {
                let vs = def.variants();
                if variant >= vs.len() {
                    bail!("variant {variant} of {ty}");
                }
                vs[variant].fields().iter().map(|f| rustc_public::CrateDefType::ty_with_args(f, args)).collect()
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.clone(),
            TyKind::RigidTy(RigidTy::Closure(_, args)) => {
                // last generic arg is the tuple of upvars
                match args.0.last() {
                    Some(GenericArgKind::Type(t)) => match &*self.kind(*t) {
                        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.clone(),
                        _ => bail!("closure upvars of {ty}"),
                    },
                    _ => bail!("closure args of {ty}"),
                }
            }
            _ => vec![],
        };
        let v: Vec<Ty> = v;
        let r = Rc::new(v);
        self.vfields.insert((ty, variant), r.clone());
        Ok(r)
    }
    pub fn is_enum(&mut self, ty: Ty) -> bool {
        matches!(&*self.kind(ty), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum)
    }
    pub fn nvariants(&mut self, ty: Ty) -> usize {
        match &*self.kind(ty) {
            TyKind::RigidTy(RigidTy::Adt(d, _)) => d.num_variants(),
            _ => 1,
        }
    }
    /// discriminant values by variant index (wrapped to the discriminant type)
    pub fn discr(&mut self, ty: Ty) -> R<Rc<Vec<I>>> {
        if let Some(d) = self.discrs.get(&ty) {
            return Ok(d.clone());
        }
        let k = self.kind(ty);
        let v: Vec<I> = match &*k {
            TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => {
                let vs = d.variants();
                let mut out = vec![];
                for v in vs {
                    let dd = d.discriminant_for_variant(v.idx());
                    let it = self.int_ty(dd.ty).ok_or("discr ty")?;
                    out.push(it.wrap(dd.val as I));
                }
                out
            }
            _ => vec![0],
        };
        let r = Rc::new(v);
        self.discrs.insert(ty, r.clone());
        Ok(r)
    }
    pub fn int_ty(&mut self, ty: Ty) -> Option<IntTy> {
        let k = self.kind(ty);
        Some(match &*k {
            TyKind::RigidTy(RigidTy::Bool) => crate::num::IntTy { bits: 1, signed: false, ischar: false },
            TyKind::RigidTy(RigidTy::Char) => crate::num::IntTy { bits: 32, signed: false, ischar: true },
            TyKind::RigidTy(RigidTy::Int(i)) => {
                crate::num::IntTy { bits: i.num_bytes() as u32 * 8, signed: true, ischar: false }
            }
            TyKind::RigidTy(RigidTy::Uint(i)) => {
                crate::num::IntTy { bits: i.num_bytes() as u32 * 8, signed: false, ischar: false }
            }
            TyKind::RigidTy(RigidTy::Pat(t, _)) => {
                let t = *t;
                return self.int_ty(t);
            }
            _ => return None,
        })
    }
    pub fn pointee(&mut self, ty: Ty) -> Option<Ty> {
        match &*self.kind(ty) {
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) => Some(*t),
            TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(*t),
            TyKind::RigidTy(RigidTy::Pat(t, _)) => {
                let t = *t;
                self.pointee(t)
            }
            _ => None,
        }
    }
    pub fn elem_ty(&mut self, ty: Ty) -> Option<Ty> {
        match &*self.kind(ty) {
            TyKind::RigidTy(RigidTy::Slice(t)) => Some(*t),
            TyKind::RigidTy(RigidTy::Array(t, _)) => Some(*t),
            TyKind::RigidTy(RigidTy::Str) => Some(Ty::unsigned_ty(UintTy::U8)),
            _ => None,
        }
    }
    pub fn array_len(&mut self, ty: Ty) -> Option<u64> {
        match &*self.kind(ty) {
            TyKind::RigidTy(RigidTy::Array(_, n)) => n.eval_target_usize().ok(),
            _ => None,
        }
    }
    pub fn name(&mut self, inst: Instance) -> Rc<str> {
        if let Some(n) = self.names.get(&inst) {
            return n.clone();
        }
        let n: Rc<str> = inst.def.name().to_string().into();
        self.names.insert(inst, n.clone());
        n
    }

    // ---------------------------------------------------------------- constants
    pub fn add_alloc(&mut self, a: &Allocation) -> usize {
        let ax = AllocX {
            bytes: a.bytes.clone(),
            prov: a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect(),
        };
        self.allocs.push(Rc::new(ax));
        self.allocs.len() - 1
    }
    pub fn galloc(&mut self, id: rustc_public::mir::alloc::AllocId) -> R<Rc<GA>> {
        if let Some(g) = self.alloc_ids.get(&id) {
            return Ok(g.clone());
        }
        let g = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => GA::Fn(i),
            GlobalAlloc::Static(s) => {
                let a = s.eval_initializer().map_err(|e| format!("static: {e:?}"))?;
                GA::Alloc(self.add_alloc(&a))
            }
            GlobalAlloc::Memory(a) => GA::Alloc(self.add_alloc(&a)),
            GlobalAlloc::VTable(t, _) => GA::Vt(t),
            GlobalAlloc::TypeId { .. } => GA::Other,
        };
        let g = Rc::new(g);
        self.alloc_ids.insert(id, g.clone());
        Ok(g)
    }
    fn read_uint(&self, a: &AllocX, off: usize, n: usize) -> R<u128> {
        let mut v: u128 = 0;
        if off + n > a.bytes.len() {
            bail!("const read out of bounds");
        }
        for i in (0..n).rev() {
            match a.bytes[off + i] {
                Some(b) => v = (v << 8) | b as u128,
                None => bail!("uninit const bytes"),
            }
        }
        Ok(v)
    }
    /// Decode a value of type `ty` at byte offset `off` of constant allocation `ai`.
    pub fn decode(&mut self, ai: usize, off: usize, ty: Ty) -> R<Val> {
        let a = self.allocs[ai].clone();
        if let Some(it) = self.int_ty(ty) {
            let n = if it.bits == 1 { 1 } else { it.bits as usize / 8 };
            let v = self.read_uint(&a, off, n)?;
            return Ok(Val::Num(Num::C(it.wrap_u(v))));
        }
        let k = self.kind(ty);
        match &*k {
            TyKind::RigidTy(RigidTy::Ref(_, p, _)) | TyKind::RigidTy(RigidTy::RawPtr(p, _)) => {
                let p = *p;
                let addr = self.read_uint(&a, off, 8)? as I;
                let pk = self.kind(p);
                let meta = match &*pk {
                    TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) => {
                        Meta::Len(Num::C(self.read_uint(&a, off + 8, 8)? as I))
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => match a.prov.get(&(off + 8)) {
                        Some(id) => match &*self.galloc(*id)? {
                            GA::Vt(t) => Meta::Vt(*t),
                            _ => bail!("dyn meta"),
                        },
                        None => bail!("dyn meta"),
                    },
                    _ => Meta::None,
                };
                match a.prov.get(&off) {
                    Some(id) => match &*self.galloc(*id)? {
                        GA::Alloc(i) => {
                            Ok(Val::Ptr(Rc::new(Ptr { base: Base::Const(*i), path: vec![], off: addr, meta })))
                        }
                        GA::Fn(f) => Ok(Val::Fn(*f)),
                        _ => bail!("pointer constant"),
                    },
                    None => Ok(Val::Ptr(Rc::new(Ptr { base: Base::Dangling, path: vec![], off: addr, meta }))),
                }
            }
            TyKind::RigidTy(RigidTy::FnPtr(_)) => match a.prov.get(&off) {
                Some(id) => match &*self.galloc(*id)? {
                    GA::Fn(f) => Ok(Val::Fn(*f)),
                    _ => bail!("fn ptr constant"),
                },
                None => bail!("null fn ptr"),
            },
            TyKind::RigidTy(RigidTy::FnDef(..)) => Ok(Val::Agg(Rc::new(vec![]))),
            TyKind::RigidTy(RigidTy::Pat(t, _)) => self.decode(ai, off, *t),
            TyKind::RigidTy(RigidTy::Array(t, _)) => {
                let n = self.array_len(ty).ok_or("array len")?;
                let sz = self.size_of(*t)?;
                let mut v = vec![];
                for i in 0..n as usize {
                    v.push(self.decode(ai, off + i * sz, *t)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            TyKind::RigidTy(RigidTy::Tuple(_)) | TyKind::RigidTy(RigidTy::Closure(..)) => {
                let fs = self.fields(ty, 0)?;
                let offs = self.offsets(ty, 0)?;
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    v.push(self.decode(ai, off + offs[i], *f)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            TyKind::RigidTy(RigidTy::Adt(def, _)) => match def.kind() {
                AdtKind::Struct => {
                    let fs = self.fields(ty, 0)?;
                    let offs = self.offsets(ty, 0)?;
                    let mut v = vec![];
                    for (i, f) in fs.iter().enumerate() {
                        v.push(self.decode(ai, off + offs[i], *f)?);
                    }
                    Ok(Val::Agg(Rc::new(v)))
                }
                AdtKind::Enum => {
                    let var = self.decode_variant(ai, off, ty)?;
                    let fs = self.fields(ty, var)?;
                    let offs = self.offsets(ty, var)?;
                    let mut v = vec![];
                    for (i, f) in fs.iter().enumerate() {
                        v.push(self.decode(ai, off + offs[i], *f)?);
                    }
                    Ok(Val::Enum(Num::C(var as I), Rc::new(v)))
                }
                AdtKind::Union => {
                    let fs = self.fields(ty, 0)?;
                    let mut v = vec![];
                    for f in fs.iter() {
                        v.push(self.decode(ai, off, *f).unwrap_or(Val::Undef));
                    }
                    Ok(Val::Agg(Rc::new(v)))
                }
            },
            _ => bail!("decode {ty}"),
        }
    }
    fn offsets(&mut self, ty: Ty, variant: usize) -> R<Vec<usize>> {
        let l = self.layout(ty)?;
        match &l.variants {
            VariantsShape::Multiple { variants, .. } => {
                Ok(variants[variant].offsets.iter().map(|o| o.bytes()).collect())
            }
            _ => match &l.fields {
                FieldsShape::Arbitrary { offsets } => Ok(offsets.iter().map(|o| o.bytes()).collect()),
                FieldsShape::Primitive => Ok(vec![]),
                FieldsShape::Union(n) => Ok(vec![0; n.get()]),
                FieldsShape::Array { stride, count } => {
                    Ok((0..*count as usize).map(|i| i * stride.bytes()).collect())
                }
            },
        }
    }
    fn decode_variant(&mut self, ai: usize, off: usize, ty: Ty) -> R<usize> {
        let l = self.layout(ty)?;
        match &l.variants {
            VariantsShape::Single { index } => Ok(rustc_public_idx(*index)),
            VariantsShape::Empty => bail!("empty enum"),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants: _ } => {
                let toff = match &l.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                    _ => 0,
                };
                let (bits, isptr) = match tag {
                    rustc_public::abi::Scalar::Initialized { value, .. }
                    | rustc_public::abi::Scalar::Union { value } => match value {
                        rustc_public::abi::Primitive::Int { length, .. } => (length.bits(), false),
                        rustc_public::abi::Primitive::Pointer(_) => (64, true),
                        _ => bail!("tag"),
                    },
                };
                let a = self.allocs[ai].clone();
                if isptr && a.prov.contains_key(&(off + toff)) {
                    // a real pointer: the untagged variant
                    if let TagEncoding::Niche { untagged_variant, .. } = tag_encoding {
                        return Ok(rustc_public_idx(*untagged_variant));
                    }
                }
                let raw = self.read_uint(&a, off + toff, bits / 8)?;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let d = self.discr(ty)?;
                        let it = crate::num::IntTy { bits: bits as u32, signed: false, ischar: false };
                        for (i, v) in d.iter().enumerate() {
                            if it.wrap(*v) == raw as I {
                                return Ok(i);
                            }
                        }
                        bail!("bad tag {raw} for {ty}")
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let m: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                        let rel = raw.wrapping_sub(*niche_start) & m;
                        let s = rustc_public_idx(*niche_variants.start());
                        let e = rustc_public_idx(*niche_variants.end());
                        if rel <= (e - s) as u128 {
                            Ok(s + rel as usize)
                        } else {
                            Ok(rustc_public_idx(*untagged_variant))
                        }
                    }
                }
            }
        }
    }
    pub fn mir_const(&mut self, c: &MirConst) -> R<Val> {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => self.zst(ty),
            ConstantKind::Allocated(a) => {
                let i = self.add_alloc(a);
                let n = self.allocs.len();
                let v = self.decode(i, 0, ty)?;
                if self.allocs.len() == n && i == n - 1 && !val_refs_alloc(&v, i) {
                    self.allocs.pop();
                }
                Ok(v)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let i = self.add_alloc(a);
                    self.decode(i, 0, ty)
                }
                TyConstKind::ZSTValue(_) => self.zst(ty),
                k => bail!("ty const {k:?}"),
            },
            k => bail!("const kind {k:?}"),
        }
    }
    pub fn zst(&mut self, ty: Ty) -> R<Val> {
        if self.is_enum(ty) {
            return Ok(Val::Enum(Num::C(0), Rc::new(vec![])));
        }
        if let TyKind::RigidTy(RigidTy::FnDef(..)) = &*self.kind(ty) {
            return Ok(Val::Agg(Rc::new(vec![])));
        }
        if let Some(n) = self.array_len(ty) {
            let e = self.elem_ty(ty).unwrap();
            if n == 0 {
                return Ok(Val::Agg(Rc::new(vec![])));
            }
            let z = self.zst(e)?;
            return Ok(Val::Agg(Rc::new(vec![z; n as usize])));
        }
        let fs = self.fields(ty, 0)?;
        let mut v = vec![];
        for f in fs.iter() {
            v.push(self.zst(*f)?);
        }
        Ok(Val::Agg(Rc::new(v)))
    }

    // ---------------------------------------------------------------- memory
    pub fn read(&mut self, st: &State, p: &Ptr, ty: Ty) -> R<Val> {
        let root: &Val = match &p.base {
            Base::Local(f, l) => {
                if *f >= st.frames.len() {
                    bail!("dangling local");
                }
                &st.frames[*f][*l]
            }
            Base::Heap(h) => &st.heap[*h],
            Base::Const(a) => return self.decode(*a, p.off as usize, ty),
            Base::Dangling => {
                if self.is_zst(ty) {
                    return self.zst(ty);
                }
                bail!("read through dangling pointer")
            }
            Base::Text(_) | Base::Atom(_) => bail!("byte read from an abstract text"),
        };
        let mut v = root;
        for e in &p.path {
            v = match (v, e) {
                (Val::Agg(f), P::F(i)) => f.get(*i).ok_or_else(|| format!("field {i}"))?,
                (Val::Enum(_, f), P::F(i)) => f.get(*i).ok_or_else(|| format!("enum field {i}"))?,
                (Val::Agg(f), P::I(i)) => f.get(*i as usize).ok_or_else(|| format!("index {i} of {}", f.len()))?,
                (Val::Nat(n), P::I(i)) => match &**n {
                    Nat::Vec(f) => f.get(*i as usize).ok_or_else(|| format!("index {i}"))?,
                    _ => bail!("index native"),
                },
                (x, e) => {
                    // transparent access: newtype punning
                    match e {
                        P::I(0) => x,
                        _ => bail!("path {e:?} into {x:?}"),
                    }
                }
            };
        }
        if matches!(v, Val::Undef) && self.is_zst(ty) {
            return self.zst(ty);
        }
        Ok(v.clone())
    }
    pub fn write(&mut self, st: &mut State, p: &Ptr, val: Val) -> R<()> {
        let mut v: &mut Val = match &p.base {
            Base::Local(f, l) => {
                if *f >= st.frames.len() {
                    bail!("dangling local");
                }
                &mut Rc::make_mut(&mut st.frames[*f])[*l]
            }
            Base::Heap(h) => &mut Rc::make_mut(&mut st.heap)[*h],
            _ => bail!("write to constant/dangling memory"),
        };
        for e in &p.path {
            let i = match e {
                P::F(i) => *i,
                P::I(i) => *i as usize,
                P::N(_) => bail!("write at a symbolic index"),
            };
            if matches!(v, Val::Undef) {
                *v = Val::Agg(Rc::new(vec![]));
            }
            v = match v {
                Val::Agg(f) => {
                    let f = Rc::make_mut(f);
                    while f.len() <= i {
                        f.push(Val::Undef);
                    }
                    &mut f[i]
                }
                Val::Enum(_, f) => {
                    let f = Rc::make_mut(f);
                    while f.len() <= i {
                        f.push(Val::Undef);
                    }
                    &mut f[i]
                }
                Val::Nat(n) => match Rc::make_mut(n) {
                    Nat::Vec(f) => {
                        if i >= f.len() {
                            bail!("write past native vec");
                        }
                        &mut f[i]
                    }
                    _ => bail!("write into native"),
                },
                x if matches!(e, P::I(0)) => x,
                x => bail!("write path {e:?} into {x:?}"),
            };
        }
        *v = val;
        Ok(())
    }

    /// Resolve a place; all symbolic indices must have been concretized.
    pub fn place(&mut self, st: &State, body: &BodyX, pl: &Place) -> R<(Ptr, Ty)> {
        let fi = st.frames.len() - 1;
        let mut p = Ptr { base: Base::Local(fi, pl.local), path: vec![], off: 0, meta: Meta::None };
        let mut ty = body.local_tys[pl.local];
        let mut variant = 0usize;
        for e in &pl.projection {
            match e {
                ProjectionElem::Deref => {
                    let v = self.read(st, &p, ty)?;
                    match v {
                        Val::Ptr(q) => {
                            p = (*q).clone();
                            ty = match self.pointee(ty) {
                                Some(t) => t,
                                None => bail!("deref of {ty}"),
                            };
                        }
                        v => bail!("deref of non-pointer {v:?} : {ty}"),
                    }
                    variant = 0;
                }
                ProjectionElem::Field(i, fty) => {
                    if let Base::Const(_) = p.base {
                        let offs = self.offsets(ty, variant)?;
                        p.off += offs[*i] as I;
                    } else {
                        p.path.push(P::F(*i));
                    }
                    // keep metadata only for the unsized tail
                    if !matches!(
                        &*self.kind(*fty),
                        TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str | RigidTy::Dynamic(..))
                    ) {
                        p.meta = Meta::None;
                    }
                    ty = *fty;
                    variant = 0;
                }
                ProjectionElem::Downcast(v) => {
                    variant = rustc_public_idx(*v);
                }
                ProjectionElem::Index(l) => {
                    let n = match &st.frames[fi][*l] {
                        Val::Num(n) => n.clone(),
                        v => bail!("index by {v:?}"),
                    };
                    let i = st.get_const(&n).ok_or("symbolic index")?;
                    ty = self.index_ptr(&mut p, ty, i)?;
                }
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    let len = self.len_of(st, &p, ty)?;
                    let i = if *from_end {
                        st.get_const(&len).ok_or("symbolic length")? - *offset as I
                    } else {
                        *offset as I
                    };
                    ty = self.index_ptr(&mut p, ty, i)?;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let len = self.len_of(st, &p, ty)?;
                    let n = st.get_const(&len).ok_or("symbolic length")?;
                    let hi = if *from_end { n - *to as I } else { *to as I };
                    let isarr = self.array_len(ty).is_some();
                    if isarr {
                        bail!("subslice of array");
                    }
                    let ety = self.elem_ty(ty).ok_or("elem")?;
                    let sz = self.size_of(ety)?;
                    ptr_add(&mut p, *from as I, sz);
                    p.meta = Meta::Len(Num::C(hi - *from as I));
                }
                ProjectionElem::OpaqueCast(t) => ty = *t,
            }
        }
        Ok((p, ty))
    }
    pub fn len_of(&mut self, _st: &State, p: &Ptr, ty: Ty) -> R<Num> {
        if let Some(n) = self.array_len(ty) {
            return Ok(Num::C(n as I));
        }
        match &p.meta {
            Meta::Len(n) => Ok(n.clone()),
            _ => bail!("length of {ty}"),
        }
    }
    pub fn index_ptr(&mut self, p: &mut Ptr, ty: Ty, i: I) -> R<Ty> {
        let ety = self.elem_ty(ty).ok_or_else(|| format!("index into {ty}"))?;
        let sz = self.size_of(ety)?;
        if self.array_len(ty).is_some() {
            if let Base::Const(_) = p.base {
                p.off += i * sz as I;
            } else {
                p.path.push(P::I(i));
            }
        } else {
            ptr_add(p, i, sz);
        }
        p.meta = Meta::None;
        Ok(ety)
    }

    // ---------------------------------------------------------------- numbers
    /// Split a state on `a op b`; each result carries the truth value.
    pub fn cmp_split(&mut self, st: State, op: BinOp, a: &Num, b: &Num) -> Vec<(State, bool)> {
        self.oblig += 1;
        if let (Num::C(x), Num::C(y)) = (a, b) {
            let r = cmp_const(op, *x, *y);
            return vec![(st, r)];
        }
        if let (Some(la), Some(lb)) = (a.lin(), b.lin()) {
            if let Some(d) = lin_comb(&la, 1, &lb, -1) {
                if d.t.is_empty() {
                    return vec![(st, cmp_const(op, d.c, 0))];
                }
                let (lo, hi) = st.bounds(&Num::L(Rc::new(d.clone())));
                // truth from bounds
                if let Some(r) = cmp_bounds(op, lo, hi) {
                    return vec![(st, r)];
                }
                if d.t.len() == 1 {
                    let (s, k) = d.t[0];
                    let set = st.set(s).clone();
                    let tset = solve_single(&set, k, d.c, op);
                    let fset = set.minus(&tset);
                    let mut out = two_way(st, s, tset, fset);
                    out.retain_mut(|x| x.0.texts.is_empty() || propagate(&mut x.0, s));
                    return out;
                }
                // relational constraint
                return self.split_multi(st, &d, op, lo, hi);
            }
        }
        // expressions over one symbol
        let ea = a.single_expr();
        let eb = b.single_expr();
        let sa = ea.as_ref().map(|x| x.0);
        let sb = eb.as_ref().map(|x| x.0);
        let s = match (sa, sb) {
            (Some(x), Some(y)) if x == y => Some(x),
            (Some(x), None) if b.as_const().is_some() => Some(x),
            (None, Some(y)) if a.as_const().is_some() => Some(y),
            _ => None,
        };
        if let Some(s) = s {
            let set = st.set(s).clone();
            if set.count() <= 1 << 22 {
                let ev = |n: &Num, e: &Option<(Sym, Rc<E>)>, x: I| -> Option<I> {
                    match n {
                        Num::C(c) => Some(*c),
                        _ => e.as_ref().unwrap().1.eval(x),
                    }
                };
                let tset = set.filter(|x| match (ev(a, &ea, x), ev(b, &eb, x)) {
                    (Some(u), Some(v)) => cmp_const(op, u, v),
                    _ => false,
                });
                let fset = set.minus(&tset);
                return two_way(st, s, tset, fset);
            }
        }
        let (alo, ahi) = st.bounds(a);
        let (blo, bhi) = st.bounds(b);
        if let Some(r) = cmp_bounds(op, alo.saturating_sub(bhi), ahi.saturating_sub(blo)) {
            return vec![(st, r)];
        }
        vec![(st.clone(), true), (st, false)]
    }
    fn split_multi(&mut self, st: State, d: &Lin, op: BinOp, lo: I, hi: I) -> Vec<(State, bool)> {
        // d op 0
        let mut out = vec![];
        let mut pieces: Vec<(I, I, bool)> = vec![];
        match op {
            BinOp::Lt => {
                pieces.push((lo, -1, true));
                pieces.push((0, hi, false));
            }
            BinOp::Le => {
                pieces.push((lo, 0, true));
                pieces.push((1, hi, false));
            }
            BinOp::Gt => {
                pieces.push((1, hi, true));
                pieces.push((lo, 0, false));
            }
            BinOp::Ge => {
                pieces.push((0, hi, true));
                pieces.push((lo, -1, false));
            }
            BinOp::Eq => {
                pieces.push((0, 0, true));
                pieces.push((lo, -1, false));
                pieces.push((1, hi, false));
            }
            BinOp::Ne => {
                pieces.push((0, 0, false));
                pieces.push((lo, -1, true));
                pieces.push((1, hi, true));
            }
            _ => unreachable!(),
        }
        for (a, b, r) in pieces {
            if a > b {
                continue;
            }
            let mut s2 = st.clone();
            if self.constrain(&mut s2, d, a, b) {
                out.push((s2, r));
            }
        }
        out
    }
    /// Assume lo <= d <= hi (d multi-symbol); returns false if infeasible.
    pub fn constrain(&mut self, st: &mut State, d: &Lin, lo: I, hi: I) -> bool {
        if d.t.is_empty() {
            return lo <= d.c && d.c <= hi;
        }
        if d.t.len() == 1 {
            let (s, k) = d.t[0];
            let set = st.set(s).clone();
            let r1 = solve_single(&set, k, d.c - lo, BinOp::Ge);
            let r2 = solve_single(&r1, k, d.c - hi, BinOp::Le);
            if r2.is_empty() {
                return false;
            }
            st.set_sym(s, r2);
            return st.texts.is_empty() || propagate(st, s);
        }
        let (key, c, g, neg) = norm_key(d);
        // lo <= sgn*g*key + c <= hi
        let (mut a, mut b) = (lo - c, hi - c);
        if neg {
            let t = a;
            a = -b;
            b = -t;
        }
        let a = div_ceil(a, g);
        let b = b.div_euclid(g);
        let (mut l0, mut h0) = st.bounds(&Num::L(Rc::new(Lin { t: key.clone(), c: 0 })));
        l0 = l0.max(a);
        h0 = h0.min(b);
        if l0 > h0 {
            return false;
        }
        Rc::make_mut(&mut st.cons).insert(key.clone(), (l0, h0));
        if key.len() == 2 && key[0].1 == 1 && key[1].1 == -1 {
            return close_differences(st);
        }
        // interval propagation to each symbol
        for i in 0..key.len() {
            let (s, k) = key[i];
            let (mut rlo, mut rhi) = (0i128, 0i128);
            for (j, &(s2, k2)) in key.iter().enumerate() {
                if i == j {
                    continue;
                }
                let set = st.set(s2);
                let (x, y) = (set.min() * k2, set.max() * k2);
                rlo += x.min(y);
                rhi += x.max(y);
            }
            // l0 - rhi <= k*s <= h0 - rlo
            let (x, y) = (l0 - rhi, h0 - rlo);
            let (x, y) = if k > 0 {
                (div_ceil(x, k), y.div_euclid(k))
            } else {
                (div_ceil(-y, -k), (-x).div_euclid(-k))
            };
            let set = st.set(s).clip(x, y);
            if set.is_empty() {
                return false;
            }
            if set != *st.set(s) {
                st.set_sym(s, set);
            }
        }
        // pairwise combinations with the other constraints (cancels shared symbols)
        let others: Vec<(Vec<(Sym, I)>, (I, I))> =
            st.cons.iter().filter(|(k, _)| **k != key).map(|(k, b)| (k.clone(), *b)).collect();
        for (k2, (l2, h2)) in others {
            for sg in [1, -1] {
                let mut t: BTreeMap<Sym, I> = k2.iter().copied().collect();
                for &(s, k) in &key {
                    *t.entry(s).or_insert(0) += sg * k;
                }
                t.retain(|_, k| *k != 0);
                if t.len() >= key.len().max(k2.len()) {
                    continue;
                }
                let (lo, hi) = if sg > 0 { (l0 + l2, h0 + h2) } else { (l2 - h0, h2 - l0) };
                let lin = Lin { t: t.into_iter().collect(), c: 0 };
                if lin.t.len() <= 1 {
                    if !self.constrain(st, &lin, lo, hi) {
                        return false;
                    }
                } else {
                    let (x, y) = st.bounds(&Num::L(Rc::new(lin)));
                    if x > hi || y < lo {
                        return false;
                    }
                }
            }
        }
        true
    }
    /// exact mathematical result (no wrapping) of an arithmetic operation
    pub fn arith(&mut self, st: &mut State, op: Op, a: &Num, b: &Num) -> R<Num> {
        if let (Num::C(x), Num::C(y)) = (a, b) {
            return op_eval(op, *x, *y).map(Num::C).ok_or_else(|| format!("{op:?} {x} {y}"));
        }
        match op {
            Op::Add | Op::Sub => {
                if let (Some(x), Some(y)) = (a.lin(), b.lin()) {
                    if let Some(l) = lin_comb(&x, 1, &y, if op == Op::Add { 1 } else { -1 }) {
                        return Ok(Num::from_lin(l));
                    }
                }
            }
            Op::Mul => {
                let (c, o) = if let Num::C(c) = a { (Some(*c), b) } else if let Num::C(c) = b { (Some(*c), a) } else { (None, a) };
                if let (Some(c), Some(l)) = (c, o.lin()) {
                    if let Some(l) = lin_comb(&l, c, &Lin { t: vec![], c: 0 }, 0) {
                        return Ok(Num::from_lin(l));
                    }
                }
            }
            // the low part of a linear term whose coefficients are multiples of the modulus
            Op::Rem | Op::And => {
                for (x, y) in [(a, b), (b, a)] {
                    if let (Some(l), Num::C(c)) = (x.lin(), y) {
                        let m = if op == Op::And { *c + 1 } else { *c };
                        let pow = op == Op::Rem || m & (m - 1) == 0;
                        if m > 0 && pow && (op == Op::And || std::ptr::eq(x, a)) && l.t.iter().all(|t| t.1 % m == 0) && st.bounds(x).0 >= 0 {
                            return Ok(Num::C(l.c.rem_euclid(m)));
                        }
                    }
                }
            }
            Op::Shl => {
                if let (Num::C(c), Some(l)) = (b, a.lin()) {
                    if *c >= 0 && *c < 100 {
                        if let Some(l) = lin_comb(&l, 1i128 << *c, &Lin { t: vec![], c: 0 }, 0) {
                            return Ok(Num::from_lin(l));
                        }
                    }
                }
            }
            _ => {}
        }
        // single-symbol expression
        let ea = a.single_expr();
        let eb = b.single_expr();
        let (xa, xb) = (
            a.as_const().map(|c| Rc::new(E::C(c))).or(ea.as_ref().map(|x| x.1.clone())),
            b.as_const().map(|c| Rc::new(E::C(c))).or(eb.as_ref().map(|x| x.1.clone())),
        );
        let same = match (&ea, &eb) {
            (Some(x), Some(y)) => x.0 == y.0,
            _ => true,
        };
        if let (true, Some(xa), Some(xb)) = (same, xa, xb) {
            let s = ea.map(|x| x.0).or(eb.map(|x| x.0)).unwrap();
            let n = Num::F(s, Rc::new(E::Bin(op, xa, xb)));
            // fold when constant over a small set
            let set = st.set(s);
            if set.count() <= 1 << 21 {
                let (lo, hi) = st.bounds(&n);
                if lo == hi {
                    return Ok(Num::C(lo));
                }
            }
            return Ok(n);
        }
        let (a0, a1) = st.bounds(a);
        let (b0, b1) = st.bounds(b);
        let (lo, hi) = bin_bounds(op, a0, a1, b0, b1);
        Ok(st.fresh(ISet::range(lo, hi)))
    }
    /// Bring an exact number into the range of a machine type; flag says whether it wrapped.
    pub fn wrap_to(&mut self, st: State, n: Num, t: crate::num::IntTy) -> Vec<(State, Num, bool)> {
        let (lo, hi) = st.bounds(&n);
        let (mn, mx) = (t.min(), if t.ischar { u32::MAX as I } else { t.max() });
        if lo >= mn && hi <= mx {
            return vec![(st, n, false)];
        }
        let mut out = vec![];
        for (s1, ge) in self.cmp_split(st, BinOp::Ge, &n, &Num::C(mn)) {
            if !ge {
                let r = self.wrapped(s1, &n, t);
                out.push((r.0, r.1, true));
                continue;
            }
            for (s2, le) in self.cmp_split(s1, BinOp::Le, &n, &Num::C(mx)) {
                if le {
                    out.push((s2, n.clone(), false));
                } else {
                    let r = self.wrapped(s2, &n, t);
                    out.push((r.0, r.1, true));
                }
            }
        }
        out
    }
    fn wrapped(&mut self, mut st: State, n: &Num, t: crate::num::IntTy) -> (State, Num) {
        if t.bits >= 127 {
            let f = st.fresh(t.full());
            return (st, f);
        }
        let m = 1i128 << t.bits;
        let (lo, hi) = st.bounds(n);
        if let Some(l) = n.lin() {
            let q = lo.div_euclid(m);
            // same wrap window for the whole interval?
            let (wl, wh) = (lo - q * m, hi - q * m);
            for shift in [q * m, (q + 1) * m] {
                let (a, b) = (lo - shift, hi - shift);
                if a >= t.min() && b <= t.max() {
                    let mut l = l.clone();
                    l.c -= shift;
                    return (st, Num::from_lin(l));
                }
            }
            let _ = (wl, wh);
        }
        if let Some((s, e)) = n.single_expr() {
            if st.set(s).count() <= 1 << 22 {
                return (st, Num::F(s, Rc::new(E::Wrap(t, e))));
            }
        }
        let f = st.fresh(t.full());
        (st, f)
    }

    // ---------------------------------------------------------------- rvalues
    pub fn operand(&mut self, st: &State, body: &BodyX, op: &Operand) -> R<Val> {
        match op {
            Operand::Copy(p) | Operand::Move(p) => {
                if p.projection.is_empty() {
                    let v = st.frames[st.frames.len() - 1][p.local].clone();
                    if matches!(v, Val::Undef) {
                        let ty = body.local_tys[p.local];
                        if self.is_zst(ty) {
                            return self.zst(ty);
                        }
                    }
                    return Ok(v);
                }
                let (ptr, ty) = self.place(st, body, p)?;
                self.read(st, &ptr, ty)
            }
            Operand::Constant(c) => self.mir_const(&c.const_),
            Operand::RuntimeChecks(_) => Ok(Val::Num(Num::C(0))),
        }
    }
    pub fn operand_ty(&mut self, body: &BodyX, op: &Operand) -> R<Ty> {
        match op {
            Operand::Copy(p) | Operand::Move(p) if p.projection.is_empty() => Ok(body.local_tys[p.local]),
            Operand::Constant(c) => Ok(c.const_.ty()),
            _ => op.ty(body.b.locals()).map_err(|e| format!("{e:?}")),
        }
    }
    pub fn num(&self, v: &Val) -> R<Num> {
        match v {
            Val::Num(n) => Ok(n.clone()),
            Val::Enum(n, f) if f.is_empty() => Ok(n.clone()),
            v => bail!("expected number, got {v:?}"),
        }
    }
    fn binop(&mut self, mut st: State, op: BinOp, a: Val, b: Val, aty: Ty, checked: bool) -> R<Vec<(State, Val)>> {
        use BinOp::*;
        // pointer comparisons
        // a raw pointer written through a pointer to NonNull
        let (a, b) = match (&a, &b) {
            (Val::Agg(_), Val::Ptr(_)) => (self.ptr_of(&a).map(Val::Ptr).unwrap_or(a), b),
            (Val::Ptr(_), Val::Agg(_)) => (a, self.ptr_of(&b).map(Val::Ptr).unwrap_or(b)),
            _ => (a, b),
        };
        if let (Val::Ptr(p), Val::Ptr(q)) = (&a, &b) {
            if let (Base::Text(t), Base::Text(u), Eq | Ne | Lt | Le | Gt | Ge) = (&p.base, &q.base, op) {
                if t == u {
                    let (x, y) = (crate::text::text_pos(p)?, crate::text::text_pos(q)?);
                    return Ok(self
                        .cmp_split(st, op, &x, &y)
                        .into_iter()
                        .map(|(s, r)| (s, Val::Num(Num::C(r as I))))
                        .collect());
                }
            }
            let same_obj = p.base == q.base;
            let r = match op {
                Eq | Ne | Lt | Le | Gt | Ge => {
                    let c = ptr_pos_cmp(p, q);
                    match (op, c) {
                        (Eq, Some(o)) => o == std::cmp::Ordering::Equal,
                        (Ne, Some(o)) => o != std::cmp::Ordering::Equal,
                        (Lt, Some(o)) => o == std::cmp::Ordering::Less,
                        (Le, Some(o)) => o != std::cmp::Ordering::Greater,
                        (Gt, Some(o)) => o == std::cmp::Ordering::Greater,
                        (Ge, Some(o)) => o != std::cmp::Ordering::Less,
                        (Eq, None) if !same_obj => false,
                        (Ne, None) if !same_obj => true,
                        _ => bail!("pointer comparison"),
                    }
                }
                _ => bail!("pointer op {op:?}"),
            };
            return Ok(vec![(st, Val::Num(Num::C(r as I)))]);
        }
        // a pointer reinterpreted as an integer (tagged pointers of fmt::Arguments)
        let a = match (&a, op) {
            (Val::Ptr(p), BitAnd | Shr | Add | Sub | Div | Mul | Eq | Ne) if p.base == Base::Dangling => Val::Num(Num::C(p.off)),
            (Val::Ptr(p), BitAnd) if matches!(p.base, Base::Local(..) | Base::Heap(_)) => {
                let n = self.num(&b)?;
                if st.get_const(&n) == Some(1) && self.int_ty(aty).is_some() {
                    return Ok(vec![(st, Val::Num(Num::C(0)))]);
                }
                a
            }
            _ => a,
        };
        if op == Offset {
            let n = self.num(&b)?;
            if let Val::Ptr(p) = &a {
                if let Base::Text(_) = p.base {
                    return Ok(vec![(st, crate::text::text_add(p, &n)?)]);
                }
            }
            let i = st.get_const(&n).ok_or("symbolic pointer offset")?;
            if let Val::Ptr(p) = a {
                let pt = self.pointee(aty).ok_or("offset type")?;
                let sz = self.size_of(pt)?;
                let mut q = (*p).clone();
                ptr_add(&mut q, i, sz);
                return Ok(vec![(st, Val::Ptr(Rc::new(q)))]);
            }
            bail!("offset of non pointer");
        }
        if let (Val::Agg(x), Val::Agg(y)) = (&a, &b) {
            // unit comparison
            if x.is_empty() && y.is_empty() {
                return Ok(vec![(st, Val::Num(Num::C(matches!(op, Eq | Le | Ge) as I)))]);
            }
        }
        let (x, y) = (self.num(&a)?, self.num(&b)?);
        match op {
            Eq | Ne | Lt | Le | Gt | Ge => Ok(self
                .cmp_split(st, op, &x, &y)
                .into_iter()
                .map(|(s, r)| (s, Val::Num(Num::C(r as I))))
                .collect()),
            Cmp => {
                let mut out = vec![];
                for (s, lt) in self.cmp_split(st, Lt, &x, &y) {
                    if lt {
                        out.push((s, Val::Enum(Num::C(0), Rc::new(vec![]))));
                    } else {
                        for (s, eq) in self.cmp_split(s, Eq, &x, &y) {
                            out.push((s, Val::Enum(Num::C(if eq { 1 } else { 2 }), Rc::new(vec![]))));
                        }
                    }
                }
                Ok(out)
            }
            _ => {
                let t = self.int_ty(aty).ok_or_else(|| format!("arith on {aty}"))?;
                let o = match op {
                    Add | AddUnchecked => Op::Add,
                    Sub | SubUnchecked => Op::Sub,
                    Mul | MulUnchecked => Op::Mul,
                    Div => Op::Div,
                    Rem => Op::Rem,
                    BitXor => Op::Xor,
                    BitAnd => Op::And,
                    BitOr => Op::Or,
                    Shl | ShlUnchecked => Op::Shl,
                    Shr | ShrUnchecked => Op::Shr,
                    _ => bail!("binop {op:?}"),
                };
                // bitwise on bools / signed: only non-negative or const supported exactly by E; fine
                let mut y = y;
                if matches!(op, Shl | Shr) {
                    let (lo, hi) = st.bounds(&y);
                    if lo < 0 || hi >= t.bits as I {
                        if let Num::C(c) = y {
                            y = Num::C(c.rem_euclid(t.bits as I));
                        } else {
                            bail!("symbolic shift amount out of range");
                        }
                    }
                }
                let n = self.arith(&mut st, o, &x, &y)?;
                let mut out = vec![];
                for (s, v, ov) in self.wrap_to(st, n, t) {
                    if checked {
                        out.push((s, Val::Agg(Rc::new(vec![Val::Num(v), Val::Num(Num::C(ov as I))]))));
                    } else {
                        out.push((s, Val::Num(v)));
                    }
                }
                Ok(out)
            }
        }
    }
    pub fn variant_to_discr(&mut self, st: &State, n: &Num, ty: Ty) -> R<Num> {
        let d = self.discr(ty)?;
        if let Some(c) = st.get_const(n) {
            return Ok(Num::C(*d.get(c as usize).ok_or("variant")?));
        }
        if d.iter().enumerate().all(|(i, v)| i as I == *v) {
            return Ok(n.clone());
        }
        let (s, e) = n.single_expr().ok_or("symbolic discriminant")?;
        let tab: Vec<(I, I)> = d.iter().enumerate().map(|(i, v)| (i as I, *v)).collect();
        Ok(Num::F(s, Rc::new(E::Tab(Rc::new(tab), e))))
    }
    pub fn discr_to_variant(&mut self, st: &State, n: &Num, ty: Ty) -> R<Num> {
        let d = self.discr(ty)?;
        if let Some(c) = st.get_const(n) {
            return d.iter().position(|v| *v == c).map(|i| Num::C(i as I)).ok_or("bad discr".into());
        }
        if d.iter().enumerate().all(|(i, v)| i as I == *v) {
            return Ok(n.clone());
        }
        let (s, e) = n.single_expr().ok_or("symbolic discriminant")?;
        let mut tab: Vec<(I, I)> = d.iter().enumerate().map(|(i, v)| (*v, i as I)).collect();
        tab.sort();
        Ok(Num::F(s, Rc::new(E::Tab(Rc::new(tab), e))))
    }
    pub fn discriminant(&mut self, st: &State, v: &Val, ty: Ty) -> R<Num> {
        match v {
            Val::Enum(n, _) => self.variant_to_discr(st, n, ty),
            Val::Num(n) => Ok(n.clone()),
            Val::Agg(_) => Ok(Num::C(0)),
            v => bail!("discriminant of {v:?}"),
        }
    }
    fn rvalue(&mut self, st: State, body: &BodyX, rv: &Rvalue, dest_ty: Ty) -> R<Vec<(State, Val)>> {
        match rv {
            Rvalue::Use(op, _) => {
                let v = self.operand(&st, body, op)?;
                Ok(vec![(st, v)])
            }
            Rvalue::CopyForDeref(p) => {
                let (ptr, ty) = self.place(&st, body, p)?;
                let v = self.read(&st, &ptr, ty)?;
                Ok(vec![(st, v)])
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => {
                let (ptr, _) = self.place(&st, body, p)?;
                Ok(vec![(st, Val::Ptr(Rc::new(ptr)))])
            }
            Rvalue::Reborrow(_, _, p) => {
                let (ptr, ty) = self.place(&st, body, p)?;
                let v = self.read(&st, &ptr, ty)?;
                Ok(vec![(st, v)])
            }
            Rvalue::Len(p) => {
                let (ptr, ty) = self.place(&st, body, p)?;
                let n = self.len_of(&st, &ptr, ty)?;
                Ok(vec![(st, Val::Num(n))])
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (x, y) = (self.operand(&st, body, a)?, self.operand(&st, body, b)?);
                let t = self.operand_ty(body, a)?;
                self.binop(st, *op, x, y, t, false)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (x, y) = (self.operand(&st, body, a)?, self.operand(&st, body, b)?);
                let t = self.operand_ty(body, a)?;
                self.binop(st, *op, x, y, t, true)
            }
            Rvalue::UnaryOp(op, a) => {
                let v = self.operand(&st, body, a)?;
                let t = self.operand_ty(body, a)?;
                match op {
                    UnOp::PtrMetadata => match v {
                        Val::Ptr(p) => match &p.meta {
                            Meta::Len(n) => Ok(vec![(st, Val::Num(n.clone()))]),
                            Meta::None => Ok(vec![(st, Val::Agg(Rc::new(vec![])))]),
                            Meta::Vt(_) => bail!("vtable metadata"),
                        },
                        _ => bail!("metadata of non pointer"),
                    },
                    UnOp::Not => {
                        let it = self.int_ty(t).ok_or("not")?;
                        let n = self.num(&v)?;
                        let mut st = st;
                        let base = if it.signed { -1 } else { it.max() };
                        let r = self.arith(&mut st, Op::Sub, &Num::C(base), &n)?;
                        Ok(vec![(st, Val::Num(r))])
                    }
                    UnOp::Neg => {
                        let it = self.int_ty(t).ok_or("neg")?;
                        let n = self.num(&v)?;
                        let mut st = st;
                        let r = self.arith(&mut st, Op::Sub, &Num::C(0), &n)?;
                        Ok(self.wrap_to(st, r, it).into_iter().map(|(s, n, _)| (s, Val::Num(n))).collect())
                    }
                }
            }
            Rvalue::Discriminant(p) => {
                let (ptr, ty) = self.place(&st, body, p)?;
                let v = self.read(&st, &ptr, ty)?;
                let n = self.discriminant(&st, &v, ty)?;
                Ok(vec![(st, Val::Num(n))])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut fs = vec![];
                for o in ops {
                    fs.push(self.operand(&st, body, o)?);
                }
                let v = match k {
                    AggregateKind::Adt(def, v, _, _, fidx) => match def.kind() {
                        AdtKind::Enum => Val::Enum(Num::C(rustc_public_idx(*v) as I), Rc::new(fs)),
                        AdtKind::Union => {
                            let i = fidx.unwrap_or(0);
                            let n = def.variants()[0].fields().len();
                            let mut a = vec![Val::Undef; n];
                            a[i] = fs.pop().unwrap_or(Val::Undef);
                            Val::Agg(Rc::new(a))
                        }
                        _ => Val::Agg(Rc::new(fs)),
                    },
                    AggregateKind::RawPtr(t, _) => {
                        let meta = fs.pop().ok_or("rawptr")?;
                        let data = fs.pop().ok_or("rawptr")?;
                        match data {
                            Val::Ptr(p) => {
                                let mut q = (*p).clone();
                                let pk = self.kind(*t);
                                q.meta = match &*pk {
                                    TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str) => Meta::Len(self.num(&meta)?),
                                    _ => Meta::None,
                                };
                                Val::Ptr(Rc::new(q))
                            }
                            _ => bail!("rawptr aggregate"),
                        }
                    }
                    _ => Val::Agg(Rc::new(fs)),
                };
                Ok(vec![(st, v)])
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(&st, body, o)?;
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                if n > 65536 {
                    bail!("huge repeat");
                }
                Ok(vec![(st, Val::Agg(Rc::new(vec![v; n as usize])))])
            }
            Rvalue::Cast(k, o, t) => {
                let v = self.operand(&st, body, o)?;
                let from = self.operand_ty(body, o)?;
                self.cast(st, *k, v, from, *t)
            }
            Rvalue::ThreadLocalRef(_) => bail!("thread local"),
        }
        .map(|v| {
            let _ = dest_ty;
            v
        })
    }
    fn cast(&mut self, st: State, k: CastKind, v: Val, from: Ty, to: Ty) -> R<Vec<(State, Val)>> {
        match k {
            CastKind::IntToInt => {
                let n = match &v {
                    Val::Enum(n, _) => self.variant_to_discr(&st, n, from)?,
                    _ => self.num(&v)?,
                };
                let t = self.int_ty(to).ok_or("cast type")?;
                Ok(self.wrap_to(st, n, t).into_iter().map(|(s, n, _)| (s, Val::Num(n))).collect())
            }
            CastKind::PointerCoercion(pc) => match pc {
                PointerCoercion::MutToConstPointer | PointerCoercion::UnsafeFnPointer => Ok(vec![(st, v)]),
                PointerCoercion::ReifyFnPointer(_) => {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = &*self.kind(from) {
                        let i = self.resolve(*d, a)?;
                        return Ok(vec![(st, Val::Fn(i))]);
                    }
                    bail!("reify {from}")
                }
                PointerCoercion::ClosureFnPointer(_) => {
                    if let TyKind::RigidTy(RigidTy::Closure(d, a)) = &*self.kind(from) {
                        // non-capturing, so the `Fn` body (which never reads its environment) is the callee
                        let i = Instance::resolve_closure(*d, a, ClosureKind::Fn).map_err(|e| format!("{e:?}"))?;
                        return Ok(vec![(st, Val::Fn(i))]);
                    }
                    bail!("closure fn pointer {from}")
                }
                PointerCoercion::ArrayToPointer => {
                    if let Val::Ptr(p) = v {
                        let mut q = (*p).clone();
                        if !matches!(q.base, Base::Const(_)) {
                            q.path.push(P::I(0));
                        }
                        return Ok(vec![(st, Val::Ptr(Rc::new(q)))]);
                    }
                    bail!("array to pointer")
                }
                PointerCoercion::Unsize => {
                    let (fp, tp) = match (self.pointee(from), self.pointee(to)) {
                        (Some(a), Some(b)) => (a, b),
                        _ => bail!("unsize {from} -> {to}"),
                    };
                    if let Val::Ptr(p) = v {
                        let mut q = (*p).clone();
                        if let Some(n) = self.array_len(fp) {
                            if !matches!(q.base, Base::Const(_)) {
                                q.path.push(P::I(0));
                            }
                            q.meta = Meta::Len(Num::C(n as I));
                        } else if matches!(&*self.kind(tp), TyKind::RigidTy(RigidTy::Dynamic(..))) {
                            if q.meta == Meta::None {
                                q.meta = Meta::Vt(fp);
                            }
                        } else {
                            bail!("unsize {from} -> {to}");
                        }
                        return Ok(vec![(st, Val::Ptr(Rc::new(q)))]);
                    }
                    bail!("unsize value")
                }
            },
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                let (fp, tp) = (self.pointee(from), self.pointee(to));
                if let (Val::Ptr(p), Some(fp), Some(tp)) = (&v, fp, tp) {
                    let mut q = (**p).clone();
                    let tk = self.kind(tp);
                    let unsized_to =
                        matches!(&*tk, TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str | RigidTy::Dynamic(..)));
                    if !unsized_to {
                        q.meta = Meta::None;
                    }
                    if self.array_len(fp).is_some()
                        && self.array_len(tp).is_none()
                        && !unsized_to
                        && !matches!(q.base, Base::Const(_) | Base::Dangling)
                    {
                        q.path.push(P::I(0));
                    }
                    return Ok(vec![(st, Val::Ptr(Rc::new(q)))]);
                }
                Ok(vec![(st, v)])
            }
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => {
                // the address of an allocation: aligned, not null
                if let (Val::Ptr(p), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize))) = (&v, &*self.kind(to)) {
                    if let (Base::Heap(h), true) = (&p.base, p.path.is_empty()) {
                        return Ok(vec![(st, Val::Num(Num::C(((*h as I) + 1) << 20)))]);
                    }
                }
                let r = self.transmute(&st, v, from, to)?;
                Ok(vec![(st, r)])
            }
            CastKind::PointerExposeAddress | CastKind::PointerWithExposedProvenance => match v {
                Val::Ptr(p) if p.base == Base::Dangling => Ok(vec![(st, Val::Num(Num::C(p.off)))]),
                Val::Ptr(p) if matches!(p.base, Base::Text(_)) => {
                    let n = crate::text::text_addr(&st, &p)?;
                    Ok(vec![(st, Val::Num(n))])
                }
                _ => bail!("pointer/integer cast"),
            },
            _ => bail!("cast {k:?}"),
        }
    }
    /// the unique non-ZST field of a struct type
    fn newtype_field(&mut self, ty: Ty) -> R<Option<(usize, Ty)>> {
        let k = self.kind(ty);
        let ok = match &*k {
            TyKind::RigidTy(RigidTy::Adt(d, _)) => d.kind() == AdtKind::Struct || d.kind() == AdtKind::Union,
            TyKind::RigidTy(RigidTy::Tuple(_)) => true,
            _ => false,
        };
        if !ok {
            return Ok(None);
        }
        let fs = self.fields(ty, 0)?;
        let mut found = None;
        for (i, f) in fs.iter().enumerate() {
            if !self.is_zst(*f) {
                if found.is_some() {
                    return Ok(None);
                }
                found = Some((i, *f));
            }
        }
        Ok(found)
    }
    pub fn transmute(&mut self, st: &State, v: Val, from: Ty, to: Ty) -> R<Val> {
        if from == to {
            return Ok(v);
        }
        if let Some((i, ft)) = self.newtype_field(from)? {
            // a raw pointer read through a pointer to NonNull
            if matches!(v, Val::Ptr(_)) {
                return self.transmute(st, v, ft, to);
            }
            if self.newtype_field(to)?.is_none() || !matches!(v, Val::Agg(_)) {
                if let Val::Agg(f) = &v {
                    let inner = f.get(i).cloned().unwrap_or(Val::Undef);
                    return self.transmute(st, inner, ft, to);
                }
            } else if let Val::Agg(f) = &v {
                let inner = f.get(i).cloned().unwrap_or(Val::Undef);
                return self.transmute(st, inner, ft, to);
            }
        }
        if let Some((i, tt)) = self.newtype_field(to)? {
            let inner = self.transmute(st, v, from, tt)?;
            let fs = self.fields(to, 0)?;
            let mut out = vec![];
            for (j, f) in fs.iter().enumerate() {
                if j == i { out.push(inner.clone()) } else { out.push(self.zst(*f).unwrap_or(Val::Undef)) }
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        if let TyKind::RigidTy(RigidTy::Pat(t, _)) = &*self.kind(to) {
            return self.transmute(st, v, from, *t);
        }
        if let TyKind::RigidTy(RigidTy::Pat(f, _)) = &*self.kind(from) {
            return self.transmute(st, v, *f, to);
        }
        let (fi, ti) = (self.int_ty(from), self.int_ty(to));
        if let (Some(f), Some(t)) = (fi, ti) {
            let n = self.num(&v)?;
            let (lo, hi) = st.bounds(&n);
            if f.signed == t.signed || (lo >= 0 && hi <= t.max()) || (lo >= t.min() && hi <= t.max()) {
                return Ok(Val::Num(n));
            }
            bail!("int transmute");
        }
        if self.is_enum(from) && ti.is_some() {
            if let Val::Enum(n, f) = &v {
                if f.is_empty() {
                    return Ok(Val::Num(self.variant_to_discr(st, n, from)?));
                }
            }
        }
        if fi.is_some() && self.is_enum(to) {
            let n = self.num(&v)?;
            return Ok(Val::Enum(self.discr_to_variant(st, &n, to)?, Rc::new(vec![])));
        }
        if let (Some(fp), Some(tp)) = (self.pointee(from), self.pointee(to)) {
            if let Val::Ptr(p) = &v {
                if self.array_len(fp).is_some()
                    && self.array_len(tp).is_none()
                    && p.meta == Meta::None
                    && !matches!(p.base, Base::Const(_) | Base::Dangling)
                {
                    let mut q = (**p).clone();
                    q.path.push(P::I(0));
                    return Ok(Val::Ptr(Rc::new(q)));
                }
            }
            return Ok(v);
        }
        if matches!(&v, Val::Fn(_)) && matches!(&*self.kind(to), TyKind::RigidTy(RigidTy::FnPtr(_))) {
            return Ok(v);
        }
        // byte arrays
        if let (Some(n), Some(_)) = (self.array_len(from), ti) {
            if let (Val::Agg(bs), true) = (&v, n <= 8) {
                let mut l = Lin { t: vec![], c: 0 };
                let mut ok = true;
                for (i, b) in bs.iter().enumerate() {
                    match self.num(b)?.lin().and_then(|x| lin_comb(&l, 1, &x, 1 << (8 * i))) {
                        Some(r) => l = r,
                        None => ok = false,
                    }
                }
                if ok {
                    return Ok(Val::Num(Num::from_lin(l)));
                }
            }
        }
        if matches!(&v, Val::Ptr(_)) && matches!(&*self.kind(to), TyKind::RigidTy(RigidTy::Uint(_))) {
            return Ok(v);
        }
        if let (Val::Enum(..), true) = (&v, self.is_enum(to)) {
            return Ok(v);
        }
        bail!("transmute {from} -> {to}")
    }

    // ---------------------------------------------------------------- calls
    pub fn resolve(&mut self, d: FnDef, a: &GenericArgs) -> R<Instance> {
        let key = (d, a.clone());
        if let Some(r) = self.resolved.get(&key) {
            return r.ok_or_else(|| format!("unresolved {}", d.name()));
        }
        let r = Instance::resolve(d, a).ok();
        self.resolved.insert(key, r);
        r.ok_or_else(|| format!("unresolved {}", d.name()))
    }
    pub fn body(&mut self, inst: Instance) -> Option<Rc<BodyX>> {
        if let Some(b) = self.bodies.get(&inst) {
            return b.clone();
        }
        let name = self.name(inst);
        let b = if inst.has_body() || inst.kind == InstanceKind::Shim { inst.body() } else { None };
        let r = b.map(|b| {
            let local_tys = b.locals().iter().map(|l| l.ty).collect();
            Rc::new(BodyX { b, inst, name: name.clone(), local_tys })
        });
        if r.is_some() && !name.starts_with("core::") && !name.starts_with("std::") && !name.starts_with("alloc::") {
            let sp = r.as_ref().unwrap().b.span;
            let loc = format!("{name} ({}:{})", sp.get_filename(), sp.get_lines().start_line);
            self.analysed.insert(loc.into());
        }
        self.bodies.insert(inst, r.clone());
        r
    }

    pub fn call(&mut self, inst: Instance, args: Vec<Val>, arg_tys: &[Ty], st: State) -> Vec<Outcome> {
        let name = self.name(inst);
        if self.trace {
            eprintln!("{}call {}", " ".repeat(self.depth), name);
        }
        match self.idna(inst, &name, &args, arg_tys, &st) {
            Ok(Some(o)) => return o,
            Ok(None) => {}
            Err(e) => return vec![Outcome { st, out: Out::Unsup(format!("{name}: {e}").into()) }],
        }
        match self.bidi_class(&name, inst, &args, &st) {
            Ok(Some(o)) => return o,
            Ok(None) => {}
            Err(e) => return vec![Outcome { st, out: Out::Unsup(format!("{name}: {e}").into()) }],
        }
        match self.text_summary(inst, &name, &args, arg_tys, &st) {
            Ok(Some(o)) => return o,
            Ok(None) => {}
            Err(e) => return vec![Outcome { st, out: Out::Unsup(format!("{name}: {e}").into()) }],
        }
        if self.uf.is_some() {
            if let Some(o) = self.uninterpreted(&name, &args, &st) {
                return o;
            }
        }
        match self.strings(inst, &name, &args, arg_tys, &st) {
            Ok(Some(o)) => return o,
            Ok(None) => {}
            Err(e) => return vec![Outcome { st, out: Out::Unsup(format!("{name}: {e}").into()) }],
        }
        match self.summary(inst, &name, &args, arg_tys, &st) {
            Ok(Some(o)) => return o,
            Ok(None) => {}
            Err(e) => {
                return vec![Outcome { st, out: Out::Unsup(format!("{name}: {e}").into()) }];
            }
        }
        if let InstanceKind::Virtual { .. } = inst.kind {
            return self.call_virtual(inst, args, arg_tys, st);
        }
        if inst.kind == InstanceKind::Shim && inst.is_empty_shim() {
            return vec![Outcome { st, out: Out::Ret(Val::Agg(Rc::new(vec![]))) }];
        }
        let body = match self.body(inst) {
            Some(b) => b,
            None => {
                if let Some(v) = self.constructor(inst, &name, &args) {
                    return vec![Outcome { st, out: Out::Ret(v) }];
                }
                return vec![Outcome { st, out: Out::Unsup(format!("no body: {name}").into()) }];
            }
        };
        if self.depth > 220 {
            return vec![Outcome { st, out: Out::Unsup(format!("depth: {name}").into()) }];
        }
        // bind arguments
        let n = body.b.arg_locals().len();
        let mut args = args;
        if let Some(sp) = body.b.spread_arg() {
            if args.len() != n || !matches!(args.last(), Some(Val::Agg(_))) || args.len() >= sp + 1 {
                // pack trailing
                if args.len() >= sp {
                    let tail: Vec<Val> = args.drain(sp - 1..).collect();
                    // caller may already have passed a tuple
                    let want = match self.fields(body.local_tys[sp], 0) {
                        Ok(f) => f.len(),
                        Err(_) => tail.len(),
                    };
                    if tail.len() == 1 && matches!(&tail[0], Val::Agg(f) if f.len() == want) && !(want == 1 && arg_tys.len() >= sp && arg_tys[sp - 1] != body.local_tys[sp]) {
                        args.push(tail.into_iter().next().unwrap());
                    } else {
                        args.push(Val::Agg(Rc::new(tail)));
                    }
                } else {
                    args.push(Val::Agg(Rc::new(vec![])));
                }
            }
        } else if args.len() != n {
            // closure body called with (self, (args...))
            let untuple = match args.last() {
                Some(Val::Agg(f)) if args.len() - 1 + f.len() == n => true,
                _ => false,
            };
            if untuple {
                if let Some(Val::Agg(f)) = args.pop() {
                    args.extend(f.iter().cloned());
                }
            } else if args.len() + 1 == n {
                args.insert(0, Val::Agg(Rc::new(vec![])));
            }
        } else if args.len() == 2 && arg_tys.len() == 2 && self.is_closure_inst(inst) {
            // closure with exactly one argument: (self, (x,)) vs (self, x)
            if arg_tys[1] != body.local_tys[2] {
                if let Val::Agg(f) = &args[1] {
                    if f.len() == 1 {
                        args[1] = f[0].clone();
                    }
                }
            }
        }
        if args.len() != n {
            return vec![Outcome {
                st,
                out: Out::Unsup(format!("argument count {} vs {} for {name}", args.len(), n).into()),
            }];
        }
        let mut locals = vec![Val::Undef; body.local_tys.len()];
        for (i, a) in args.into_iter().enumerate() {
            // fn pointer transmuted from fn(&T) to fn(NonNull<()>)
            let a = match &a {
                Val::Agg(_) if self.pointee(body.local_tys[i + 1]).is_some() => match self.ptr_of(&a) {
                    Ok(p) => Val::Ptr(p),
                    Err(_) => a,
                },
                _ => a,
            };
            locals[i + 1] = a;
        }
        let mut st = st;
        st.frames.push(Rc::new(locals));
        self.depth += 1;
        let r = self.run(&body, st);
        self.depth -= 1;
        let r = merge(r);
        if self.trace {
            eprintln!("{}ret {} x{}", " ".repeat(self.depth), name, r.len());
        }
        r
    }
    /// tuple-struct / tuple-variant constructor used as a function
    fn constructor(&mut self, inst: Instance, name: &str, args: &[Val]) -> Option<Val> {
        let sig = match &*self.kind(inst.ty()) {
            k @ TyKind::RigidTy(RigidTy::FnDef(..)) => k.fn_sig()?,
            _ => return None,
        };
        let out = sig.skip_binder().output();
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = &*self.kind(out) {
            let last = name.rsplit("::").next().unwrap_or(name);
            if d.kind() == AdtKind::Struct {
                if d.name().to_string().rsplit("::").next() == Some(last) {
                    return Some(Val::Agg(Rc::new(args.to_vec())));
                }
            } else if d.kind() == AdtKind::Enum {
                for (i, v) in d.variants().iter().enumerate() {
                    if v.name().to_string().rsplit("::").next() == Some(last) && v.fields().len() == args.len() {
                        return Some(Val::Enum(Num::C(i as I), Rc::new(args.to_vec())));
                    }
                }
            }
        }
        None
    }
    fn is_closure_inst(&mut self, inst: Instance) -> bool {
        matches!(&*self.kind(inst.ty()), TyKind::RigidTy(RigidTy::Closure(..)))
    }
    fn call_virtual(&mut self, inst: Instance, mut args: Vec<Val>, arg_tys: &[Ty], st: State) -> Vec<Outcome> {
        let r: R<(Instance, Vec<Val>)> = (|| {
            let p = match &args[0] {
                Val::Ptr(p) => p.clone(),
                _ => bail!("virtual receiver"),
            };
            let conc = match &p.meta {
                Meta::Vt(t) => *t,
                _ => bail!("virtual receiver without vtable"),
            };
            let (d, ga) = match &*self.kind(inst.ty()) {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => (*d, a.clone()),
                _ => bail!("virtual fn type"),
            };
            let mut ga = ga;
            ga.0[0] = GenericArgKind::Type(conc);
            let i = self.resolve(d, &ga)?;
            let mut q = (*p).clone();
            q.meta = Meta::None;
            args[0] = Val::Ptr(Rc::new(q));
            Ok((i, args))
        })();
        match r {
            Ok((i, a)) => self.call(i, a, arg_tys, st),
            Err(e) => vec![Outcome { st, out: Out::Unsup(e.into()) }],
        }
    }

    pub fn where_(&self, body: &BodyX, span: &rustc_public::ty::Span) -> String {
        let l = span.get_lines();
        format!("{} ({}:{})", body.name, span.get_filename(), l.start_line)
    }

    // ---------------------------------------------------------------- execution
    fn run(&mut self, body: &Rc<BodyX>, st: State) -> Vec<Outcome> {
        let depth = st.frames.len();
        let mut out: Vec<Outcome> = vec![];
        let mut work: Vec<(State, usize, usize)> = vec![(st, 0, 0)];
        while let Some((st, bb, si)) = work.pop() {
            self.steps += 1;
            if self.steps > self.budget {
                let mut s = st;
                s.frames.truncate(depth - 1);
                out.push(Outcome { st: s, out: Out::Unsup("budget".into()) });
                return out;
            }
            let st = if si == 0 && st.dirty && self.fix.native == 0 && self.looping(body).heads[bb] {
                let keep = st.clone();
                match self.fixpoint(st, body, bb) {
                    Ok(Some(s)) => s,
                    Ok(None) => continue,
                    Err(e) => {
                        let mut s = keep;
                        s.frames.truncate(depth - 1);
                        out.push(Outcome { st: s, out: Out::Unsup(format!("{e} at a loop of {}", body.name).into()) });
                        continue;
                    }
                }
            } else {
                st
            };
            if self.prof_on {
                *self.prof.entry(body.name.clone()).or_default() += 1;
            }
            let blk = &body.b.blocks[bb];
            if si < blk.statements.len() {
                // concretize indices if needed
                let stmt = &blk.statements[si];
                match self.exec_stmt(st, body, stmt, &mut work, bb, si) {
                    Ok(()) => {}
                    Err((e, s)) => {
                        let w = self.where_(body, &stmt.source_info.span);
                        let mut s = s;
                        s.frames.truncate(depth - 1);
                        out.push(Outcome { st: s, out: Out::Unsup(format!("{e} at {w}").into()) });
                    }
                }
            } else {
                match self.exec_term(st, body, &blk.terminator, &mut work, bb, si, depth, &mut out) {
                    Ok(()) => {}
                    Err((e, s)) => {
                        let w = self.where_(body, &blk.terminator.source_info.span);
                        let mut s = s;
                        s.frames.truncate(depth - 1);
                        out.push(Outcome { st: s, out: Out::Unsup(format!("{e} at {w}").into()) });
                    }
                }
            }
        }
        out
    }

    /// If a place indexes by a symbolic local, fork into constant-index states.
    fn concretize(&mut self, st: &State, locals: &[usize]) -> R<Option<Vec<State>>> {
        let fi = st.frames.len() - 1;
        for &l in locals {
            let n = match &st.frames[fi][l] {
                Val::Num(n) => n.clone(),
                _ => continue,
            };
            if st.get_const(&n).is_some() {
                continue;
            }
            return Ok(Some(self.enumerate(st, &n, 4096)?));
        }
        Ok(None)
    }
    /// Split into states in which `n` is constant.
    pub fn enumerate(&mut self, st: &State, n: &Num, limit: I) -> R<Vec<State>> {
        let mut syms = vec![];
        n.syms(&mut syms);
        if syms.len() != 1 {
            // fork the smallest symbol first
            syms.sort_by_key(|s| st.set(*s).count());
            let s = syms[0];
            let set = st.set(s).clone();
            if set.count() > limit {
                bail!("cannot enumerate relational index");
            }
            let mut out = vec![];
            for v in set.iter() {
                let mut s2 = st.clone();
                s2.set_sym(s, ISet::range(v, v));
                out.push(s2);
            }
            return Ok(out);
        }
        let s = syms[0];
        let set = st.set(s).clone();
        let (_, e) = n.single_expr().unwrap();
        if set.count() > 1 << 21 {
            bail!("symbolic index over {} values", set.count());
        }
        let mut by: HashMap<I, Vec<(I, I)>> = HashMap::new();
        let mut order = vec![];
        for x in set.iter() {
            if let Some(v) = e.eval(x) {
                let ent = by.entry(v).or_insert_with(|| {
                    order.push(v);
                    vec![]
                });
                ent.push((x, x));
            }
            if order.len() as I > limit {
                bail!("symbolic index over more than {limit} values");
            }
        }
        let mut out = vec![];
        for v in order {
            let mut s2 = st.clone();
            s2.set_sym(s, ISet::from_vec(by.remove(&v).unwrap()));
            out.push(s2);
        }
        Ok(out)
    }

    fn exec_stmt(
        &mut self,
        st: State,
        body: &Rc<BodyX>,
        stmt: &Statement,
        work: &mut Vec<(State, usize, usize)>,
        bb: usize,
        si: usize,
    ) -> Result<(), (String, State)> {
        match &stmt.kind {
            StatementKind::Assign(pl, rv) => {
                let mut idx = vec![];
                place_idx(pl, &mut idx);
                rvalue_idx(rv, &mut idx);
                if !idx.is_empty() {
                    match self.concretize(&st, &idx) {
                        Ok(None) => {}
                        Ok(Some(v)) => {
                            for s in v {
                                work.push((s, bb, si));
                            }
                            return Ok(());
                        }
                        Err(e) => return Err((e, st)),
                    }
                }
                let dty = body.local_tys[pl.local];
                let keep = st.clone();
                let vals = match self.rvalue(st, body, rv, dty) {
                    Ok(v) => v,
                    Err(e) => return Err((e, keep)),
                };
                drop(keep);
                for (mut s, v) in vals {
                    let r = if pl.projection.is_empty() {
                        let fi = s.frames.len() - 1;
                        Rc::make_mut(&mut s.frames[fi])[pl.local] = v;
                        Ok(())
                    } else {
                        match self.place(&s, body, pl) {
                            Ok((p, _)) => self.write(&mut s, &p, v),
                            Err(e) => Err(e),
                        }
                    };
                    match r {
                        Ok(()) => work.push((s, bb, si + 1)),
                        Err(e) => return Err((e, s)),
                    }
                }
                Ok(())
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let mut s = st;
                let r = (|| -> R<()> {
                    let (p, ty) = self.place(&s, body, place)?;
                    let old = self.read(&s, &p, ty).unwrap_or(Val::Undef);
                    let fs = match old {
                        Val::Enum(_, f) => f,
                        Val::Agg(f) => f,
                        _ => Rc::new(vec![]),
                    };
                    self.write(&mut s, &p, Val::Enum(Num::C(rustc_public_idx(*variant_index) as I), fs))
                })();
                match r {
                    Ok(()) => {
                        work.push((s, bb, si + 1));
                        Ok(())
                    }
                    Err(e) => Err((e, s)),
                }
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {
                work.push((st, bb, si + 1));
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                Err(("copy_nonoverlapping".into(), st))
            }
            _ => {
                work.push((st, bb, si + 1));
                Ok(())
            }
        }
    }

    fn exec_term(
        &mut self,
        st: State,
        body: &Rc<BodyX>,
        term: &Terminator,
        work: &mut Vec<(State, usize, usize)>,
        bb: usize,
        si: usize,
        depth: usize,
        out: &mut Vec<Outcome>,
    ) -> Result<(), (String, State)> {
        match &term.kind {
            TerminatorKind::Goto { target } => {
                work.push((st, *target, 0));
                Ok(())
            }
            TerminatorKind::Return => {
                let mut s = st;
                if depth == 1 && !s.texts.is_empty() && matches!(s.frames[0][0], Val::Num(Num::C(0))) && std::env::var("ABSINT_FIX").is_ok() {
                    eprintln!("[false] {}", crate::text::dump(&s));
                }
                let f = s.frames.pop().unwrap();
                let mut v = f[0].clone();
                if matches!(v, Val::Undef) {
                    v = self.zst(body.local_tys[0]).unwrap_or(Val::Undef);
                }
                debug_assert!(s.frames.len() == depth - 1);
                out.push(Outcome { st: s, out: Out::Ret(v) });
                Ok(())
            }
            TerminatorKind::Unreachable => Ok(()),
            TerminatorKind::Resume | TerminatorKind::Abort => Ok(()),
            TerminatorKind::Drop { target, .. } => {
                work.push((st, *target, 0));
                Ok(())
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let mut idx = vec![];
                operand_idx(discr, &mut idx);
                match self.concretize(&st, &idx) {
                    Ok(None) => {}
                    Ok(Some(v)) => {
                        for s in v {
                            work.push((s, bb, si));
                        }
                        return Ok(());
                    }
                    Err(e) => return Err((e, st)),
                }
                let r = (|| -> R<(Num, Ty)> {
                    let v = self.operand(&st, body, discr)?;
                    let t = self.operand_ty(body, discr)?;
                    Ok((self.num(&v)?, t))
                })();
                let (n, ty) = match r {
                    Ok(x) => x,
                    Err(e) => return Err((e, st)),
                };
                let it = self.int_ty(ty);
                if let Some(c) = st.get_const(&n) {
                    let mut tgt = targets.otherwise();
                    for (v, t) in targets.branches() {
                        let v = it.map(|i| i.wrap_u(v)).unwrap_or(v as I);
                        if v == c {
                            tgt = t;
                            break;
                        }
                    }
                    work.push((st, tgt, 0));
                    return Ok(());
                }
                // group branches by target for a single-symbol scrutinee
                let mut cur = vec![st];
                for (v, t) in targets.branches() {
                    let v = it.map(|i| i.wrap_u(v)).unwrap_or(v as I);
                    let mut next = vec![];
                    for s in cur {
                        for (s2, r) in self.cmp_split(s, BinOp::Eq, &n, &Num::C(v)) {
                            if r { work.push((s2, t, 0)) } else { next.push(s2) }
                        }
                    }
                    cur = next;
                }
                for s in cur {
                    work.push((s, targets.otherwise(), 0));
                }
                Ok(())
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let n = match self.operand(&st, body, cond).and_then(|v| self.num(&v)) {
                    Ok(n) => n,
                    Err(e) => return Err((e, st)),
                };
                for (s, r) in self.cmp_split(st, BinOp::Eq, &n, &Num::C(*expected as I)) {
                    if r {
                        work.push((s, *target, 0));
                    } else {
                        let mut s = s;
                        s.frames.truncate(depth - 1);
                        let d = msg.description().unwrap_or("assert");
                        let w = self.where_(body, &term.source_info.span);
                        out.push(Outcome { st: s, out: Out::Panic(format!("{d} at {w}").into()) });
                    }
                }
                Ok(())
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let mut idx = vec![];
                for a in args {
                    operand_idx(a, &mut idx);
                }
                place_idx(destination, &mut idx);
                match self.concretize(&st, &idx) {
                    Ok(None) => {}
                    Ok(Some(v)) => {
                        for s in v {
                            work.push((s, bb, si));
                        }
                        return Ok(());
                    }
                    Err(e) => return Err((e, st)),
                }
                let r = (|| -> R<(Instance, Vec<Val>, Vec<Ty>)> {
                    let fty = self.operand_ty(body, func)?;
                    let inst = match &*self.kind(fty) {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.resolve(*d, a)?,
                        TyKind::RigidTy(RigidTy::FnPtr(_)) => match self.operand(&st, body, func)? {
                            Val::Fn(i) => i,
                            v => bail!("call through {v:?}"),
                        },
                        _ => bail!("callee type {fty}"),
                    };
                    let mut vs = vec![];
                    let mut tys = vec![];
                    for a in args {
                        vs.push(self.operand(&st, body, a)?);
                        tys.push(self.operand_ty(body, a)?);
                    }
                    Ok((inst, vs, tys))
                })();
                let (inst, vs, tys) = match r {
                    Ok(x) => x,
                    Err(e) => return Err((e, st)),
                };
                let cname = self.name(inst);
                if target.is_none() && is_panic_fn(&cname) {
                    let mut s = st;
                    s.frames.truncate(depth - 1);
                    let w = self.where_(body, &term.source_info.span);
                    out.push(Outcome { st: s, out: Out::Panic(format!("{cname} at {w}").into()) });
                    return Ok(());
                }
                self.stack.truncate(st.frames.len() - 1);
                self.stack.push((body.inst, target.unwrap_or(bb), if destination.projection.is_empty() { Some(destination.local) } else { None }));
                let outs = self.call(inst, vs, &tys, st);
                for o in outs {
                    match o.out {
                        Out::Ret(v) => {
                            let mut s = o.st;
                            let t = match target {
                                Some(t) => *t,
                                None => continue,
                            };
                            let r = if destination.projection.is_empty() {
                                let fi = s.frames.len() - 1;
                                Rc::make_mut(&mut s.frames[fi])[destination.local] = v;
                                Ok(())
                            } else {
                                match self.place(&s, body, destination) {
                                    Ok((p, _)) => self.write(&mut s, &p, v),
                                    Err(e) => Err(e),
                                }
                            };
                            match r {
                                Ok(()) => work.push((s, t, 0)),
                                Err(e) => {
                                    s.frames.truncate(depth - 1);
                                    out.push(Outcome { st: s, out: Out::Unsup(e.into()) });
                                }
                            }
                        }
                        Out::Panic(m) => {
                            let mut s = o.st;
                            s.frames.truncate(depth - 1);
                            // attribute std-internal panics to the workspace call site
                            let m2: Rc<str> = if m.contains("/rustlib/src/") || m.contains("/rustc/") {
                                let w = self.where_(body, &term.source_info.span);
                                if w.contains("/rustlib/src/") || w.contains("/rustc/") {
                                    m
                                } else {
                                    format!("{} via {w}", m.split(" at ").next().unwrap_or("panic")).into()
                                }
                            } else {
                                m
                            };
                            out.push(Outcome { st: s, out: Out::Panic(m2) });
                        }
                        Out::Unsup(m) => {
                            let mut s = o.st;
                            s.frames.truncate(depth - 1);
                            let m: Rc<str> = if m.len() < 600 { format!("{m} < {}", body.name).into() } else { m };
                            out.push(Outcome { st: s, out: Out::Unsup(m) });
                        }
                    }
                }
                Ok(())
            }
            TerminatorKind::InlineAsm { .. } => Err(("inline asm".into(), st)),
        }
    }
}

pub fn is_panic_fn(n: &str) -> bool {
    n.starts_with("core::panicking::")
        || n.starts_with("std::rt::")
        || n.contains("panic")
        || n.contains("unwrap_failed")
        || n.contains("expect_failed")
        || n.contains("index_fail")
        || n.contains("index_len_fail")
        || n.contains("slice_error_fail")
        || n.contains("handle_error")
        || n.contains("index_order_fail")
        || n.contains("capacity_overflow")
}

pub fn rustc_public_idx(v: VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}

fn val_refs_alloc(v: &Val, i: usize) -> bool {
    match v {
        Val::Ptr(p) => p.base == Base::Const(i),
        Val::Agg(f) | Val::Enum(_, f) => f.iter().any(|x| val_refs_alloc(x, i)),
        _ => false,
    }
}

impl crate::num::IntTy {
    pub fn wrap_u(&self, v: u128) -> I {
        if self.bits >= 127 {
            v as I
        } else {
            self.wrap((v & ((1u128 << self.bits) - 1)) as I)
        }
    }
}

pub fn ptr_add(p: &mut Ptr, n: I, sz: usize) {
    match p.base {
        Base::Const(_) | Base::Dangling => p.off += n * sz as I,
        _ => match p.path.last_mut() {
            Some(P::I(i)) => *i += n,
            Some(P::N(x)) => {
                if let Some(mut l) = x.lin() {
                    l.c += n;
                    *x = Num::from_lin(l);
                }
            }
            _ => {
                if n != 0 {
                    p.path.push(P::I(n));
                }
            }
        },
    }
}

pub fn ptr_pos_cmp(p: &Ptr, q: &Ptr) -> Option<std::cmp::Ordering> {
    if p.base != q.base {
        return None;
    }
    match p.base {
        Base::Const(_) | Base::Dangling => Some(p.off.cmp(&q.off)),
        _ => {
            let norm = |x: &Ptr| -> (Vec<P>, I) {
                let mut v = x.path.clone();
                if let Some(P::I(i)) = v.last() {
                    let i = *i;
                    v.pop();
                    (v, i)
                } else {
                    (v, 0)
                }
            };
            let (a, i) = norm(p);
            let (b, j) = norm(q);
            if a == b { Some(i.cmp(&j)) } else { None }
        }
    }
}

pub fn cmp_const(op: BinOp, a: I, b: I) -> bool {
    match op {
        BinOp::Eq => a == b,
        BinOp::Ne => a != b,
        BinOp::Lt => a < b,
        BinOp::Le => a <= b,
        BinOp::Gt => a > b,
        BinOp::Ge => a >= b,
        _ => unreachable!(),
    }
}

/// truth of `d op 0` for every d in [lo,hi], if uniform
fn cmp_bounds(op: BinOp, lo: I, hi: I) -> Option<bool> {
    let (t, f) = match op {
        BinOp::Lt => (hi < 0, lo >= 0),
        BinOp::Le => (hi <= 0, lo > 0),
        BinOp::Gt => (lo > 0, hi <= 0),
        BinOp::Ge => (lo >= 0, hi < 0),
        BinOp::Eq => (lo == 0 && hi == 0, lo > 0 || hi < 0),
        BinOp::Ne => (lo > 0 || hi < 0, lo == 0 && hi == 0),
        _ => unreachable!(),
    };
    if t {
        Some(true)
    } else if f {
        Some(false)
    } else {
        None
    }
}

/// Closure of the difference constraints (x - y in [lo, hi]) and the symbol bounds; false if infeasible.
fn close_differences(st: &mut State) -> bool {
    let mut nodes: Vec<Sym> = vec![];
    for k in st.cons.keys() {
        if k.len() == 2 && k[0].1 == 1 && k[1].1 == -1 {
            for &(s, _) in k {
                if !nodes.contains(&s) {
                    nodes.push(s);
                }
            }
        }
    }
    nodes.sort();
    let n = nodes.len();
    const INF: I = 1 << 100;
    // node n is the constant zero
    let mut d = vec![vec![INF; n + 1]; n + 1];
    for i in 0..=n {
        d[i][i] = 0;
    }
    loop {
        for (i, s) in nodes.iter().enumerate() {
            let set = st.set(*s);
            if set.is_empty() {
                return false;
            }
            d[i][n] = d[i][n].min(set.max());
            d[n][i] = d[n][i].min(-set.min());
        }
        for (k, &(lo, hi)) in st.cons.iter() {
            if k.len() == 2 && k[0].1 == 1 && k[1].1 == -1 {
                let i = nodes.binary_search(&k[0].0).unwrap();
                let j = nodes.binary_search(&k[1].0).unwrap();
                d[i][j] = d[i][j].min(hi);
                d[j][i] = d[j][i].min(-lo);
            }
        }
        for k in 0..=n {
            for i in 0..=n {
                for j in 0..=n {
                    let t = d[i][k] + d[k][j];
                    if t < d[i][j] {
                        d[i][j] = t;
                    }
                }
            }
        }
        for i in 0..=n {
            if d[i][i] < 0 {
                return false;
            }
        }
        // write back bounds of symbols; sets with holes may tighten further
        let mut again = false;
        for (i, s) in nodes.iter().enumerate() {
            let set = st.set(*s).clone();
            let c = set.clip(-d[n][i], d[i][n]);
            if c.is_empty() {
                return false;
            }
            if c != set {
                if c.max() < d[i][n] || c.min() > -d[n][i] {
                    again = true;
                }
                st.set_sym(*s, c);
            }
        }
        if !again {
            break;
        }
    }
    let cons = Rc::make_mut(&mut st.cons);
    for i in 0..n {
        for j in i + 1..n {
            let key = vec![(nodes[i], 1), (nodes[j], -1)];
            let (lo, hi) = (-d[j][i], d[i][j]);
            // implied by the symbol bounds alone?
            let (ilo, ihi) = (-d[n][i] - d[j][n], d[i][n] + d[n][j]);
            if lo <= ilo && hi >= ihi {
                cons.remove(&key);
            } else {
                cons.insert(key, (lo, hi));
            }
        }
    }
    true
}

pub fn div_ceil(a: I, b: I) -> I {
    -((-a).div_euclid(b))
}

/// {x in set | k*x + c op 0}
fn solve_single(set: &ISet, k: I, c: I, op: BinOp) -> ISet {
    let (mn, mx) = (set.min(), set.max());
    match op {
        BinOp::Eq | BinOp::Ne => {
            let eq = if (-c) % k == 0 { set.clip(-c / k, -c / k) } else { ISet::empty() };
            if op == BinOp::Eq { eq } else { set.minus(&eq) }
        }
        BinOp::Lt | BinOp::Le => {
            // k*x <= b
            let b = if op == BinOp::Lt { -c - 1 } else { -c };
            if k > 0 { set.clip(mn, b.div_euclid(k)) } else { set.clip(div_ceil(-b, -k), mx) }
        }
        BinOp::Gt | BinOp::Ge => {
            let b = if op == BinOp::Gt { -c + 1 } else { -c };
            // k*x >= b
            if k > 0 { set.clip(div_ceil(b, k), mx) } else { set.clip(mn, (-b).div_euclid(-k)) }
        }
        _ => unreachable!(),
    }
}

fn two_way(st: State, s: Sym, t: ISet, f: ISet) -> Vec<(State, bool)> {
    let mut out = vec![];
    if f.is_empty() {
        return vec![(st, true)];
    }
    if t.is_empty() {
        return vec![(st, false)];
    }
    let mut a = st.clone();
    a.set_sym(s, t);
    out.push((a, true));
    let mut b = st;
    b.set_sym(s, f);
    out.push((b, false));
    out
}

fn place_idx(p: &Place, out: &mut Vec<usize>) {
    for e in &p.projection {
        if let ProjectionElem::Index(l) = e {
            out.push(*l);
        }
    }
}
fn operand_idx(o: &Operand, out: &mut Vec<usize>) {
    if let Operand::Copy(p) | Operand::Move(p) = o {
        place_idx(p, out)
    }
}
fn rvalue_idx(r: &Rvalue, out: &mut Vec<usize>) {
    match r {
        Rvalue::AddressOf(_, p) | Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) | Rvalue::Ref(_, _, p) => {
            place_idx(p, out)
        }
        Rvalue::Aggregate(_, v) => v.iter().for_each(|o| operand_idx(o, out)),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => {
            operand_idx(a, out);
            operand_idx(b, out)
        }
        Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Use(o, _) => operand_idx(o, out),
        _ => {}
    }
}

fn val_has_fresh(v: &Val, n: usize) -> bool {
    let num = |n2: &Num| {
        let mut s = vec![];
        n2.syms(&mut s);
        s.iter().any(|x| *x as usize >= n)
    };
    match v {
        Val::Num(x) => num(x),
        Val::Enum(x, f) => num(x) || f.iter().any(|y| val_has_fresh(y, n)),
        Val::Agg(f) => f.iter().any(|y| val_has_fresh(y, n)),
        Val::Ptr(p) => matches!(&p.meta, Meta::Len(l) if num(l)),
        Val::Nat(x) => match &**x {
            Nat::Vec(f) => f.iter().any(|y| val_has_fresh(y, n)),
            _ => false,
        },
        _ => false,
    }
}

/// Join outcomes with equal result and memory whose input partitions differ in one symbol.
pub fn merge(v: Vec<Outcome>) -> Vec<Outcome> {
    if v.len() < 2 {
        return v;
    }
    use std::hash::{Hash, Hasher};
    let mut buckets: HashMap<u64, Vec<usize>> = HashMap::new();
    let mut res: Vec<Outcome> = vec![];
    'next: for o in v {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        o.out.hash(&mut h);
        // all symbol sets but the largest-varying one cannot be hashed; use the number of symbols
        o.st.syms.len().hash(&mut h);
        o.st.events.hash(&mut h);
        let key = h.finish();
        let b = buckets.entry(key).or_default();
        for &i in b.iter().rev().take(64) {
            if let Some(m) = try_merge(&res[i], &o) {
                res[i] = m;
                continue 'next;
            }
        }
        b.push(res.len());
        res.push(o);
    }
    res
}

fn try_merge(a: &Outcome, b: &Outcome) -> Option<Outcome> {
    if a.out != b.out || a.st.events != b.st.events || a.st.cons != b.st.cons || a.st.texts != b.st.texts || a.st.atoms != b.st.atoms || a.st.memo != b.st.memo || a.st.dirty != b.st.dirty {
        return None;
    }
    if a.st.frames.len() != b.st.frames.len() {
        return None;
    }
    for (x, y) in a.st.frames.iter().zip(b.st.frames.iter()) {
        if !Rc::ptr_eq(x, y) && x != y {
            return None;
        }
    }
    if !Rc::ptr_eq(&a.st.heap, &b.st.heap) && a.st.heap != b.st.heap {
        return None;
    }
    if a.st.syms.len() != b.st.syms.len() {
        return None;
    }
    let mut diff = None;
    for i in 0..a.st.syms.len() {
        if a.st.syms[i] != b.st.syms[i] {
            if diff.is_some() {
                return None;
            }
            diff = Some(i);
        }
    }
    let mut r = a.clone();
    if let Some(i) = diff {
        let u = a.st.syms[i].union(&b.st.syms[i]);
        r.st.set_sym(i as Sym, u);
    }
    let _ = val_has_fresh;
    Some(r)
}

/// narrow the other symbols of the constraints on `s`; false when infeasible
pub fn propagate(st: &mut State, s: Sym) -> bool {
    if st.cons.is_empty() {
        return true;
    }
    let keys: Vec<(Vec<(Sym, I)>, (I, I))> =
        st.cons.iter().filter(|(k, _)| k.iter().any(|x| x.0 == s)).map(|(k, b)| (k.clone(), *b)).collect();
    for (k, (lo, hi)) in keys {
        for i in 0..k.len() {
            let (mut a, mut b): (I, I) = (0, 0);
            for (j, (x, c)) in k.iter().enumerate() {
                if i != j {
                    let v = st.set(*x);
                    if v.is_empty() {
                        return false;
                    }
                    let (p, q) = (v.min().saturating_mul(*c), v.max().saturating_mul(*c));
                    a = a.saturating_add(p.min(q));
                    b = b.saturating_add(p.max(q));
                }
            }
            // lo - b <= c * x <= hi - a
            let (x, c) = k[i];
            let (p, q) = (lo.saturating_sub(b), hi.saturating_sub(a));
            let (p, q) = if c > 0 { (div_ceil(p, c), q.div_euclid(c)) } else { (div_ceil(-q, -c), (-p).div_euclid(-c)) };
            let set = st.set(x).clip(p, q);
            if set.is_empty() {
                return false;
            }
            if set != *st.set(x) {
                st.set_sym(x, set);
            }
        }
    }
    true
}

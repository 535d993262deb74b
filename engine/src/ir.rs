//! Lazy translation of monomorphised rustc MIR into a compact form the executor runs.
use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::rc::Rc;

pub const FN_BASE: u64 = 0x7000_0000;
pub const GLOB_BASE: u32 = 0x8000_0000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IntK {
    pub size: u8,
    pub signed: bool,
}

#[derive(Debug, Clone)]
pub enum PE {
    Off(u64),
    /// load pointer (and metadata when the pointee is unsized)
    Deref(bool),
    Index { local_off: u32, stride: u64 },
    FromEnd { off: u64, stride: u64 },
    Subslice { from: u64, to: u64, stride: u64 },
    /// last field of a struct whose tail is `dyn`: offset rounded up to the dynamic alignment
    DynField(u64),
}
#[derive(Debug, Clone)]
pub struct Pl {
    pub base: u32,
    pub pe: Vec<PE>,
    pub size: u32,
}
#[derive(Debug, Clone)]
pub enum Op {
    P(Pl),
    K(Rc<Vec<u8>>),
}
impl Op {
    pub fn size(&self) -> u32 {
        match self {
            Op::P(p) => p.size,
            Op::K(k) => k.len() as u32,
        }
    }
}
#[derive(Debug)]
pub struct EnumL {
    pub tag: Option<Tag>,
    pub single: usize,
    pub discrs: Vec<u128>,
}
#[derive(Debug)]
pub struct Tag {
    pub off: u32,
    pub size: u8,
    pub niche: Option<(usize, usize, usize, u128)>, // untagged, first, last, start
}
#[derive(Debug)]
pub enum St {
    Copy(Pl, Op),
    Bin { dst: Pl, op: BinOp, a: Op, b: Op, k: IntK, rk: IntK, elem: u64 },
    Checked { dst: Pl, ov_off: u32, op: BinOp, a: Op, b: Op, k: IntK, rk: IntK },
    Not { dst: Pl, a: Op, k: IntK, boolean: bool },
    Neg { dst: Pl, a: Op, k: IntK },
    Ref { dst: Pl, place: Pl, wide: bool },
    IntCast { dst: Pl, a: Op, from: IntK, to: IntK },
    Unsize { dst: Pl, a: Op, meta: u64 },
    Discr { dst: Pl, place: Pl, e: Rc<EnumL> },
    SetDiscr { place: Pl, e: Rc<EnumL>, v: usize },
    Agg { dst: Pl, parts: Vec<(u32, Op)>, disc: Option<(Rc<EnumL>, usize)> },
    Repeat { dst: Pl, a: Op, n: u64 },
    Len { dst: Pl, place: Pl },
    CopyNon { src: Op, dst: Op, n: Op, size: u64 },
    Unsupported(String),
}
pub enum Callee {
    Inst(u32),
    Virtual(usize),
    Ptr(Op),
    Drop,
}
pub enum Te {
    Goto(usize),
    Switch { d: Op, targets: Vec<(u128, usize)>, otherwise: usize },
    Return,
    Unreachable,
    Call { f: Callee, args: Vec<Op>, dst: Pl, target: Option<usize>, last_tuple: Option<Vec<(u32, u32)>> },
    Drop { place: Pl, f: Option<DropK>, target: usize },
    Assert { cond: Op, expected: bool, msg: String, target: usize },
    Diverge(&'static str),
    Unsupported(String),
}
pub enum DropK {
    Inst(u32, bool),
    Dyn,
}
pub struct Blk {
    pub st: Vec<St>,
    pub te: Te,
}
pub struct Func {
    pub name: String,
    pub frame: u32,
    pub locals: Vec<(u32, u32)>,
    pub nargs: usize,
    pub spread: bool,
    /// layout of the spread tuple (offset,size)
    pub spread_fields: Vec<(u32, u32)>,
    pub blocks: Vec<Blk>,
}

#[derive(Clone)]
pub struct GAlloc {
    pub bytes: Vec<u8>,
    pub mutable: bool,
}

pub struct FnInfo {
    pub inst: Instance,
    pub name: String,
    pub intrinsic: Option<String>,
    pub closure_ptr: bool,
    pub body: Option<Option<Rc<Func>>>,
    pub handler: Option<u32>,
    pub looked: bool,
    pub calls: u64,
    pub ret: Option<Ty>,
}
#[derive(Clone, Debug)]
pub struct Lay {
    pub size: u64,
    pub align: u64,
    pub sized: bool,
}

pub struct Ctx {
    pub fns: Vec<FnInfo>,
    fmap: HashMap<(Instance, bool), u32>,
    pub globals: Vec<GAlloc>,
    gmap: HashMap<AllocId, u64>,
    typeids: HashMap<AllocId, u64>,
    vtmap: HashMap<(Ty, String), u64>,
    laymap: HashMap<Ty, Rc<(LayoutShape, Lay)>>,
    enmap: HashMap<Ty, Rc<EnumL>>,
    staticmap: HashMap<String, u64>,
}

pub fn rig(t: Ty) -> RigidTy {
    match t.kind() {
        TyKind::RigidTy(r) => r,
        o => panic!("non-rigid type {:?}", o),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            fns: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            typeids: HashMap::new(),
            vtmap: HashMap::new(),
            laymap: HashMap::new(),
            enmap: HashMap::new(),
            staticmap: HashMap::new(),
        }
    }
    pub fn func(&mut self, inst: Instance, closure_ptr: bool) -> u32 {
        if let Some(&i) = self.fmap.get(&(inst, closure_ptr)) {
            return i;
        }
        let i = self.fns.len() as u32;
        let name = inst.name().to_string();
        let intrinsic = inst.intrinsic_name().map(|s| s.to_string());
        self.fns.push(FnInfo {
            inst,
            name,
            intrinsic,
            closure_ptr,
            body: None,
            handler: None,
            looked: false,
            calls: 0,
            ret: None,
        });
        self.fmap.insert((inst, closure_ptr), i);
        i
    }
    pub fn lay(&mut self, t: Ty) -> Rc<(LayoutShape, Lay)> {
        if let Some(l) = self.laymap.get(&t) {
            return l.clone();
        }
        let sh = t.layout().unwrap_or_else(|e| panic!("layout of {}: {:?}", t, e)).shape();
        let l = Lay { size: sh.size.bytes() as u64, align: sh.abi_align as u64, sized: sh.is_sized() };
        let r = Rc::new((sh, l));
        self.laymap.insert(t, r.clone());
        r
    }
    pub fn size(&mut self, t: Ty) -> u64 {
        self.lay(t).1.size
    }
    pub fn intk(&mut self, t: Ty) -> IntK {
        match rig(t) {
            RigidTy::Int(i) => IntK { size: i.num_bytes() as u8, signed: true },
            RigidTy::Uint(i) => IntK { size: i.num_bytes() as u8, signed: false },
            _ => IntK { size: self.size(t).min(255) as u8, signed: false },
        }
    }
    pub fn enuml(&mut self, t: Ty) -> Rc<EnumL> {
        if let Some(e) = self.enmap.get(&t) {
            return e.clone();
        }
        let l = self.lay(t);
        let mut discrs = vec![];
        match rig(t) {
            RigidTy::Adt(d, _) if d.kind() == AdtKind::Enum => {
                for v in d.variants_iter() {
                    discrs.push(d.discriminant_for_variant(v.idx()).val);
                }
            }
            _ => discrs.push(0),
        }
        let e = match &l.0.variants {
            VariantsShape::Empty => EnumL { tag: None, single: 0, discrs },
            VariantsShape::Single { index } => EnumL { tag: None, single: index.to_index(), discrs },
            VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = match &l.0.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as u32,
                    _ => 0,
                };
                let prim = match tag {
                    Scalar::Initialized { value, .. } => *value,
                    Scalar::Union { value } => *value,
                };
                let size = match prim {
                    Primitive::Int { length, .. } => (length.bits() / 8) as u8,
                    Primitive::Pointer(_) => 8,
                    Primitive::Float { length } => (length.bits() / 8) as u8,
                };
                let niche = match tag_encoding {
                    TagEncoding::Direct => None,
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => Some((
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        *niche_start,
                    )),
                };
                EnumL { tag: Some(Tag { off, size, niche }), single: 0, discrs }
            }
        };
        let r = Rc::new(e);
        self.enmap.insert(t, r.clone());
        r
    }
    pub fn field_off(&mut self, t: Ty, variant: Option<usize>, idx: usize) -> u64 {
        let l = self.lay(t);
        if let (Some(v), VariantsShape::Multiple { variants, .. }) = (variant, &l.0.variants) {
            return variants[v].offsets[idx].bytes() as u64;
        }
        match &l.0.fields {
            FieldsShape::Arbitrary { offsets } => offsets.get(idx).map_or(0, |o| o.bytes() as u64),
            FieldsShape::Array { stride, .. } => stride.bytes() as u64 * idx as u64,
            FieldsShape::Union(_) => 0,
            FieldsShape::Primitive => 0,
        }
    }
    // ---- globals ------------------------------------------------------------------------
    pub fn add_global(&mut self, bytes: Vec<u8>, mutable: bool) -> u64 {
        let id = GLOB_BASE as u64 + self.globals.len() as u64;
        self.globals.push(GAlloc { bytes, mutable });
        id << 32
    }
    fn alloc_ptr(&mut self, id: AllocId) -> u64 {
        if let Some(&p) = self.gmap.get(&id) {
            return p;
        }
        match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => {
                let f = self.func(i, false);
                let p = (FN_BASE + f as u64) << 32;
                self.gmap.insert(id, p);
                p
            }
            ref g @ GlobalAlloc::VTable(..) => {
                let a = g.vtable_allocation().expect("vtable");
                if a == id {
                    panic!("vtable self");
                }
                let p = self.alloc_ptr(a);
                self.gmap.insert(id, p);
                p
            }
            GlobalAlloc::Static(s) => {
                let key = format!("{:?}", s);
                if let Some(&p) = self.staticmap.get(&key) {
                    self.gmap.insert(id, p);
                    return p;
                }
                let name = s.name().to_string();
                match s.eval_initializer() {
                    Ok(a) => {
                        let p = self.add_global(vec![0; a.bytes.len()], true);
                        self.gmap.insert(id, p);
                        self.staticmap.insert(key, p);
                        self.fill(p, &a);
                        p
                    }
                    Err(e) => panic!("static {} has no initializer: {:?}", name, e),
                }
            }
            GlobalAlloc::Memory(a) => {
                let p = self.add_global(vec![0; a.bytes.len()], false);
                self.gmap.insert(id, p);
                self.fill(p, &a);
                p
            }
            GlobalAlloc::TypeId { ty } => {
                // opaque type identity: a distinct number per type
                let n = self.typeids.len() as u64 + 1;
                let _ = ty;
                let p = *self.typeids.entry(id).or_insert(n) + 0x1000;
                self.gmap.insert(id, p);
                p
            }
        }
    }
    fn fill(&mut self, p: u64, a: &Allocation) {
        let b = self.alloc_bytes(a);
        let gi = ((p >> 32) as u32 - GLOB_BASE) as usize;
        self.globals[gi].bytes = b;
        if a.mutability == Mutability::Mut {
            self.globals[gi].mutable = true;
        }
    }
    pub fn alloc_bytes(&mut self, a: &Allocation) -> Vec<u8> {
        let mut b: Vec<u8> = a.bytes.iter().map(|x| x.unwrap_or(0)).collect();
        for (off, prov) in &a.provenance.ptrs {
            let off = *off as usize;
            let add = u64::from_le_bytes(b[off..off + 8].try_into().unwrap());
            let p = match GlobalAlloc::from(prov.0) {
                GlobalAlloc::TypeId { .. } => self.alloc_ptr_typeid(prov.0).wrapping_add(add),
                _ => self.alloc_ptr(prov.0).wrapping_add(add),
            };
            b[off..off + 8].copy_from_slice(&p.to_le_bytes());
        }
        b
    }
    fn alloc_ptr_typeid(&mut self, _id: AllocId) -> u64 {
        // the hash bytes in the allocation are themselves the identity; keep them
        0
    }
    pub fn const_bytes(&mut self, c: &MirConst) -> Rc<Vec<u8>> {
        match c.kind() {
            ConstantKind::Allocated(a) => Rc::new(self.alloc_bytes(a)),
            ConstantKind::ZeroSized => Rc::new(vec![]),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => Rc::new(self.alloc_bytes(a)),
                TyConstKind::ZSTValue(_) => Rc::new(vec![]),
                o => {
                    if let Ok(v) = tc.eval_target_usize() {
                        Rc::new(v.to_le_bytes().to_vec())
                    } else {
                        panic!("const {:?}", o)
                    }
                }
            },
            o => panic!("unevaluated const {:?}", o),
        }
    }
    pub fn vtable(&mut self, t: Ty, tr: Option<Binder<ExistentialTraitRef>>) -> u64 {
        let key = (t, format!("{:?}", tr));
        if let Some(&p) = self.vtmap.get(&key) {
            return p;
        }
        let g = GlobalAlloc::VTable(t, tr);
        let a = g.vtable_allocation().expect("vtable alloc");
        let p = self.alloc_ptr(a);
        self.vtmap.insert(key, p);
        p
    }
}

/// Does a pointer to `t` carry metadata? (unsized tail)
pub fn is_unsized(cx: &mut Ctx, t: Ty) -> bool {
    match rig(t) {
        RigidTy::Str | RigidTy::Slice(_) | RigidTy::Dynamic(..) => true,
        RigidTy::Adt(d, a) if d.kind() == AdtKind::Struct => {
            let fs = d.variants_iter().next().map(|v| v.fields()).unwrap_or_default();
            match fs.last() {
                Some(f) => {
                    let ft = f.ty_with_args(&a);
                    is_unsized(cx, ft)
                }
                None => false,
            }
        }
        RigidTy::Tuple(ts) => ts.last().map_or(false, |t| is_unsized(cx, *t)),
        _ => false,
    }
}
pub enum Tail {
    Sized,
    Slice(Ty),
    Str,
    Dyn(Vec<Binder<ExistentialPredicate>>),
}
pub fn tail(t: Ty) -> Tail {
    match rig(t) {
        RigidTy::Str => Tail::Str,
        RigidTy::Slice(e) => Tail::Slice(e),
        RigidTy::Dynamic(p, _) => Tail::Dyn(p),
        RigidTy::Adt(d, a) if d.kind() == AdtKind::Struct => {
            let fs = d.variants_iter().next().map(|v| v.fields()).unwrap_or_default();
            match fs.last() {
                Some(f) => tail(f.ty_with_args(&a)),
                None => Tail::Sized,
            }
        }
        RigidTy::Tuple(ts) => ts.last().map_or(Tail::Sized, |t| tail(*t)),
        _ => Tail::Sized,
    }
}
fn pointee(t: Ty) -> Option<Ty> {
    match rig(t) {
        RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => Some(p),
        _ => None,
    }
}

pub fn principal(p: &[Binder<ExistentialPredicate>]) -> Option<Binder<ExistentialTraitRef>> {
    for b in p {
        if let ExistentialPredicate::Trait(t) = &b.value {
            return Some(Binder::bind_with_vars(t.clone(), b.bound_vars.clone()));
        }
    }
    None
}

struct Tr<'a> {
    cx: &'a mut Ctx,
    locals: &'a [LocalDecl],
    offs: Vec<(u32, u32)>,
}

impl<'a> Tr<'a> {
    fn place(&mut self, p: &Place) -> Pl {
        let mut ty = self.locals[p.local].ty;
        let mut pe: Vec<PE> = vec![];
        let mut variant: Option<usize> = None;
        let push_off = |pe: &mut Vec<PE>, o: u64| {
            if o == 0 {
                return;
            }
            if let Some(PE::Off(x)) = pe.last_mut() {
                *x += o;
            } else {
                pe.push(PE::Off(o));
            }
        };
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let pt = match rig(ty) {
                        RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => t,
                        RigidTy::Adt(_, a) => {
                            // Box
                            match &a.0[0] {
                                GenericArgKind::Type(t) => *t,
                                _ => panic!("deref {}", ty),
                            }
                        }
                        _ => panic!("deref {}", ty),
                    };
                    let un = is_unsized(self.cx, pt);
                    pe.push(PE::Deref(un));
                    ty = pt;
                    variant = None;
                }
                ProjectionElem::Field(i, fty) => {
                    let o = self.cx.field_off(ty, variant, *i);
                    let dynf = o != 0 && matches!(tail(*fty), Tail::Dyn(_)) && is_unsized(self.cx, *fty);
                    if dynf {
                        pe.push(PE::DynField(o));
                    } else {
                        push_off(&mut pe, o);
                    }
                    ty = *fty;
                    variant = None;
                }
                ProjectionElem::Index(l) => {
                    let et = e.ty(ty).unwrap();
                    let stride = self.cx.size(et);
                    pe.push(PE::Index { local_off: self.offs[*l].0, stride });
                    ty = et;
                    variant = None;
                }
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    let et = e.ty(ty).unwrap();
                    let stride = self.cx.size(et);
                    if *from_end {
                        match rig(ty) {
                            RigidTy::Array(_, n) => {
                                let n = n.eval_target_usize().unwrap();
                                push_off(&mut pe, (n - offset) * stride);
                            }
                            _ => pe.push(PE::FromEnd { off: *offset, stride }),
                        }
                    } else {
                        push_off(&mut pe, offset * stride);
                    }
                    ty = et;
                    variant = None;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let nt = e.ty(ty).unwrap();
                    match rig(ty) {
                        RigidTy::Array(el, _) => {
                            let stride = self.cx.size(el);
                            push_off(&mut pe, from * stride);
                        }
                        RigidTy::Slice(el) => {
                            let stride = self.cx.size(el);
                            assert!(*from_end);
                            pe.push(PE::Subslice { from: *from, to: *to, stride });
                        }
                        _ => panic!("subslice"),
                    }
                    ty = nt;
                    variant = None;
                }
                ProjectionElem::Downcast(v) => {
                    variant = Some(v.to_index());
                }
                ProjectionElem::OpaqueCast(t) => {
                    ty = *t;
                }
            }
        }
        let size = match self.cx.lay(ty).1 {
            Lay { sized: true, size, .. } => size as u32,
            _ => u32::MAX,
        };
        Pl { base: self.offs[p.local].0, pe, size }
    }
    fn op(&mut self, o: &Operand) -> Op {
        match o {
            Operand::Copy(p) | Operand::Move(p) => Op::P(self.place(p)),
            Operand::Constant(c) => Op::K(self.cx.const_bytes(&c.const_)),
            Operand::RuntimeChecks(r) => Op::K(Rc::new(vec![match r {
                RuntimeChecks::UbChecks => 0,
                RuntimeChecks::ContractChecks => 0,
                RuntimeChecks::OverflowChecks => 1,
            }])),
        }
    }
    fn oty(&self, o: &Operand) -> Ty {
        o.ty(self.locals).unwrap()
    }
    /// (pointee source, pointee target) of an unsizing coercion
    fn unsize(&mut self, s: Ty, d: Ty) -> Option<u64> {
        if let (Some(a), Some(b)) = (pointee(s), pointee(d)) {
            return self.unsize_pointee(a, b);
        }
        match (rig(s), rig(d)) {
            (RigidTy::Adt(x, xa), RigidTy::Adt(y, ya)) if x == y => {
                let v = x.variants_iter().next()?;
                for f in v.fields() {
                    let (a, b) = (f.ty_with_args(&xa), f.ty_with_args(&ya));
                    if a != b {
                        if let Some(m) = self.unsize(a, b) {
                            return Some(m);
                        }
                    }
                }
                None
            }
            (RigidTy::Pat(a, _), RigidTy::Pat(b, _)) => self.unsize(a, b),
            _ => None,
        }
    }
    fn unsize_pointee(&mut self, a: Ty, b: Ty) -> Option<u64> {
        match (rig(a), rig(b)) {
            (RigidTy::Array(_, n), RigidTy::Slice(_)) => Some(n.eval_target_usize().unwrap()),
            (RigidTy::Dynamic(..), RigidTy::Dynamic(..)) => Some(u64::MAX), // keep metadata
            (_, RigidTy::Dynamic(p, _)) => {
                let tr = principal(&p);
                Some(self.cx.vtable(a, tr))
            }
            (RigidTy::Adt(x, xa), RigidTy::Adt(y, ya)) if x == y => {
                let v = x.variants_iter().next()?;
                let f = v.fields().last()?.clone();
                self.unsize_pointee(f.ty_with_args(&xa), f.ty_with_args(&ya))
            }
            (RigidTy::Tuple(x), RigidTy::Tuple(y)) => self.unsize_pointee(*x.last()?, *y.last()?),
            _ => None,
        }
    }
    fn bin_k(&mut self, t: Ty) -> IntK {
        self.cx.intk(t)
    }
    fn rvalue(&mut self, dst: &Place, rv: &Rvalue) -> St {
        let d = self.place(dst);
        match rv {
            Rvalue::Use(o, _) => St::Copy(d, self.op(o)),
            Rvalue::CopyForDeref(p) => St::Copy(d, Op::P(self.place(p))),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                if let Rvalue::Reborrow(..) = rv {
                    // Reborrow(ty, mut, place): place is the reference itself
                    return St::Copy(d, Op::P(self.place(p)));
                }
                let pl = self.place(p);
                let wide = d.size == 16;
                St::Ref { dst: d, place: pl, wide }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (ta, tb) = (self.oty(a), self.oty(b));
                let (k, rk) = (self.bin_k(ta), self.bin_k(tb));
                let elem = if *op == BinOp::Offset {
                    match pointee(ta) {
                        Some(p) => self.cx.size(p),
                        None => 1,
                    }
                } else {
                    0
                };
                St::Bin { dst: d, op: *op, a: self.op(a), b: self.op(b), k, rk, elem }
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (ta, tb) = (self.oty(a), self.oty(b));
                let (k, rk) = (self.bin_k(ta), self.bin_k(tb));
                let dty = dst.ty(self.locals).unwrap();
                let ov_off = self.cx.field_off(dty, None, 1) as u32;
                St::Checked { dst: d, ov_off, op: *op, a: self.op(a), b: self.op(b), k, rk }
            }
            Rvalue::UnaryOp(op, a) => {
                let t = self.oty(a);
                match op {
                    UnOp::Not => {
                        let k = self.cx.intk(t);
                        St::Not { dst: d, a: self.op(a), k, boolean: t.kind().is_bool() }
                    }
                    UnOp::Neg => {
                        let k = self.cx.intk(t);
                        St::Neg { dst: d, a: self.op(a), k }
                    }
                    UnOp::PtrMetadata => {
                        if d.size == 0 {
                            return St::Copy(d, Op::K(Rc::new(vec![])));
                        }
                        match self.op(a) {
                            Op::P(mut p) => {
                                if let Some(PE::Off(x)) = p.pe.last_mut() {
                                    *x += 8;
                                } else {
                                    p.pe.push(PE::Off(8));
                                }
                                p.size = 8;
                                St::Copy(d, Op::P(p))
                            }
                            Op::K(k) => St::Copy(d, Op::K(Rc::new(k[8..16].to_vec()))),
                        }
                    }
                }
            }
            Rvalue::Cast(kind, o, t) => {
                let s = self.oty(o);
                match kind {
                    CastKind::IntToInt => {
                        let (from, to) = (self.cx.intk(s), self.cx.intk(*t));
                        // enum-to-int casts go through discriminants in MIR already
                        St::IntCast { dst: d, a: self.op(o), from, to }
                    }
                    CastKind::PointerExposeAddress
                    | CastKind::PointerWithExposedProvenance
                    | CastKind::FnPtrToPtr
                    | CastKind::PtrToPtr
                    | CastKind::Transmute
                    | CastKind::BoxDerefTransmute
                    | CastKind::Subtype => {
                        let mut op = self.op(o);
                        // wide to thin pointer casts keep the address only
                        if op.size() > d.size {
                            op = match op {
                                Op::P(mut p) => {
                                    p.size = d.size;
                                    Op::P(p)
                                }
                                Op::K(k) => Op::K(Rc::new(k[..d.size as usize].to_vec())),
                            };
                        }
                        St::Copy(d, op)
                    }
                    CastKind::PointerCoercion(pc) => match pc {
                        PointerCoercion::ReifyFnPointer(_) => match rig(s) {
                            RigidTy::FnDef(def, args) => {
                                let i = Instance::resolve_for_fn_ptr(def, &args).unwrap();
                                let f = self.cx.func(i, false);
                                let p = (FN_BASE + f as u64) << 32;
                                St::Copy(d, Op::K(Rc::new(p.to_le_bytes().to_vec())))
                            }
                            _ => St::Unsupported(format!("reify {}", s)),
                        },
                        PointerCoercion::ClosureFnPointer(_) => match rig(s) {
                            RigidTy::Closure(def, args) => {
                                let i = Instance::resolve_closure(def, &args, ClosureKind::FnOnce).unwrap();
                                let f = self.cx.func(i, true);
                                let p = (FN_BASE + f as u64) << 32;
                                St::Copy(d, Op::K(Rc::new(p.to_le_bytes().to_vec())))
                            }
                            _ => St::Unsupported(format!("closure ptr {}", s)),
                        },
                        PointerCoercion::Unsize => {
                            let op = self.op(o);
                            match self.unsize(s, *t) {
                                Some(u64::MAX) => St::Copy(d, op),
                                Some(meta) => St::Unsize { dst: d, a: op, meta },
                                None => St::Unsupported(format!("unsize {} -> {}", s, t)),
                            }
                        }
                        _ => St::Copy(d, self.op(o)),
                    },
                    _ => St::Unsupported(format!("cast {:?} {} -> {}", kind, s, t)),
                }
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.locals).unwrap();
                let e = self.cx.enuml(t);
                St::Discr { dst: d, place: self.place(p), e }
            }
            Rvalue::Len(p) => {
                let t = p.ty(self.locals).unwrap();
                match rig(t) {
                    RigidTy::Array(_, n) => {
                        St::Copy(d, Op::K(Rc::new(n.eval_target_usize().unwrap().to_le_bytes().to_vec())))
                    }
                    _ => St::Len { dst: d, place: self.place(p) },
                }
            }
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().unwrap();
                St::Repeat { dst: d, a: self.op(o), n }
            }
            Rvalue::Aggregate(kind, ops) => {
                let dty = dst.ty(self.locals).unwrap();
                let mut parts = vec![];
                let mut disc = None;
                match kind {
                    AggregateKind::Array(el) => {
                        let s = self.cx.size(*el);
                        for (i, o) in ops.iter().enumerate() {
                            parts.push((i as u32 * s as u32, self.op(o)));
                        }
                    }
                    AggregateKind::Tuple | AggregateKind::Closure(..) => {
                        for (i, o) in ops.iter().enumerate() {
                            parts.push((self.cx.field_off(dty, None, i) as u32, self.op(o)));
                        }
                    }
                    AggregateKind::Adt(def, v, _, _, active) => {
                        if let Some(f) = active {
                            let off = self.cx.field_off(dty, None, *f) as u32;
                            parts.push((off, self.op(&ops[0])));
                        } else {
                            let isenum = def.kind() == AdtKind::Enum;
                            let var = if isenum { Some(v.to_index()) } else { None };
                            for (i, o) in ops.iter().enumerate() {
                                parts.push((self.cx.field_off(dty, var, i) as u32, self.op(o)));
                            }
                            if isenum {
                                disc = Some((self.cx.enuml(dty), v.to_index()));
                            }
                        }
                    }
                    AggregateKind::RawPtr(..) => {
                        parts.push((0, self.op(&ops[0])));
                        if d.size == 16 {
                            parts.push((8, self.op(&ops[1])));
                        }
                    }
                    _ => return St::Unsupported("coroutine aggregate".into()),
                }
                St::Agg { dst: d, parts, disc }
            }
            Rvalue::ThreadLocalRef(it) => {
                let sd = rustc_public::mir::mono::StaticDef::try_from(*it);
                match sd {
                    Ok(s) => {
                        let key = format!("{:?}", s);
                        let p = if let Some(&p) = self.cx.staticmap.get(&key) {
                            p
                        } else {
                            let a = s.eval_initializer().unwrap();
                            let p = self.cx.add_global(vec![0; a.bytes.len()], true);
                            self.cx.staticmap.insert(key, p);
                            self.cx.fill(p, &a);
                            self.cx.globals[((p >> 32) as u32 - GLOB_BASE) as usize].mutable = true;
                            p
                        };
                        St::Copy(d, Op::K(Rc::new(p.to_le_bytes().to_vec())))
                    }
                    Err(_) => St::Unsupported("thread local".into()),
                }
            }
        }
    }
    fn stmt(&mut self, s: &Statement) -> Option<St> {
        Some(match &s.kind {
            StatementKind::Assign(p, rv) => self.rvalue(p, rv),
            StatementKind::SetDiscriminant { place, variant_index } => {
                let t = place.ty(self.locals).unwrap();
                let e = self.cx.enuml(t);
                St::SetDiscr { place: self.place(place), e, v: variant_index.to_index() }
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let t = pointee(self.oty(&c.src)).unwrap();
                let size = self.cx.size(t);
                St::CopyNon { src: self.op(&c.src), dst: self.op(&c.dst), n: self.op(&c.count), size }
            }
            _ => return None,
        })
    }
    fn callee(&mut self, func: &Operand) -> Callee {
        let t = self.oty(func);
        match rig(t) {
            RigidTy::FnDef(def, args) => {
                let i = Instance::resolve(def, &args)
                    .unwrap_or_else(|e| panic!("resolve {:?} {:?}: {:?}", def, args, e));
                match i.kind {
                    InstanceKind::Virtual { idx } => Callee::Virtual(idx),
                    _ => {
                        if i.is_empty_shim() {
                            Callee::Drop
                        } else {
                            Callee::Inst(self.cx.func(i, false))
                        }
                    }
                }
            }
            RigidTy::FnPtr(_) => Callee::Ptr(self.op(func)),
            o => panic!("callee {:?}", o),
        }
    }
    fn term(&mut self, t: &Terminator) -> Te {
        match &t.kind {
            TerminatorKind::Goto { target } => Te::Goto(*target),
            TerminatorKind::SwitchInt { discr, targets } => Te::Switch {
                d: self.op(discr),
                targets: targets.branches().collect(),
                otherwise: targets.otherwise(),
            },
            TerminatorKind::Return => Te::Return,
            TerminatorKind::Unreachable => Te::Unreachable,
            TerminatorKind::Resume => Te::Diverge("resume"),
            TerminatorKind::Abort => Te::Diverge("abort"),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(self.locals).unwrap();
                let pl = self.place(place);
                let f = match rig(ty) {
                    RigidTy::Dynamic(..) => Some(DropK::Dyn),
                    _ => {
                        let i = Instance::resolve_drop_in_place(ty);
                        if i.is_empty_shim() {
                            None
                        } else {
                            let w = is_unsized(self.cx, ty);
                            Some(DropK::Inst(self.cx.func(i, false), w))
                        }
                    }
                };
                Te::Drop { place: pl, f, target: *target }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = self.callee(func);
                let last_tuple = args.last().and_then(|a| match rig(self.oty(a)) {
                    RigidTy::Tuple(ts) => {
                        let tt = self.oty(a);
                        Some(
                            ts.iter()
                                .enumerate()
                                .map(|(i, t)| (self.cx.field_off(tt, None, i) as u32, self.cx.size(*t) as u32))
                                .collect(),
                        )
                    }
                    _ => None,
                });
                Te::Call {
                    f,
                    args: args.iter().map(|a| self.op(a)).collect(),
                    dst: self.place(destination),
                    target: *target,
                    last_tuple,
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => Te::Assert {
                cond: self.op(cond),
                expected: *expected,
                msg: msg.description().unwrap_or("assert").to_string(),
                target: *target,
            },
            TerminatorKind::InlineAsm { .. } => Te::Unsupported("inline asm".into()),
        }
    }
}

/// tuple-struct and enum-variant constructors used as functions have no body of their own
fn ctor(cx: &mut Ctx, inst: Instance) -> Option<Func> {
    let sig = match rig(inst.ty()) {
        RigidTy::FnDef(d, a) => {
            let s = inst.ty().kind().fn_sig()?.skip_binder();
            let _ = (d, a);
            (s.output(), s.inputs().to_vec())
        },
        _ => return None,
    };
    let out = sig.0;
    let (def, args) = match rig(out) {
        RigidTy::Adt(d, a) => (d, a),
        _ => return None,
    };
    let isenum = def.kind() == AdtKind::Enum;
    let full = inst.def.name().to_string();
    let nm = full.rsplit("::").next().unwrap_or("").to_string();
    let (vi, fields) = def.variants_iter().enumerate().find_map(|(i, v)| {
        if !isenum || v.name() == nm {
            Some((i, v.fields()))
        } else {
            None
        }
    })?;
    if !isenum {
        let an = def.name().to_string();
        if an.rsplit("::").next() != Some(nm.as_str()) {
            return None;
        }
    }
    if fields.len() != sig.1.len() || fields.iter().zip(&sig.1).any(|(f, t)| f.ty_with_args(&args) != *t) {
        return None;
    }
    let mut offs = vec![];
    let mut cur = 16u64;
    for t in std::iter::once(&out).chain(&sig.1) {
        let lay = cx.lay(*t);
        let a = lay.1.align.max(1);
        cur = (cur + a - 1) / a * a;
        offs.push((cur as u32, lay.1.size as u32));
        cur += lay.1.size;
    }
    let mut parts = vec![];
    for i in 0..fields.len() {
        let o = cx.field_off(out, if isenum { Some(vi) } else { None }, i) as u32;
        parts.push((o, Op::P(Pl { base: offs[i + 1].0, pe: vec![], size: offs[i + 1].1 })));
    }
    let disc = if isenum { Some((cx.enuml(out), vi)) } else { None };
    let st = vec![St::Agg { dst: Pl { base: offs[0].0, pe: vec![], size: offs[0].1 }, parts, disc }];
    Some(Func {
        name: inst.name().to_string(),
        frame: ((cur + 15) / 16 * 16) as u32,
        nargs: sig.1.len(),
        locals: offs,
        spread: false,
        spread_fields: vec![],
        blocks: vec![Blk { st, te: Te::Return }],
    })
}

pub fn translate(cx: &mut Ctx, inst: Instance) -> Option<Func> {
    let Some(body) = inst.body() else {
        return ctor(cx, inst);
    };
    let locals = body.locals();
    let mut offs = vec![];
    let mut cur = 16u64;
    for l in locals {
        let lay = cx.lay(l.ty);
        let a = lay.1.align.max(1);
        cur = (cur + a - 1) / a * a;
        if !lay.1.sized {
            offs.push((cur as u32, 0));
            continue;
        }
        offs.push((cur as u32, lay.1.size as u32));
        cur += lay.1.size;
    }
    let nargs = body.arg_locals().len();
    let spread = body.spread_arg().is_some();
    let mut spread_fields = vec![];
    if let Some(s) = body.spread_arg() {
        if let RigidTy::Tuple(ts) = rig(locals[s].ty) {
            for (i, t) in ts.iter().enumerate() {
                let o = cx.field_off(locals[s].ty, None, i) as u32;
                let z = cx.size(*t) as u32;
                spread_fields.push((o, z));
            }
        }
    }
    let mut blocks = vec![];
    {
        let mut tr = Tr { cx, locals, offs: offs.clone() };
        // only blocks reachable without unwinding
        let mut reach = vec![false; body.blocks.len()];
        let mut wl = vec![0usize];
        while let Some(b) = wl.pop() {
            if reach[b] {
                continue;
            }
            reach[b] = true;
            match &body.blocks[b].terminator.kind {
                TerminatorKind::Goto { target } => wl.push(*target),
                TerminatorKind::SwitchInt { targets, .. } => wl.extend(targets.all_targets()),
                TerminatorKind::Drop { target, .. } => wl.push(*target),
                TerminatorKind::Call { target: Some(t), .. } => wl.push(*t),
                TerminatorKind::Assert { target, .. } => wl.push(*target),
                _ => {}
            }
        }
        for (i, b) in body.blocks.iter().enumerate() {
            if !reach[i] {
                blocks.push(Blk { st: vec![], te: Te::Diverge("unwind block") });
                continue;
            }
            let st = b.statements.iter().filter_map(|s| tr.stmt(s)).collect();
            let te = tr.term(&b.terminator);
            blocks.push(Blk { st, te });
        }
    }
    Some(Func {
        name: inst.name().to_string(),
        frame: ((cur + 15) / 16 * 16) as u32,
        locals: offs,
        nargs,
        spread,
        spread_fields,
        blocks,
    })
}

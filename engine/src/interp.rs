//! Forward abstract interpretation of monomorphic MIR over the partitioned piecewise-affine domain.
use crate::dom::*;
use crate::mem::*;
use rustc_abi::{BackendRepr, FieldsShape, Primitive, TagEncoding, VariantIdx, Variants, FieldIdx};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, BinOp, CastKind, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv, VtblEntry};
use rustc_span::DUMMY_SP;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub enum Stop {
    /// the named symbol's values must be treated separately
    Split(Sym, Vec<Reg>),
    Unsup(String),
    Panic(String),
}
pub type Res<T> = Result<T, Stop>;
pub fn unsup<T>(s: impl Into<String>) -> Res<T> {
    Err(Stop::Unsup(s.into()))
}

#[derive(Clone, Debug)]
pub enum V {
    S(Val),
    B(Rc<Vec<Slot>>),
}
impl V {
    pub fn zst() -> V {
        V::B(Rc::new(vec![]))
    }
}

pub type Ly<'tcx> = TyAndLayout<'tcx>;

#[derive(Clone)]
pub struct Pl<'tcx> {
    pub ptr: Val,
    pub meta: Option<Val>,
    pub ly: Ly<'tcx>,
}

pub struct BodyInfo<'tcx> {
    pub body: mir::Body<'tcx>,
    pub rank: Vec<u32>,
    pub order: Vec<mir::BasicBlock>,
    pub live_in: Vec<Vec<u64>>,
    pub borrowed: Vec<bool>,
    pub lys: Vec<Ly<'tcx>>,
    pub name: String,
    pub local_crate: bool,
    pub rust_call: bool,
    pub nblocks: usize,
}

pub enum Global<'tcx> {
    Mem { bytes: Vec<u8>, provs: BTreeMap<u64, Prov>, init: Option<Vec<bool>> },
    Other(#[allow(dead_code)] &'static str, #[allow(dead_code)] std::marker::PhantomData<&'tcx ()>),
}

#[derive(Clone)]
pub struct Incident {
    pub regs: Vec<Reg>,
    pub msg: String,
    pub at: String,
    pub stack: Vec<String>,
}

pub struct Summary {
    pub pw: Pw,
    pub domain: Reg,
    /// (where, message, site, call stack)
    pub panics: Vec<(Reg, Incident)>,
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub splits: u64,
    pub merges: u64,
    pub cells: u64,
    pub calls: u64,
    pub loads: u64,
    pub summaries: u64,
    pub branches: u64,
    pub functions: BTreeSet<String>,
    pub local_functions: BTreeSet<String>,
    pub call_edges: HashSet<(String, String)>,
}

pub struct Interp<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    bodies: HashMap<Instance<'tcx>, Option<Rc<BodyInfo<'tcx>>>>,
    pub globals: Vec<Global<'tcx>>,
    galloc: HashMap<AllocId, Prov>,
    pub fns: Vec<Instance<'tcx>>,
    fnid: HashMap<Instance<'tcx>, u32>,
    vts: Vec<(Ty<'tcx>, Option<ty::ExistentialTraitRef<'tcx>>)>,
    vtid: HashMap<(Ty<'tcx>, Option<ty::ExistentialTraitRef<'tcx>>), u32>,
    consts: HashMap<mir::Const<'tcx>, V>,
    leaves: HashMap<Ty<'tcx>, Option<Rc<Vec<(u32, u8)>>>>,
    lycache: HashMap<Ty<'tcx>, Ly<'tcx>>,
    resolve: HashMap<(DefId, ty::GenericArgsRef<'tcx>), Instance<'tcx>>,
    pub summaries: HashMap<Instance<'tcx>, Option<Rc<Summary>>>,
    in_progress: HashSet<Instance<'tcx>>,
    pub panics: Vec<Incident>,
    pub undecided: Vec<Incident>,
    pub stack: Vec<(Instance<'tcx>, rustc_span::Span, bool)>,
    pub stats: Stats,
    pub budget: u64,
    pub wide: bool,
    pub trace: bool,
    pub no_summaries: bool,
    model_cache: HashMap<DefId, Model>,
    pub deadline: std::time::Instant,
    pub max_mb: u64,
    pub opaque: Vec<String>,
    opaque_memo: HashMap<(Instance<'tcx>, String), V>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Model {
    None,
    NextCp,
    NextCpRev,
    LenUtf8,
    IsCharBoundary,
    EncodeUtf8,
    CountChars,
    Panic,
    Memcmp,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Nop,
}

const SPLIT_LIMIT: usize = 6000;

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Interp {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            bodies: Default::default(),
            globals: vec![],
            galloc: Default::default(),
            fns: vec![],
            fnid: Default::default(),
            vts: vec![],
            vtid: Default::default(),
            consts: Default::default(),
            leaves: Default::default(),
            lycache: Default::default(),
            resolve: Default::default(),
            summaries: Default::default(),
            in_progress: Default::default(),
            panics: vec![],
            undecided: vec![],
            stack: vec![],
            stats: Default::default(),
            budget: 400_000_000,
            wide: false,
            trace: false,
            no_summaries: false,
            model_cache: Default::default(),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(6 * 3600),
            max_mb: std::env::var("ABSINT_MB").ok().and_then(|s| s.parse().ok()).unwrap_or(3500),
            opaque: vec![],
            opaque_memo: Default::default(),
        }
    }

    pub fn cx(&self) -> LayoutCx<'tcx> {
        LayoutCx::new(self.tcx, self.env)
    }

    pub fn layout(&mut self, t: Ty<'tcx>) -> Res<Ly<'tcx>> {
        if let Some(l) = self.lycache.get(&t) {
            return Ok(*l);
        }
        match self.tcx.layout_of(self.env.as_query_input(t)) {
            Ok(l) => {
                self.lycache.insert(t, l);
                Ok(l)
            }
            Err(e) => unsup(format!("layout of {:?}: {:?}", t, e)),
        }
    }

    // ---------------------------------------------------------------- globals

    pub fn intern_fn(&mut self, i: Instance<'tcx>) -> Prov {
        if let Some(&x) = self.fnid.get(&i) {
            return FNP + x;
        }
        let x = self.fns.len() as u32;
        self.fns.push(i);
        self.fnid.insert(i, x);
        FNP + x
    }
    pub fn intern_vt(&mut self, t: Ty<'tcx>, tr: Option<ty::ExistentialTraitRef<'tcx>>) -> Prov {
        if let Some(&x) = self.vtid.get(&(t, tr)) {
            return VTP + x;
        }
        let x = self.vts.len() as u32;
        self.vts.push((t, tr));
        self.vtid.insert((t, tr), x);
        VTP + x
    }
    pub fn intern_alloc(&mut self, id: AllocId) -> Res<Prov> {
        if let Some(&p) = self.galloc.get(&id) {
            return Ok(p);
        }
        let p = match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => self.intern_fn(instance),
            GlobalAlloc::VTable(t, preds) => {
                let tr = preds.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p));
                self.intern_vt(t, tr)
            }
            GlobalAlloc::Memory(m) => self.intern_mem(id, m)?,
            GlobalAlloc::Static(def) => {
                if self.tcx.is_mutable_static(def) || self.tcx.is_thread_local_static(def) || self.tcx.is_foreign_item(def) {
                    return unsup(format!("mutable or foreign static {}", self.tcx.def_path_str(def)));
                }
                let m = match self.tcx.eval_static_initializer(def) {
                    Ok(m) => m,
                    Err(_) => return unsup("static initializer"),
                };
                self.intern_mem(id, m)?
            }
            _ => {
                let p = GLOBAL + self.globals.len() as u32;
                self.globals.push(Global::Other("type id", std::marker::PhantomData));
                p
            }
        };
        self.galloc.insert(id, p);
        Ok(p)
    }
    fn intern_mem(&mut self, id: AllocId, m: mir::interpret::ConstAllocation<'tcx>) -> Res<Prov> {
        let p = GLOBAL + self.globals.len() as u32;
        self.galloc.insert(id, p);
        self.globals.push(Global::Other("in progress", std::marker::PhantomData));
        let a = m.inner();
        let n = a.len();
        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
        let mut provs = BTreeMap::new();
        let ptrs: Vec<_> = a.provenance().ptrs().iter().map(|(o, pr)| (o.bytes(), pr.alloc_id())).collect();
        for (o, id) in ptrs {
            let q = self.intern_alloc(id)?;
            provs.insert(o, q);
        }
        let full = a.init_mask().is_range_initialized(rustc_middle::mir::interpret::AllocRange { start: rustc_abi::Size::ZERO, size: rustc_abi::Size::from_bytes(n as u64) }).is_ok();
        let init = if full {
            None
        } else {
            Some((0..n).map(|i| a.init_mask().get(rustc_abi::Size::from_bytes(i as u64))).collect())
        };
        self.globals[(p - GLOBAL) as usize] = Global::Mem { bytes, provs, init };
        Ok(p)
    }

    pub fn const_v(&mut self, c: mir::Const<'tcx>) -> Res<V> {
        if let Some(v) = self.consts.get(&c) {
            return Ok(v.clone());
        }
        let ly = self.layout(c.ty())?;
        let cv = match c.eval(self.tcx, self.env, DUMMY_SP) {
            Ok(v) => v,
            Err(_) => return unsup("constant does not evaluate"),
        };
        let v = match cv {
            ConstValue::Scalar(s) => V::S(self.scalar(s)?),
            ConstValue::ZeroSized => V::zst(),
            ConstValue::Slice { alloc_id, meta } => {
                let p = self.intern_alloc(alloc_id)?;
                V::B(Rc::new(vec![Slot { off: 0, size: 8, val: Val::C(0, p) }, Slot { off: 8, size: 8, val: Val::c(meta) }]))
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let p = self.intern_alloc(alloc_id)?;
                let cell = Cell::default();
                self.read(&cell, &Val::C(offset.bytes(), p), ly)?
            }
        };
        self.consts.insert(c, v.clone());
        Ok(v)
    }
    fn scalar(&mut self, s: Scalar) -> Res<Val> {
        Ok(match s {
            Scalar::Int(i) => {
                let b = i.to_bits_unchecked();
                if b > u64::MAX as u128 {
                    Val::W(b)
                } else {
                    Val::c(b as u64)
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let q = self.intern_alloc(prov.alloc_id())?;
                Val::C(off.bytes(), q)
            }
        })
    }

    // ---------------------------------------------------------------- values

    pub fn restrict(&self, cell: &Cell, s: Sym, pw: &Rc<Pw>) -> Val {
        let r = &cell.regs[s as usize];
        // quick exit: domain is the region already
        let n = pw.0.len();
        if n > 0 && r.0.len() == 1 && pw.0[0].lo == r.0[0].0 && pw.0[n - 1].hi == r.0[0].1 {
            if n == 1 {
                if pw.0[0].slope == 0 {
                    return Val::C(pw.0[0].base, pw.0[0].prov);
                }
            }
            return Val::F(s, pw.clone());
        }
        let q = pw.restrict(r);
        match q.as_const() {
            Some((p, v)) => Val::C(v, p),
            None if q.0.is_empty() => Val::U,
            None => Val::F(s, Rc::new(q)),
        }
    }
    pub fn norm(&self, cell: &Cell, v: &Val) -> Val {
        match v {
            Val::F(s, pw) => self.restrict(cell, *s, pw),
            _ => v.clone(),
        }
    }
    fn mk(s: Sym, pw: Pw) -> Val {
        match pw.as_const() {
            Some((p, v)) => Val::C(v, p),
            None if pw.0.is_empty() => Val::U,
            None => Val::F(s, Rc::new(pw)),
        }
    }
    /// Ask for the values of `v` to be treated one by one.
    pub fn split_by_value<T>(&self, cell: &Cell, v: &Val) -> Res<T> {
        match self.norm(cell, v) {
            Val::F(s, pw) => match pw.by_value(SPLIT_LIMIT) {
                Some(g) if g.len() > 1 => {
                    let covered = pw.domain();
                    let mut rs: Vec<Reg> = g.into_iter().map(|x| x.1).collect();
                    let rest = cell.regs[s as usize].minus(&covered);
                    if !rest.is_empty() {
                        rs.push(rest);
                    }
                    Err(Stop::Split(s, rs))
                }
                _ => unsup(format!("too many values to separate (symbol {})", s)),
            },
            _ => unsup("split of a constant"),
        }
    }

    pub fn op2(&mut self, cell: &Cell, op: Op, bits: u32, signed: bool, a: &Val, b: &Val) -> Res<Val> {
        let a = self.norm(cell, a);
        let b = self.norm(cell, b);
        let e = |r: Result<Pw, String>| r.map_err(Stop::Unsup);
        match (&a, &b) {
            (Val::U, _) | (_, Val::U) => Ok(Val::U),
            (Val::W(_), _) | (_, Val::W(_)) | (Val::C(_, 0), Val::C(_, 0)) if bits > 64 => self.op128(op, bits, signed, &a, &b),
            (Val::C(x, 0), Val::C(y, 0)) => match scalar(op, bits, signed, *x, *y) {
                Some(v) => Ok(Val::c(v)),
                None => unsup("division by zero"),
            },
            (Val::C(x, p), Val::C(y, q)) => {
                let f = Pw(vec![Piece { lo: 0, hi: 0, prov: *p, base: *x, slope: 0 }]);
                let r = e(with_const_r(op, bits, signed, &f, *y, *q))?;
                let (p, v) = r.as_const().unwrap();
                Ok(Val::C(v, p))
            }
            _ if bits > 64 => {
                // a piecewise value that fits 64 bits
                match op {
                    Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge | Op::Cmp if !signed => match (&a, &b) {
                        (Val::W(_), _) | (_, Val::W(_)) => unsup("128-bit comparison"),
                        _ => self.op2(cell, op, 64, false, &a, &b),
                    },
                    _ => unsup(format!("128-bit {:?}", op)),
                }
            }
            (Val::F(s, f), Val::C(y, q)) => Ok(Self::mk(*s, e(with_const_r(op, bits, signed, f, *y, *q))?)),
            (Val::C(x, p), Val::F(s, g)) => Ok(Self::mk(*s, e(with_const_l(op, bits, signed, *x, *p, g))?)),
            (Val::F(s, f), Val::F(t, g)) if s == t => Ok(Self::mk(*s, e(zip(op, bits, signed, f, g))?)),
            (Val::F(_, f), Val::F(_, g)) => {
                // two inputs: decide by ranges, else separate the values of the simpler one
                let np = f.0.iter().chain(g.0.iter()).all(|p| p.prov == 0);
                if np && !signed {
                    let (a0, a1) = f.min_max().unwrap();
                    let (b0, b1) = g.min_max().unwrap();
                    let r = match op {
                        Op::Eq if a1 < b0 || b1 < a0 => Some(0),
                        Op::Ne if a1 < b0 || b1 < a0 => Some(1),
                        Op::Lt if a1 < b0 => Some(1),
                        Op::Lt if a0 >= b1 => Some(0),
                        Op::Le if a1 <= b0 => Some(1),
                        Op::Le if a0 > b1 => Some(0),
                        Op::Gt if a0 > b1 => Some(1),
                        Op::Gt if a1 <= b0 => Some(0),
                        Op::Ge if a0 >= b1 => Some(1),
                        Op::Ge if a1 < b0 => Some(0),
                        Op::Cmp if a1 < b0 => Some(0xff),
                        Op::Cmp if a0 > b1 => Some(1),
                        Op::AddO if a1 as u128 + b1 as u128 <= mask(bits) as u128 => Some(0),
                        Op::SubO if a0 >= b1 => Some(0),
                        Op::SubO if a1 < b0 => Some(1),
                        Op::MulO if a1 as u128 * b1 as u128 <= mask(bits) as u128 => Some(0),
                        _ => None,
                    };
                    if let Some(r) = r {
                        return Ok(Val::c(r));
                    }
                }
                if f.spread() <= g.spread() {
                    self.split_by_value(cell, &a)
                } else {
                    self.split_by_value(cell, &b)
                }
            }
            _ => unsup("operands"),
        }
    }

    fn op128(&self, op: Op, bits: u32, signed: bool, a: &Val, b: &Val) -> Res<Val> {
        let g = |v: &Val| match v {
            Val::C(x, 0) => Some(*x as u128),
            Val::W(x) => Some(*x),
            _ => None,
        };
        let (Some(x), Some(y)) = (g(a), g(b)) else { return unsup("128-bit operand") };
        let m = if bits >= 128 { u128::MAX } else { (1 << bits) - 1 };
        let c = || if signed { (x as i128).cmp(&(y as i128)) } else { x.cmp(&y) };
        let r = match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::Mul => x.wrapping_mul(y) & m,
            Op::Div if !signed && y != 0 => x / y,
            Op::Rem if !signed && y != 0 => x % y,
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => x.wrapping_shl(y as u32) & m,
            Op::Shr if !signed => x.wrapping_shr(y as u32),
            Op::Eq => (x == y) as u128,
            Op::Ne => (x != y) as u128,
            Op::Lt => c().is_lt() as u128,
            Op::Le => c().is_le() as u128,
            Op::Gt => c().is_gt() as u128,
            Op::Ge => c().is_ge() as u128,
            Op::Cmp => (c() as i8) as u8 as u128,
            Op::AddO if !signed => x.checked_add(y).is_none() as u128,
            Op::SubO if !signed => x.checked_sub(y).is_none() as u128,
            Op::MulO if !signed => x.checked_mul(y).is_none() as u128,
            _ => return unsup(format!("128-bit {:?}", op)),
        };
        Ok(if r > u64::MAX as u128 { Val::W(r) } else { Val::c(r as u64) })
    }

    pub fn cast_val(&self, cell: &Cell, v: &Val, fb: u32, fsigned: bool, tb: u32) -> Res<Val> {
        match self.norm(cell, v) {
            Val::U => Ok(Val::U),
            Val::C(x, 0) => {
                if tb > 64 {
                    if fsigned && sx(x, fb) < 0 {
                        return Ok(Val::W(sx(x, fb) as i128 as u128));
                    }
                    return Ok(Val::c(x));
                }
                let r = if tb <= fb || !fsigned { x & mask(tb) } else { sx(x, fb) as u64 & mask(tb) };
                Ok(Val::c(r))
            }
            Val::C(x, p) => {
                if tb < 64 {
                    return unsup("pointer truncated");
                }
                Ok(Val::C(x, p))
            }
            Val::W(x) => {
                if tb > 64 {
                    Ok(Val::W(x))
                } else {
                    Ok(Val::c(x as u64 & mask(tb)))
                }
            }
            Val::F(s, pw) => {
                if tb > 64 {
                    if fsigned {
                        return unsup("signed extension to 128 bits");
                    }
                    return Ok(Val::F(s, pw));
                }
                Ok(Self::mk(s, cast(&pw, fb.min(64), fsigned, tb).map_err(Stop::Unsup)?))
            }
        }
    }

    pub fn select(&mut self, cell: &Cell, c: &Val, a: &Val, b: &Val) -> Res<Val> {
        match self.norm(cell, c) {
            Val::C(x, _) => Ok(if x != 0 { a.clone() } else { b.clone() }),
            Val::U => Ok(Val::U),
            Val::F(s, pw) => {
                let r = &cell.regs[s as usize];
                let lift = |v: Val| -> Option<Pw> {
                    match v {
                        Val::C(o, p) => Some(Pw(r.0.iter().map(|&(lo, hi)| Piece { lo, hi, prov: p, base: o, slope: 0 }).collect())),
                        Val::F(t, q) if t == s => Some((*q).clone()),
                        Val::U => Some(Pw(vec![])),
                        _ => None,
                    }
                };
                match (lift(self.norm(cell, a)), lift(self.norm(cell, b))) {
                    (Some(x), Some(y)) => Ok(Self::mk(s, select(&pw, &x, &y))),
                    _ => self.split_by_value(cell, &Val::F(s, pw)),
                }
            }
            _ => unsup("select condition"),
        }
    }

    // ---------------------------------------------------------------- memory

    fn glob(&self, p: Prov) -> Option<&Global<'tcx>> {
        self.globals.get((p - GLOBAL) as usize)
    }

    fn load_global(&self, p: Prov, off: u64, size: u32) -> Result<(u64, Prov, bool), String> {
        match self.glob(p) {
            Some(Global::Mem { bytes, provs, init }) => {
                let n = size as u64;
                if off.checked_add(n).map_or(true, |e| e > bytes.len() as u64) {
                    return Err(format!("constant memory read out of bounds (offset {} size {} of {})", off, n, bytes.len()));
                }
                if let Some(i) = init {
                    if !i[off as usize] {
                        return Ok((0, 0, false));
                    }
                }
                let mut v = 0u64;
                for k in (0..size.min(8) as usize).rev() {
                    v = (v << 8) | bytes[off as usize + k] as u64;
                }
                if !provs.is_empty() {
                    if size == 8 {
                        if let Some(&q) = provs.get(&off) {
                            return Ok((v, q, true));
                        }
                    }
                    let lo = off.saturating_sub(7);
                    if provs.range(lo..off + n).next().is_some() {
                        return Err("part of a pointer read".into());
                    }
                }
                Ok((v, 0, true))
            }
            _ => Err("read of an opaque global".into()),
        }
    }

    pub fn load(&mut self, cell: &Cell, ptr: &Val, size: u32) -> Res<Val> {
        if size == 0 {
            return Ok(Val::U);
        }
        self.stats.loads += 1;
        match self.norm(cell, ptr) {
            Val::C(off, p) => self.load_c(cell, p, off, size),
            Val::F(s, pw) => {
                let mut out = Bld::default();
                for pc in &pw.0 {
                    let n = if pc.slope == 0 { 1 } else { pc.hi - pc.lo + 1 };
                    for k in 0..n {
                        let (lo, hi) = if pc.slope == 0 { (pc.lo, pc.hi) } else { (pc.lo + k, pc.lo + k) };
                        let off = pc.at(lo);
                        if pc.prov >= GLOBAL && pc.prov < FNP && size <= 8 {
                            match self.load_global(pc.prov, off, size) {
                                Ok((v, q, true)) => out.push(Piece { lo, hi, prov: q, base: v, slope: 0 }),
                                Ok((_, _, false)) => {}
                                Err(e) => return unsup(e),
                            }
                        } else {
                            match self.load_c(cell, pc.prov, off, size)? {
                                Val::U => {}
                                Val::C(v, q) => out.push(Piece { lo, hi, prov: q, base: v, slope: 0 }),
                                Val::F(t, f) if t == s => {
                                    for x in &f.restrict(&Reg::new(vec![(lo, hi)])).0 {
                                        out.push(*x);
                                    }
                                }
                                Val::F(t, f) => {
                                    if let Val::C(v, q) = self.norm(cell, &Val::F(t, f)) {
                                        out.push(Piece { lo, hi, prov: q, base: v, slope: 0 })
                                    } else {
                                        return self.split_by_value(cell, &Val::F(s, pw.clone()));
                                    }
                                }
                                Val::W(_) => return self.split_by_value(cell, &Val::F(s, pw.clone())),
                            }
                        }
                    }
                }
                Ok(Self::mk(s, out.done()))
            }
            Val::U => unsup("read through an undefined pointer"),
            Val::W(_) => unsup("wide pointer value"),
        }
    }

    fn load_c(&mut self, cell: &Cell, p: Prov, off: u64, size: u32) -> Res<Val> {
        if p >= GLOBAL && p < FNP {
            if size <= 8 {
                return match self.load_global(p, off, size) {
                    Ok((v, q, true)) => Ok(Val::C(v, q)),
                    Ok((_, _, false)) => Ok(Val::U),
                    Err(e) => unsup(e),
                };
            }
            let lo = self.load_c(cell, p, off, 8)?;
            let hi = self.load_c(cell, p, off + 8, size - 8)?;
            return Self::join128(lo, hi);
        }
        let Some(al) = cell.alloc(p) else {
            if is_local(p) {
                return Ok(Val::U);
            }
            return unsup(format!("read through a dangling pointer ({:x}+{})", p, off));
        };
        if is_heap(p) && off + size as u64 > al.size {
            return unsup("heap read out of bounds");
        }
        let off = off as u32;
        if let Ok(i) = al.find(off) {
            if al.slots[i].size as u32 == size {
                return Ok(al.slots[i].val.clone());
            }
        }
        if size > 8 {
            let al = al.clone();
            if size == 16 {
                let (i, j) = al.overlap(off, size);
                if i == j {
                    return Ok(Val::U);
                }
                let lo = self.load_c(cell, p, off as u64, 8)?;
                let hi = self.load_c(cell, p, off as u64 + 8, size - 8)?;
                return Self::join128(lo, hi);
            }
            return unsup("large scalar read");
        }
        let (i, j) = al.overlap(off, size);
        if i == j {
            return Ok(Val::U);
        }
        let al = al.clone();
        let bytes = self.slice_slots(cell, &al.slots[i..j], off, size)?;
        // combine
        let mut acc: Option<Val> = None;
        let mut covered = 0;
        for s in bytes {
            covered += s.size as u32;
            let sh = (s.off - off) * 8;
            let t = if sh == 0 { s.val } else { self.op2(cell, Op::Shl, 64, false, &s.val, &Val::c(sh as u64))? };
            acc = Some(match acc {
                None => t,
                Some(a) => self.op2(cell, Op::Add, 64, false, &a, &t)?,
            });
        }
        if covered < size {
            return Ok(Val::U);
        }
        Ok(acc.unwrap_or(Val::U))
    }
    fn join128(lo: Val, hi: Val) -> Res<Val> {
        match (lo, hi) {
            (Val::U, _) | (_, Val::U) => Ok(Val::U),
            (x, Val::C(0, 0)) => Ok(x),
            (Val::C(a, 0), Val::C(b, 0)) => Ok(Val::W(a as u128 | (b as u128) << 64)),
            _ => unsup("128-bit piecewise value"),
        }
    }
    /// The part of `slots` within [off, off+size), cut to fit.
    fn slice_slots(&mut self, cell: &Cell, slots: &[Slot], off: u32, size: u32) -> Res<Vec<Slot>> {
        let mut out = vec![];
        for s in slots {
            let lo = s.off.max(off);
            let hi = (s.off + s.size as u32).min(off + size);
            if lo >= hi {
                continue;
            }
            if lo == s.off && hi == s.off + s.size as u32 {
                out.push(s.clone());
                continue;
            }
            if self.wide && s.size == 4 {
                return unsup("part of a character read");
            }
            if s.size > 8 {
                return unsup("part of a 128-bit value read");
            }
            let sh = (lo - s.off) * 8;
            let v = if sh == 0 { s.val.clone() } else { self.op2(cell, Op::Shr, 64, false, &s.val, &Val::c(sh as u64))? };
            let n = (hi - lo) as u8;
            let v = self.cast_val(cell, &v, 64, false, n as u32 * 8)?;
            out.push(Slot { off: lo, size: n, val: v });
        }
        Ok(out)
    }

    pub fn leaves(&mut self, ly: Ly<'tcx>) -> Option<Rc<Vec<(u32, u8)>>> {
        if let Some(x) = self.leaves.get(&ly.ty) {
            if matches!(ly.variants, Variants::Multiple { .. }) || !ly.ty.is_enum() {
                return x.clone();
            }
        }
        let mut v = vec![];
        let r = if self.leaves_into(ly, 0, &mut v) {
            v.sort();
            v.dedup();
            let ok = v.windows(2).all(|w| w[0].0 + w[0].1 as u32 <= w[1].0);
            if ok {
                Some(Rc::new(v))
            } else {
                None
            }
        } else {
            None
        };
        if matches!(ly.variants, Variants::Multiple { .. }) || !ly.ty.is_enum() {
            self.leaves.insert(ly.ty, r.clone());
        }
        r
    }
    fn leaves_into(&mut self, ly: Ly<'tcx>, at: u32, out: &mut Vec<(u32, u8)>) -> bool {
        if out.len() > 8192 {
            return false;
        }
        if ly.is_zst() {
            return true;
        }
        match ly.backend_repr {
            BackendRepr::Scalar(_) => {
                out.push((at, ly.size.bytes() as u8));
                return true;
            }
            BackendRepr::ScalarPair { a, b, b_offset } => {
                let cx = self.cx();
                out.push((at, a.size(&cx).bytes() as u8));
                out.push((at + b_offset.bytes() as u32, b.size(&cx).bytes() as u8));
                return true;
            }
            _ => {}
        }
        if let Variants::Multiple { ref variants, tag, tag_field, .. } = ly.variants {
            let cx = self.cx();
            out.push((at + ly.fields.offset(tag_field.as_usize()).bytes() as u32, tag.size(&cx).bytes() as u8));
            for i in 0..variants.len() {
                let vl = ly.for_variant(&cx, VariantIdx::from_usize(i));
                if let FieldsShape::Arbitrary { .. } = vl.fields {
                    for f in 0..vl.fields.count() {
                        let fl = vl.field(&cx, f);
                        if !self.leaves_into(fl, at + vl.fields.offset(f).bytes() as u32, out) {
                            return false;
                        }
                    }
                }
            }
            return true;
        }
        match &ly.fields {
            FieldsShape::Primitive => {
                out.push((at, ly.size.bytes() as u8));
                true
            }
            FieldsShape::Union(_) => {
                let cx = self.cx();
                let n = ly.fields.count();
                let mut one = None;
                for f in 0..n {
                    let fl = ly.field(&cx, f);
                    if !fl.is_zst() {
                        if one.is_some() {
                            return false;
                        }
                        one = Some(fl);
                    }
                }
                match one {
                    Some(fl) => self.leaves_into(fl, at, out),
                    None => true,
                }
            }
            FieldsShape::Array { stride, count } => {
                if *count > 4096 {
                    return false;
                }
                let cx = self.cx();
                let el = ly.field(&cx, 0);
                for i in 0..*count {
                    if !self.leaves_into(el, at + (i * stride.bytes()) as u32, out) {
                        return false;
                    }
                }
                true
            }
            FieldsShape::Arbitrary { .. } => {
                let cx = self.cx();
                for f in 0..ly.fields.count() {
                    let fl = ly.field(&cx, f);
                    if !self.leaves_into(fl, at + ly.fields.offset(f).bytes() as u32, out) {
                        return false;
                    }
                }
                true
            }
        }
    }

    fn is_scalar(ly: Ly<'tcx>) -> bool {
        matches!(ly.backend_repr, BackendRepr::Scalar(_))
    }

    pub fn read(&mut self, cell: &Cell, ptr: &Val, ly: Ly<'tcx>) -> Res<V> {
        if ly.is_zst() {
            return Ok(V::zst());
        }
        if Self::is_scalar(ly) {
            return Ok(V::S(self.load(cell, ptr, ly.size.bytes() as u32)?));
        }
        Ok(V::B(Rc::new(self.read_blob(cell, ptr, ly.size.bytes() as u32, Some(ly), 1)?)))
    }

    /// `count` consecutive values of layout `ly` (or plain bytes).
    fn read_blob(&mut self, cell: &Cell, ptr: &Val, size: u32, ly: Option<Ly<'tcx>>, count: u32) -> Res<Vec<Slot>> {
        match self.norm(cell, ptr) {
            Val::C(off, p) if is_heap(p) || is_local(p) => {
                let Some(al) = cell.alloc(p).cloned() else {
                    if is_local(p) {
                        return Ok(vec![]);
                    }
                    return unsup("read through a dangling pointer");
                };
                let (i, j) = al.overlap(off as u32, size);
                let mut v = self.slice_slots(cell, &al.slots[i..j], off as u32, size)?;
                for s in v.iter_mut() {
                    s.off -= off as u32;
                }
                Ok(v)
            }
            Val::C(off, p) if p >= GLOBAL && p < FNP => {
                let lv = ly.and_then(|l| self.leaves(l).map(|x| (x, l.size.bytes() as u32)));
                let mut v = vec![];
                if let Some((lv, sz)) = lv {
                    for k in 0..count {
                        for &(o, n) in lv.iter() {
                            let o = o + k * sz;
                            match self.load_c(cell, p, off + o as u64, n as u32)? {
                                Val::U => {}
                                x => v.push(Slot { off: o, size: n, val: x }),
                            }
                        }
                    }
                    return Ok(v);
                }
                // by bytes, whole pointers kept
                let ptrs: Vec<u64> = match self.glob(p) {
                    Some(Global::Mem { provs, .. }) => provs.range(off..off + size as u64).map(|x| *x.0).collect(),
                    _ => return unsup("read of an opaque global"),
                };
                let mut o = 0u32;
                while o < size {
                    let n = if ptrs.contains(&(off + o as u64)) { 8 } else { 1 };
                    match self.load_c(cell, p, off + o as u64, n)? {
                        Val::U => {}
                        x => v.push(Slot { off: o, size: n as u8, val: x }),
                    }
                    o += n;
                }
                Ok(v)
            }
            Val::F(s, pw) => {
                let lv = ly.and_then(|l| self.leaves(l).map(|x| (x, l.size.bytes() as u32)));
                if let Some((lv, sz)) = lv {
                    let mut v = vec![];
                    let f = Val::F(s, pw);
                    for k in 0..count {
                        for &(o, n) in lv.iter() {
                            let o = o + k * sz;
                            let q = self.op2(cell, Op::Add, 64, false, &f, &Val::c(o as u64))?;
                            match self.load(cell, &q, n as u32)? {
                                Val::U => {}
                                x => v.push(Slot { off: o, size: n, val: x }),
                            }
                        }
                    }
                    return Ok(v);
                }
                self.split_by_value(cell, &Val::F(s, pw))
            }
            Val::C(..) if size == 0 => Ok(vec![]),
            _ => unsup("read of an aggregate through a strange pointer"),
        }
    }

    fn prep_ptr(&mut self, cell: &Cell, ptr: &Val) -> Res<(Prov, u64)> {
        match self.norm(cell, ptr) {
            Val::C(o, p) => Ok((p, o)),
            v @ Val::F(..) => self.split_by_value(cell, &v),
            _ => unsup("write through an undefined pointer"),
        }
    }

    /// Write; all failure happens before the memory changes.
    pub fn write(&mut self, cell: &mut Cell, ptr: &Val, ly: Ly<'tcx>, v: &V) -> Res<()> {
        if ly.is_zst() {
            return Ok(());
        }
        let (p, off) = self.prep_ptr(cell, ptr)?;
        match v {
            V::S(x) => {
                let x = self.norm(cell, x);
                self.put_range(cell, p, off, ly.size.bytes() as u32, vec![Slot { off: 0, size: ly.size.bytes() as u8, val: x }])
            }
            V::B(b) => {
                let b = (**b).clone();
                self.put_range(cell, p, off, ly.size.bytes() as u32, b)
            }
        }
    }
    fn put_range(&mut self, cell: &mut Cell, p: Prov, off: u64, size: u32, slots: Vec<Slot>) -> Res<()> {
        if size == 0 {
            return Ok(());
        }
        if !(is_heap(p) || is_local(p)) {
            return unsup("write to constant memory");
        }
        if is_heap(p) {
            match cell.alloc(p) {
                None => return unsup("write to freed memory"),
                Some(a) => {
                    if off + size as u64 > a.size {
                        return unsup("heap write out of bounds");
                    }
                }
            }
        }
        let off = off as u32;
        // break up partial overlaps
        let mut keep = vec![];
        if let Some(a) = cell.alloc(p) {
            let (i, j) = a.overlap(off, size);
            if j > i {
                let first = &a.slots[i];
                let last = &a.slots[j - 1];
                if first.off < off || last.off + last.size as u32 > off + size {
                    let a = a.clone();
                    let first = a.slots[i].clone();
                    let last = a.slots[j - 1].clone();
                    if first.off < off {
                        keep.extend(self.slice_slots(cell, &[first.clone()], first.off, off - first.off)?);
                    }
                    let e = last.off + last.size as u32;
                    if e > off + size {
                        keep.extend(self.slice_slots(cell, &[last], off + size, e - off - size)?);
                    }
                }
            }
        }
        let a = cell.alloc_mut(p).ok_or_else(|| Stop::Unsup("write to dead memory".into()))?;
        if slots.len() == 1 && slots[0].off == 0 && slots[0].size as u32 == size && keep.is_empty() {
            let s = slots.into_iter().next().unwrap();
            a.put(off, s.size, s.val);
            return Ok(());
        }
        let (i, j) = a.overlap(off, size);
        a.slots.drain(i..j);
        for s in keep {
            a.put(s.off, s.size, s.val);
        }
        for s in slots {
            a.put(off + s.off, s.size, s.val);
        }
        Ok(())
    }

    // ---------------------------------------------------------------- places and operands

    fn local_ptr(cell: &Cell, l: mir::Local) -> Val {
        Val::C(0, local_prov(cell.frames.len() - 1, l.as_usize()))
    }

    pub fn place(&mut self, cell: &Cell, b: &BodyInfo<'tcx>, p: &Place<'tcx>) -> Res<Pl<'tcx>> {
        let mut pl = Pl { ptr: Self::local_ptr(cell, p.local), meta: None, ly: b.lys[p.local.as_usize()] };
        for e in p.projection.iter() {
            pl = self.project(cell, pl, &e)?;
        }
        Ok(pl)
    }
    fn add_off(&mut self, cell: &Cell, p: &Val, o: u64) -> Res<Val> {
        if o == 0 {
            return Ok(p.clone());
        }
        if let Val::C(x, q) = p {
            return Ok(Val::C(x.wrapping_add(o), *q));
        }
        self.op2(cell, Op::Add, 64, false, p, &Val::c(o))
    }
    fn project(&mut self, cell: &Cell, pl: Pl<'tcx>, e: &mir::PlaceElem<'tcx>) -> Res<Pl<'tcx>> {
        let cx = self.cx();
        Ok(match *e {
            ProjectionElem::Deref => {
                let t = match pl.ly.ty.builtin_deref(true) {
                    Some(t) => t,
                    None => return unsup(format!("deref of {:?}", pl.ly.ty)),
                };
                let ly = self.layout(t)?;
                let ptr = self.load(cell, &pl.ptr, 8)?;
                let meta = if ly.is_sized() {
                    None
                } else {
                    let q = self.add_off(cell, &pl.ptr, 8)?;
                    Some(self.load(cell, &q, 8)?)
                };
                Pl { ptr, meta, ly }
            }
            ProjectionElem::Field(f, _) => {
                let off = pl.ly.fields.offset(f.as_usize()).bytes();
                let ly = pl.ly.field(&cx, f.as_usize());
                let meta = if ly.is_sized() { None } else { pl.meta.clone() };
                if !ly.is_sized() && off != 0 && matches!(ly.ty.kind(), ty::Dynamic(..)) {
                    return unsup("field behind a dynamic alignment");
                }
                Pl { ptr: self.add_off(cell, &pl.ptr, off)?, meta, ly }
            }
            ProjectionElem::Index(l) => {
                let i = self.load(cell, &Self::local_ptr(cell, l), 8)?;
                let ly = pl.ly.field(&cx, 0);
                let o = self.op2(cell, Op::Mul, 64, false, &i, &Val::c(ly.size.bytes()))?;
                let ptr = self.op2(cell, Op::Add, 64, false, &pl.ptr, &o)?;
                Pl { ptr, meta: None, ly }
            }
            ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                let ly = pl.ly.field(&cx, 0);
                let i = if from_end {
                    let n = self.len_of(&pl)?;
                    self.op2(cell, Op::Sub, 64, false, &n, &Val::c(offset))?
                } else {
                    Val::c(offset)
                };
                let o = self.op2(cell, Op::Mul, 64, false, &i, &Val::c(ly.size.bytes()))?;
                let ptr = self.op2(cell, Op::Add, 64, false, &pl.ptr, &o)?;
                Pl { ptr, meta: None, ly }
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                let el = pl.ly.field(&cx, 0);
                let ptr = self.add_off(cell, &pl.ptr, from * el.size.bytes())?;
                match pl.ly.ty.kind() {
                    ty::Array(t, _) => {
                        let n = match self.len_of(&pl)? {
                            Val::C(n, 0) => n,
                            _ => return unsup("array length"),
                        };
                        let m = if from_end { n - to - from } else { to - from };
                        let ly = self.layout(Ty::new_array(self.tcx, *t, m))?;
                        Pl { ptr, meta: None, ly }
                    }
                    _ => {
                        let n = self.len_of(&pl)?;
                        let m = if from_end { self.op2(cell, Op::Sub, 64, false, &n, &Val::c(from + to))? } else { Val::c(to - from) };
                        Pl { ptr, meta: Some(m), ly: pl.ly }
                    }
                }
            }
            ProjectionElem::Downcast(_, v) => Pl { ly: pl.ly.for_variant(&cx, v), ..pl },
            ProjectionElem::OpaqueCast(t) => Pl { ly: self.layout(t)?, ..pl },
            _ => return unsup("projection"),
        })
    }
    fn len_of(&mut self, pl: &Pl<'tcx>) -> Res<Val> {
        match pl.ly.ty.kind() {
            ty::Array(..) => Ok(Val::c(pl.ly.fields.count() as u64)),
            ty::Slice(_) | ty::Str => pl.meta.clone().ok_or_else(|| Stop::Unsup("slice without length".into())),
            _ => unsup("length"),
        }
    }

    pub fn operand(&mut self, cell: &Cell, b: &BodyInfo<'tcx>, o: &Operand<'tcx>) -> Res<(V, Ly<'tcx>)> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                if p.projection.is_empty() {
                    let ly = b.lys[p.local.as_usize()];
                    if Self::is_scalar(ly) {
                        if let Some(Some(a)) = cell.frames.last().unwrap().get(p.local.as_usize()) {
                            if a.slots.len() == 1 && a.slots[0].off == 0 && a.slots[0].size as u64 == ly.size.bytes() {
                                return Ok((V::S(a.slots[0].val.clone()), ly));
                            }
                        }
                    }
                }
                let pl = self.place(cell, b, p)?;
                Ok((self.read(cell, &pl.ptr, pl.ly)?, pl.ly))
            }
            Operand::Constant(c) => {
                let ly = self.layout(c.const_.ty())?;
                Ok((self.const_v(c.const_)?, ly))
            }
            Operand::RuntimeChecks(r) => {
                let ly = self.layout(self.tcx.types.bool)?;
                let v = matches!(r, mir::RuntimeChecks::OverflowChecks);
                Ok((V::S(Val::b(v)), ly))
            }
        }
    }
    pub fn sval(v: &V) -> Res<Val> {
        match v {
            V::S(x) => Ok(x.clone()),
            V::B(b) if b.len() == 1 => Ok(b[0].val.clone()),
            V::B(b) if b.is_empty() => Ok(Val::U),
            V::B(_) => unsup("scalar expected"),
        }
    }
    /// (thin pointer, metadata)
    pub fn fat(v: &V) -> Res<(Val, Option<Val>)> {
        match v {
            V::S(x) => Ok((x.clone(), None)),
            V::B(b) => {
                let f = |o: u32| b.iter().find(|s| s.off == o && s.size == 8).map(|s| s.val.clone());
                match (f(0), f(8)) {
                    (Some(a), m) => Ok((a, m)),
                    _ => unsup("pointer expected"),
                }
            }
        }
    }
    fn fatv(p: Val, m: Option<Val>) -> V {
        match m {
            None => V::S(p),
            Some(m) => V::B(Rc::new(vec![Slot { off: 0, size: 8, val: p }, Slot { off: 8, size: 8, val: m }])),
        }
    }

    fn bits_signed(&self, ly: Ly<'tcx>) -> (u32, bool) {
        let bits = (ly.size.bytes() * 8) as u32;
        let s = match ly.backend_repr {
            BackendRepr::Scalar(s) => matches!(s.primitive(), Primitive::Int(_, true)),
            _ => false,
        };
        (bits, s)
    }

    pub fn read_discr(&mut self, cell: &Cell, pl: &Pl<'tcx>) -> Res<Val> {
        let ly = pl.ly;
        let dty = ly.ty.discriminant_ty(self.tcx);
        let dl = self.layout(dty)?;
        let dbits = (dl.size.bytes() * 8) as u32;
        match ly.variants {
            Variants::Empty => unsup("discriminant of an empty enum"),
            Variants::Single { index } => {
                let d = match ly.ty.discriminant_for_variant(self.tcx, index) {
                    Some(d) => d.val as u64,
                    None => 0,
                };
                Ok(Val::c(d & mask(dbits)))
            }
            Variants::Multiple { tag, ref tag_encoding, tag_field, .. } => {
                let cx = self.cx();
                let tbits = (tag.size(&cx).bytes() * 8) as u32;
                let off = ly.fields.offset(tag_field.as_usize()).bytes();
                let q = self.add_off(cell, &pl.ptr, off)?;
                let t = self.load(cell, &q, tbits / 8)?;
                match *tag_encoding {
                    TagEncoding::Direct => {
                        let signed = matches!(tag.primitive(), Primitive::Int(_, true));
                        self.cast_val(cell, &t, tbits, signed, dbits)
                    }
                    TagEncoding::Niche { untagged_variant, ref niche_variants, niche_start } => {
                        let first = niche_variants.start.as_u32() as u64;
                        let last = niche_variants.last.as_u32() as u64;
                        let rel = self.op2(cell, Op::Sub, tbits, false, &t, &Val::c(niche_start as u64 & mask(tbits)))?;
                        let inn = self.op2(cell, Op::Le, tbits, false, &rel, &Val::c(last - first))?;
                        let val = if first == last {
                            Val::c(first)
                        } else {
                            // only meaningful where inside the niche
                            match self.norm(cell, &inn) {
                                Val::C(0, _) => Val::c(untagged_variant.as_u32() as u64),
                                Val::C(_, _) => self.op2(cell, Op::Add, tbits, false, &rel, &Val::c(first))?,
                                i => {
                                    let z = self.select(cell, &i, &rel, &Val::c(0))?;
                                    self.op2(cell, Op::Add, tbits, false, &z, &Val::c(first))?
                                }
                            }
                        };
                        self.select(cell, &inn, &val, &Val::c(untagged_variant.as_u32() as u64))
                    }
                }
            }
        }
    }

    /// The tag to store for a variant: (offset, size, value), None when implicit.
    fn tag_for(&mut self, ly: Ly<'tcx>, v: VariantIdx) -> Res<Option<(u32, u8, Val)>> {
        match ly.variants {
            Variants::Multiple { tag, ref tag_encoding, tag_field, .. } => {
                let cx = self.cx();
                let sz = tag.size(&cx).bytes();
                let off = ly.fields.offset(tag_field.as_usize()).bytes() as u32;
                match *tag_encoding {
                    TagEncoding::Direct => {
                        let d = ly.ty.discriminant_for_variant(self.tcx, v).unwrap().val as u64;
                        Ok(Some((off, sz as u8, Val::c(d & mask(sz as u32 * 8)))))
                    }
                    TagEncoding::Niche { untagged_variant, ref niche_variants, niche_start } => {
                        if v == untagged_variant {
                            return Ok(None);
                        }
                        let rel = v.as_u32() as u64 - niche_variants.start.as_u32() as u64;
                        Ok(Some((off, sz as u8, Val::c((niche_start as u64).wrapping_add(rel) & mask(sz as u32 * 8)))))
                    }
                }
            }
            _ => Ok(None),
        }
    }

    /// Finish an aggregate: slots -> value of layout `ly`.
    fn seal(ly: Ly<'tcx>, al: Alloc) -> V {
        if ly.is_zst() {
            V::zst()
        } else if Self::is_scalar(ly) {
            match al.slots.iter().find(|s| s.off == 0 && s.size as u64 == ly.size.bytes()) {
                Some(s) => V::S(s.val.clone()),
                None => {
                    if al.slots.is_empty() {
                        V::S(Val::U)
                    } else {
                        V::B(Rc::new(al.slots))
                    }
                }
            }
        } else {
            V::B(Rc::new(al.slots))
        }
    }
    fn put_v(al: &mut Alloc, off: u32, ly: Ly<'tcx>, v: &V) {
        if ly.is_zst() {
            return;
        }
        match v {
            V::S(x) => al.put(off, ly.size.bytes() as u8, x.clone()),
            V::B(b) => {
                for s in b.iter() {
                    al.put(off + s.off, s.size, s.val.clone());
                }
            }
        }
    }
    pub fn field_of(&mut self, cell: &Cell, v: &V, ly: Ly<'tcx>, i: usize) -> Res<(V, Ly<'tcx>)> {
        let cx = self.cx();
        let fl = ly.field(&cx, i);
        if fl.is_zst() {
            return Ok((V::zst(), fl));
        }
        let off = ly.fields.offset(i).bytes() as u32;
        let n = fl.size.bytes() as u32;
        match v {
            V::S(x) if off == 0 && fl.size == ly.size => Ok((V::S(x.clone()), fl)),
            V::S(x) => {
                let sl = vec![Slot { off: 0, size: ly.size.bytes() as u8, val: x.clone() }];
                let s = self.slice_slots(cell, &sl, off, n)?;
                Ok((Self::sealv(fl, s.into_iter().map(|s| Slot { off: s.off - off, ..s }).collect()), fl))
            }
            V::B(b) => {
                let b = b.clone();
                let s = self.slice_slots(cell, &b, off, n)?;
                Ok((Self::sealv(fl, s.into_iter().map(|s| Slot { off: s.off - off, ..s }).collect()), fl))
            }
        }
    }
    fn sealv(ly: Ly<'tcx>, slots: Vec<Slot>) -> V {
        Self::seal(ly, Alloc { size: 0, slots, hp: false })
    }
    /// Reinterpret a value at another layout of the same size.
    fn transmute(&mut self, cell: &Cell, v: V, from: Ly<'tcx>, to: Ly<'tcx>) -> Res<V> {
        if to.is_zst() {
            return Ok(V::zst());
        }
        let slots = match v {
            V::S(x) => vec![Slot { off: 0, size: from.size.bytes() as u8, val: x }],
            V::B(b) => (*b).clone(),
        };
        if Self::is_scalar(to) {
            let n = to.size.bytes() as u32;
            if slots.len() == 1 && slots[0].off == 0 && slots[0].size as u32 == n {
                return Ok(V::S(slots[0].val.clone()));
            }
            // combine through a scratch allocation
            let mut c = cell.clone();
            let p = c.new_heap(n as u64);
            {
                let a = c.alloc_mut(p).unwrap();
                for s in slots {
                    a.put(s.off, s.size, s.val);
                }
            }
            return Ok(V::S(self.load(&c, &Val::C(0, p), n)?));
        }
        Ok(V::B(Rc::new(slots)))
    }

    pub fn binop(&mut self, cell: &Cell, op: BinOp, l: &V, ll: Ly<'tcx>, r: &V, rl: Ly<'tcx>, out: Option<Ly<'tcx>>) -> Res<V> {
        // fat pointer comparison
        if matches!(ll.backend_repr, BackendRepr::ScalarPair { .. }) && ll.ty.is_any_ptr() {
            let (p, m) = Self::fat(l)?;
            let (q, n) = Self::fat(r)?;
            if op == BinOp::Eq || op == BinOp::Ne {
                let a = self.op2(cell, Op::Eq, 64, false, &p, &q)?;
                let b = self.op2(cell, Op::Eq, 64, false, &m.unwrap_or(Val::c(0)), &n.unwrap_or(Val::c(0)))?;
                let x = self.op2(cell, Op::And, 8, false, &a, &b)?;
                let x = if op == BinOp::Ne { self.op2(cell, Op::Xor, 8, false, &x, &Val::c(1))? } else { x };
                return Ok(V::S(x));
            }
            return unsup("fat pointer comparison");
        }
        if ll.is_zst() {
            return match op {
                BinOp::Eq | BinOp::Le | BinOp::Ge => Ok(V::S(Val::c(1))),
                BinOp::Ne | BinOp::Lt | BinOp::Gt => Ok(V::S(Val::c(0))),
                _ => unsup("unit arithmetic"),
            };
        }
        let (bits, signed) = self.bits_signed(ll);
        let a = Self::sval(l)?;
        let mut b = Self::sval(r)?;
        if let ty::Float(_) = ll.ty.kind() {
            return unsup("floating point");
        }
        let o = match op {
            BinOp::Add | BinOp::AddUnchecked => Op::Add,
            BinOp::Sub | BinOp::SubUnchecked => Op::Sub,
            BinOp::Mul | BinOp::MulUnchecked => Op::Mul,
            BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow => {
                let (x, y) = match op {
                    BinOp::AddWithOverflow => (Op::Add, Op::AddO),
                    BinOp::SubWithOverflow => (Op::Sub, Op::SubO),
                    _ => (Op::Mul, Op::MulO),
                };
                let v = self.op2(cell, x, bits, signed, &a, &b)?;
                let f = self.op2(cell, y, bits, signed, &a, &b)?;
                let ol = match out {
                    Some(o) => o,
                    None => {
                        let t = Ty::new_tup(self.tcx, &[ll.ty, self.tcx.types.bool]);
                        self.layout(t)?
                    }
                };
                let o0 = ol.fields.offset(0).bytes() as u32;
                let o1 = ol.fields.offset(1).bytes() as u32;
                let mut al = Alloc::default();
                al.put(o0, (bits / 8) as u8, v);
                al.put(o1, 1, f);
                return Ok(V::B(Rc::new(al.slots)));
            }
            BinOp::Div => Op::Div,
            BinOp::Rem => Op::Rem,
            BinOp::BitXor => Op::Xor,
            BinOp::BitAnd => Op::And,
            BinOp::BitOr => Op::Or,
            BinOp::Shl | BinOp::ShlUnchecked => Op::Shl,
            BinOp::Shr | BinOp::ShrUnchecked => Op::Shr,
            BinOp::Eq => Op::Eq,
            BinOp::Ne => Op::Ne,
            BinOp::Lt => Op::Lt,
            BinOp::Le => Op::Le,
            BinOp::Gt => Op::Gt,
            BinOp::Ge => Op::Ge,
            BinOp::Cmp => Op::Cmp,
            BinOp::Offset => {
                let t = ll.ty.builtin_deref(true).unwrap();
                let el = self.layout(t)?;
                let o = self.op2(cell, Op::Mul, 64, false, &b, &Val::c(el.size.bytes()))?;
                return Ok(V::S(self.op2(cell, Op::Add, 64, false, &a, &o)?));
            }
        };
        if matches!(o, Op::Shl | Op::Shr) {
            let (rb, rs) = self.bits_signed(rl);
            if rb != bits {
                b = self.cast_val(cell, &b, rb, rs, 64)?;
                if rb > 64 {
                    b = self.cast_val(cell, &b, 128, false, 64)?;
                }
                b = self.op2(cell, Op::And, 64, false, &b, &Val::c(bits as u64 - 1))?;
            }
        }
        Ok(V::S(self.op2(cell, o, bits, signed, &a, &b)?))
    }

    fn rvalue(&mut self, cell: &Cell, b: &BodyInfo<'tcx>, rv: &Rvalue<'tcx>, dest: Ly<'tcx>) -> Res<V> {
        match rv {
            Rvalue::Use(o, _) => Ok(self.operand(cell, b, o)?.0),
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(cell, b, p)?;
                self.read(cell, &pl.ptr, pl.ly)
            }
            Rvalue::Reborrow(_, _, p) => {
                let pl = self.place(cell, b, p)?;
                self.read(cell, &pl.ptr, pl.ly)
            }
            Rvalue::Repeat(o, n) => {
                let (v, el) = self.operand(cell, b, o)?;
                let n = n.try_to_target_usize(self.tcx).ok_or_else(|| Stop::Unsup("repeat count".into()))?;
                if n * el.size.bytes() > 1 << 18 {
                    return unsup("large array");
                }
                let mut al = Alloc::default();
                let undef = match &v {
                    V::S(Val::U) => true,
                    V::B(x) => x.is_empty(),
                    _ => false,
                };
                if !undef {
                    for i in 0..n {
                        Self::put_v(&mut al, (i * el.size.bytes()) as u32, el, &v);
                    }
                }
                Ok(Self::seal(dest, al))
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                let pl = self.place(cell, b, p)?;
                Ok(Self::fatv(pl.ptr, pl.meta))
            }
            Rvalue::BinaryOp(op, ab) => {
                let (l, ll) = self.operand(cell, b, &ab.0)?;
                let (r, rl) = self.operand(cell, b, &ab.1)?;
                self.binop(cell, *op, &l, ll, &r, rl, Some(dest))
            }
            Rvalue::UnaryOp(op, o) => {
                let (v, ly) = self.operand(cell, b, o)?;
                match op {
                    UnOp::Not => {
                        let (bits, _) = self.bits_signed(ly);
                        let m = if ly.ty.is_bool() { 1 } else { mask(bits) };
                        if bits > 64 {
                            let s = Self::sval(&v)?;
                            return match s {
                                Val::C(x, 0) => Ok(V::S(Val::W(!(x as u128)))),
                                Val::W(x) => Ok(V::S(Val::W(!x))),
                                _ => unsup("128-bit not"),
                            };
                        }
                        let s = Self::sval(&v)?;
                        // !x == m - x on words
                        Ok(V::S(self.op2(cell, Op::Sub, bits, false, &Val::c(m), &s)?))
                    }
                    UnOp::Neg => {
                        let (bits, _) = self.bits_signed(ly);
                        if bits > 64 {
                            return unsup("128-bit negation");
                        }
                        let s = Self::sval(&v)?;
                        Ok(V::S(self.op2(cell, Op::Sub, bits, false, &Val::c(0), &s)?))
                    }
                    UnOp::PtrMetadata => {
                        let (_, m) = Self::fat(&v)?;
                        Ok(match m {
                            Some(m) => V::S(m),
                            None => V::zst(),
                        })
                    }
                }
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(cell, b, p)?;
                Ok(V::S(self.read_discr(cell, &pl)?))
            }
            Rvalue::Aggregate(kind, ops) => {
                let mut al = Alloc::default();
                let cx = self.cx();
                let mut vl = dest;
                let mut tag = None;
                let mut only = None;
                match &**kind {
                    mir::AggregateKind::Adt(_, v, _, _, active) => {
                        if dest.ty.is_enum() {
                            vl = dest.for_variant(&cx, *v);
                            tag = self.tag_for(dest, *v)?;
                        }
                        only = *active;
                    }
                    mir::AggregateKind::RawPtr(..) => {
                        let (p, _) = self.operand(cell, b, &ops[FieldIdx::from_usize(0)])?;
                        let (m, ml) = self.operand(cell, b, &ops[FieldIdx::from_usize(1)])?;
                        let (p, _) = Self::fat(&p)?;
                        return Ok(if ml.is_zst() { V::S(p) } else { Self::fatv(p, Some(Self::sval(&m)?)) });
                    }
                    mir::AggregateKind::Coroutine(..) | mir::AggregateKind::CoroutineClosure(..) => return unsup("coroutine"),
                    _ => {}
                }
                for (i, o) in ops.iter_enumerated() {
                    let (v, ly) = self.operand(cell, b, o)?;
                    let fi = match only {
                        Some(f) => f.as_usize(),
                        None => i.as_usize(),
                    };
                    let off = vl.fields.offset(fi).bytes() as u32;
                    Self::put_v(&mut al, off, ly, &v);
                }
                if let Some((o, n, v)) = tag {
                    al.put(o, n, v);
                }
                Ok(Self::seal(dest, al))
            }
            Rvalue::Cast(kind, o, t) => {
                let (v, ly) = self.operand(cell, b, o)?;
                let to = self.layout(*t)?;
                self.cast(cell, *kind, v, ly, to)
            }
            Rvalue::ThreadLocalRef(_) => unsup("thread-local state"),
            Rvalue::WrapUnsafeBinder(o, _) => Ok(self.operand(cell, b, o)?.0),
        }
    }

    fn cast(&mut self, cell: &Cell, kind: CastKind, v: V, ly: Ly<'tcx>, to: Ly<'tcx>) -> Res<V> {
        match kind {
            CastKind::IntToInt => {
                let mut v = v;
                let mut ly = ly;
                if ly.ty.is_enum() {
                    // C-like enum: through its discriminant
                    let mut c = cell.clone();
                    let p = c.new_heap(ly.size.bytes());
                    if !ly.is_zst() {
                        self.write(&mut c, &Val::C(0, p), ly, &v)?;
                    }
                    let d = self.read_discr(&c, &Pl { ptr: Val::C(0, p), meta: None, ly })?;
                    v = V::S(d);
                    let t = ly.ty.discriminant_ty(self.tcx);
                    ly = self.layout(t)?;
                }
                let (fb, fs) = self.bits_signed(ly);
                let (tb, _) = self.bits_signed(to);
                Ok(V::S(self.cast_val(cell, &Self::sval(&v)?, fb, fs, tb)?))
            }
            CastKind::PointerExposeProvenance => Ok(V::S(Self::fat(&v)?.0)),
            CastKind::PointerWithExposedProvenance => Ok(v),
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                let (p, m) = Self::fat(&v)?;
                if to.size.bytes() == 8 {
                    Ok(V::S(p))
                } else {
                    Ok(Self::fatv(p, m))
                }
            }
            CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => self.transmute(cell, v, ly, to),
            CastKind::PointerCoercion(c, _) => match c {
                PointerCoercion::ReifyFnPointer(_) => match *ly.ty.kind() {
                    ty::FnDef(d, args) => {
                        let args = args.no_bound_vars().ok_or_else(|| Stop::Unsup("bound fn item".into()))?;
                        match Instance::resolve_for_fn_ptr(self.tcx, self.env, d, args) {
                            Some(i) => Ok(V::S(Val::C(0, self.intern_fn(i)))),
                            None => unsup("fn pointer"),
                        }
                    }
                    _ => unsup("reify"),
                },
                PointerCoercion::ClosureFnPointer(_) => match *ly.ty.kind() {
                    ty::Closure(d, args) => {
                        let i = Instance::resolve_closure(self.tcx, d, args, ty::ClosureKind::FnOnce);
                        Ok(V::S(Val::C(0, self.intern_fn(i))))
                    }
                    _ => unsup("closure pointer"),
                },
                PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer | PointerCoercion::ArrayToPointer => Ok(v),
                PointerCoercion::Unsize => self.unsize(v, ly, to),
            },
            CastKind::FloatToInt | CastKind::FloatToFloat | CastKind::IntToFloat => unsup("floating point"),
        }
    }

    fn unsize(&mut self, v: V, from: Ly<'tcx>, to: Ly<'tcx>) -> Res<V> {
        // find the pointee types
        let tcx = self.tcx;
        let mut pair = (from.ty, to.ty);
        let (s, d) = loop {
            match (pair.0.builtin_deref(true), pair.1.builtin_deref(true)) {
                (Some(a), Some(b)) => break (a, b),
                _ => {}
            }
            match (pair.0.kind(), pair.1.kind()) {
                (ty::Adt(da, aa), ty::Adt(db, ab)) if da == db => {
                    let mut next = None;
                    if da.is_box() {
                        break (aa.type_at(0), ab.type_at(0));
                    }
                    for f in da.all_fields() {
                        let x = f.ty(tcx, aa).skip_norm_wip();
                        let y = f.ty(tcx, ab).skip_norm_wip();
                        let x = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(x));
                        let y = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(y));
                        if x != y {
                            next = Some((x, y));
                            break;
                        }
                    }
                    match next {
                        Some(n) => pair = n,
                        None => return unsup("unsizing"),
                    }
                }
                (ty::Pat(a, _), ty::Pat(b, _)) => pair = (*a, *b),
                _ => return unsup("unsizing"),
            }
        };
        let (s, d) = tcx.struct_lockstep_tails_for_codegen(s, d, self.env);
        let (p, m) = Self::fat(&v)?;
        match (s.kind(), d.kind()) {
            (ty::Array(_, n), ty::Slice(_)) => {
                let n = n.try_to_target_usize(tcx).ok_or_else(|| Stop::Unsup("array length".into()))?;
                Ok(Self::fatv(p, Some(Val::c(n))))
            }
            (ty::Dynamic(..), ty::Dynamic(..)) => {
                // upcast
                let Some(Val::C(_, vp)) = m else { return unsup("dyn upcast") };
                let (t, _) = self.vts[(vp - VTP) as usize];
                let ty::Dynamic(preds, _) = d.kind() else { unreachable!() };
                let tr = preds.principal().map(|p| tcx.instantiate_bound_regions_with_erased(p));
                let q = self.intern_vt(t, tr);
                Ok(Self::fatv(p, Some(Val::C(0, q))))
            }
            (_, ty::Dynamic(preds, _)) => {
                let tr = preds.principal().map(|p| tcx.instantiate_bound_regions_with_erased(p));
                let q = self.intern_vt(s, tr);
                Ok(Self::fatv(p, Some(Val::C(0, q))))
            }
            _ => unsup("unsizing"),
        }
    }

    // ---------------------------------------------------------------- bodies

    pub fn body(&mut self, i: Instance<'tcx>) -> Option<Rc<BodyInfo<'tcx>>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let r = self.make_body(i);
        self.bodies.insert(i, r.clone());
        r
    }
    pub fn is_std(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate);
        matches!(n.as_str(), "core" | "alloc" | "std" | "hashbrown" | "compiler_builtins" | "num" | "num_traits" | "num_integer" | "num_iter" | "num_rational" | "num_complex")
    }
    fn make_body(&mut self, i: Instance<'tcx>) -> Option<Rc<BodyInfo<'tcx>>> {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) {
                    return None;
                }
            }
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => return None,
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => {}
            _ => {}
        }
        let raw = tcx.instance_mir(i.def);
        let body: mir::Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw.clone()));
        let mut lys = vec![];
        for l in body.local_decls.iter() {
            match self.layout(l.ty) {
                Ok(l) => lys.push(l),
                Err(_) => return None,
            }
        }
        let (rank, order) = ranks(&body);
        let (live_in, borrowed) = liveness(&body);
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(match i.def {
            InstanceKind::Item(d) => tcx.def_path_str(d),
            _ => format!("{}", i),
        });
        let rust_call = tcx.is_closure_like(i.def_id());
        let nblocks = body.basic_blocks.len();
        Some(Rc::new(BodyInfo { rank, order, live_in, borrowed, lys, name, local_crate: !self.is_std(i.def_id()), rust_call, nblocks, body }))
    }

    // ---------------------------------------------------------------- running

    fn site(&self) -> (String, Vec<String>) {
        let tcx = self.tcx;
        let mut names = vec![];
        let mut at = None;
        for (i, sp, local) in self.stack.iter().rev() {
            if *local {
                let n = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(i.def_id()));
                if at.is_none() {
                    let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
                    let f = match &loc.file.name {
                        rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
                        _ => String::new(),
                    };
                    at = Some(format!("{} ({}:{})", n, f, loc.line));
                }
                names.push(n);
            }
        }
        (at.unwrap_or_default(), names)
    }
    fn incident(&self, cell: &Cell, msg: String) -> Incident {
        let (at, stack) = self.site();
        Incident { regs: cell.regs.clone(), msg, at, stack }
    }
    pub fn panic(&mut self, cell: &Cell, msg: String) {
        let i = self.incident(cell, msg);
        self.panics.push(i);
    }
    pub fn give_up(&mut self, cell: &Cell, msg: String) {
        let mut i = self.incident(cell, msg);
        if let Some((inst, _, _)) = self.stack.last() {
            i.msg = format!("{} [in {}]", i.msg, self.tcx.def_path_str(inst.def_id()));
        }
        if self.trace {
            eprintln!("GIVE UP: {} at {} / {:?}", i.msg, i.at, i.stack);
        }
        self.undecided.push(i);
    }

    pub fn run(&mut self, inst: Instance<'tcx>, args: Vec<V>, cell: Cell) -> Vec<(Cell, V)> {
        self.run_inner(inst, args, cell)
    }

    fn run_inner(&mut self, inst: Instance<'tcx>, args: Vec<V>, mut cell: Cell) -> Vec<(Cell, V)> {
        let Some(b) = self.body(inst) else {
            self.give_up(&cell, format!("no body for {}", inst));
            return vec![];
        };
        self.stats.calls += 1;
        if self.stats.functions.insert(b.name.clone()) && b.local_crate {
            let at = self.tcx.sess.source_map().lookup_char_pos(self.tcx.def_span(inst.def_id()).lo());
            self.stats.local_functions.insert(format!("{} ({}:{})", b.name, at.file.name.prefer_local_unconditionally(), at.line));
        }
        if self.stack.len() > 400 {
            self.give_up(&cell, "recursion too deep".into());
            return vec![];
        }
        let depth = cell.frames.len();
        let n = b.body.local_decls.len();
        cell.frames.push(Rc::new(vec![None; n]));
        // arguments
        {
            let mut k = 0;
            for l in b.body.args_iter() {
                let ly = b.lys[l.as_usize()];
                let ptr = Val::C(0, local_prov(depth, l.as_usize()));
                if Some(l) == b.body.spread_arg {
                    let cx = self.cx();
                    let mut al = Alloc::default();
                    for f in 0..ly.fields.count() {
                        let fl = ly.field(&cx, f);
                        let v = match args.get(k) {
                            Some(v) => v.clone(),
                            None => V::zst(),
                        };
                        k += 1;
                        Self::put_v(&mut al, ly.fields.offset(f).bytes() as u32, fl, &v);
                    }
                    let v = Self::seal(ly, al);
                    if self.write(&mut cell, &ptr, ly, &v).is_err() {
                        self.give_up(&cell, "argument".into());
                        return vec![];
                    }
                } else {
                    let v = match args.get(k) {
                        Some(v) => v.clone(),
                        None => V::zst(),
                    };
                    k += 1;
                    if self.write(&mut cell, &ptr, ly, &v).is_err() {
                        self.give_up(&cell, "argument".into());
                        return vec![];
                    }
                }
            }
        }
        self.stack.push((inst, b.body.span, b.local_crate));
        let mut wait: BTreeMap<u32, Vec<Cell>> = BTreeMap::new();
        wait.insert(b.rank[0], vec![cell]);
        let mut done: Vec<Cell> = vec![];
        while let Some((&rk, _)) = wait.iter().next() {
            let cells = wait.remove(&rk).unwrap();
            let bb = b.order[rk as usize];
            let cells = if cells.len() > 1 { self.join(&b, bb, cells) } else { cells };
            for c in cells {
                self.block(&b, bb, c, &mut wait, &mut done);
            }
        }
        self.stack.pop();
        if done.len() > 1 {
            done = self.join_list(done.into_iter().map(|c| {
                // only the returned value matters of this frame
                let mut c = c;
                let f = Rc::make_mut(c.frames.last_mut().unwrap());
                for s in f.iter_mut().skip(1) {
                    *s = None;
                }
                c
            }).collect());
        }
        let rl = b.lys[0];
        let mut out = vec![];
        for mut c in done {
            let v = match self.read(&c, &Val::C(0, local_prov(depth, 0)), rl) {
                Ok(v) => v,
                Err(_) => {
                    self.give_up(&c, "return value".into());
                    continue;
                }
            };
            c.frames.truncate(depth);
            out.push((c, v));
        }
        out
    }

    fn join(&mut self, b: &BodyInfo<'tcx>, bb: mir::BasicBlock, cells: Vec<Cell>) -> Vec<Cell> {
        let live = &b.live_in[bb.as_usize()];
        let cells = cells
            .into_iter()
            .map(|mut c| {
                let f = c.frames.last_mut().unwrap();
                let kill: Vec<usize> = (0..f.len()).filter(|&l| f[l].is_some() && !b.borrowed[l] && live[l / 64] >> (l % 64) & 1 == 0).collect();
                if !kill.is_empty() {
                    let f = Rc::make_mut(f);
                    for l in kill {
                        f[l] = None;
                    }
                }
                c
            })
            .collect();
        self.join_list(cells)
    }
    fn join_list(&mut self, cells: Vec<Cell>) -> Vec<Cell> {
        let mut out: Vec<Cell> = vec![];
        'next: for c in cells {
            let mut c = c;
            let mut again = true;
            while again {
                again = false;
                for i in (0..out.len()).rev() {
                    if out.len() > 64 && i + 64 < out.len() && !Self::one_diff(&out[i], &c) {
                        continue;
                    }
                    if let Some(m) = merge(&out[i], &c) {
                        self.stats.merges += 1;
                        out.swap_remove(i);
                        c = m;
                        again = !out.is_empty();
                        if !again {
                            break;
                        }
                        break;
                    }
                }
                if !again {
                    out.push(c);
                    continue 'next;
                }
            }
        }
        out
    }
    fn one_diff(a: &Cell, b: &Cell) -> bool {
        a.regs.iter().zip(&b.regs).filter(|(x, y)| x != y).count() == 1
    }

    fn block(&mut self, b: &Rc<BodyInfo<'tcx>>, bb: mir::BasicBlock, cell: Cell, wait: &mut BTreeMap<u32, Vec<Cell>>, done: &mut Vec<Cell>) {
        let data = &b.body.basic_blocks[bb];
        let mut todo: Vec<(Cell, usize)> = vec![(cell, 0)];
        while let Some((mut cell, mut at)) = todo.pop() {
            self.stats.cells += 1;
            loop {
                self.stats.steps += 1;
                if self.stats.steps > self.budget
                    || (self.stats.steps & 0xfff == 0 && std::time::Instant::now() > self.deadline)
                    || (self.stats.steps & 0xffff == 0 && resident_mb() > self.max_mb)
                {
                    self.budget = 0;
                    self.give_up(&cell, "analysis budget exhausted".into());
                    break;
                }
                if at < data.statements.len() {
                    match self.statement(b, &data.statements[at], &mut cell) {
                        Ok(()) => {
                            at += 1;
                            continue;
                        }
                        Err(e) => {
                            self.stack.last_mut().unwrap().1 = data.statements[at].source_info.span;
                            self.stop(cell, at, e, &mut todo);
                            break;
                        }
                    }
                }
                let term = data.terminator();
                self.stack.last_mut().unwrap().1 = term.source_info.span;
                match self.terminator(b, &term.kind, &mut cell) {
                    Ok(next) => {
                        for (c, t) in next {
                            match t {
                                Some(t) => wait.entry(b.rank[t.as_usize()]).or_default().push(c),
                                None => done.push(c),
                            }
                        }
                    }
                    Err(e) => self.stop(cell, at, e, &mut todo),
                }
                break;
            }
        }
    }

    fn stop(&mut self, cell: Cell, at: usize, e: Stop, todo: &mut Vec<(Cell, usize)>) {
        match e {
            Stop::Split(s, rs) => {
                self.stats.splits += 1;
                let r = cell.regs[s as usize].clone();
                for q in rs {
                    let q = r.inter(&q);
                    if !q.is_empty() {
                        todo.push((cell.with(s, q), at));
                    }
                }
            }
            Stop::Unsup(m) => self.give_up(&cell, m),
            Stop::Panic(m) => self.panic(&cell, m),
        }
    }

    fn statement(&mut self, b: &BodyInfo<'tcx>, st: &mir::Statement<'tcx>, cell: &mut Cell) -> Res<()> {
        match &st.kind {
            StatementKind::Assign(a) => {
                let (p, rv) = &**a;
                if p.projection.is_empty() {
                    let ly = b.lys[p.local.as_usize()];
                    let v = self.rvalue(cell, b, rv, ly)?;
                    return self.write(cell, &Self::local_ptr(cell, p.local), ly, &v);
                }
                let pl = self.place(cell, b, p)?;
                let v = self.rvalue(cell, b, rv, pl.ly)?;
                self.write(cell, &pl.ptr, pl.ly, &v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pl = self.place(cell, b, place)?;
                if let Some((o, n, v)) = self.tag_for(pl.ly, *variant_index)? {
                    let (p, off) = self.prep_ptr(cell, &pl.ptr)?;
                    self.put_range(cell, p, off + o as u64, n as u32, vec![Slot { off: 0, size: n, val: v }])?;
                }
                Ok(())
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                if cell.frames.last().unwrap()[l.as_usize()].is_some() {
                    Rc::make_mut(cell.frames.last_mut().unwrap())[l.as_usize()] = None;
                }
                Ok(())
            }
            StatementKind::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(_) => Ok(()),
                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let (s, sl) = self.operand(cell, b, &c.src)?;
                    let (d, _) = self.operand(cell, b, &c.dst)?;
                    let (n, _) = self.operand(cell, b, &c.count)?;
                    let t = sl.ty.builtin_deref(true).unwrap();
                    self.copy(cell, &Self::sval(&s)?, &Self::sval(&d)?, &Self::sval(&n)?, t)
                }
            },
            _ => Ok(()),
        }
    }

    pub fn copy(&mut self, cell: &mut Cell, s: &Val, d: &Val, n: &Val, t: Ty<'tcx>) -> Res<()> {
        let ly = self.layout(t)?;
        let n = match self.norm(cell, n) {
            Val::C(n, 0) => n,
            v => return self.split_by_value(cell, &v),
        };
        let size = n * ly.size.bytes();
        if size == 0 {
            return Ok(());
        }
        if size > 1 << 20 {
            return unsup("large copy");
        }
        let (p, off) = self.prep_ptr(cell, d)?;
        let v = self.read_blob(cell, s, size as u32, Some(ly), n as u32)?;
        self.put_range(cell, p, off, size as u32, v)
    }

    fn terminator(&mut self, b: &Rc<BodyInfo<'tcx>>, t: &TerminatorKind<'tcx>, cell: &mut Cell) -> Res<Vec<(Cell, Option<mir::BasicBlock>)>> {
        match t {
            TerminatorKind::Goto { target, .. } => Ok(vec![(std::mem::take(cell), Some(*target))]),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => Ok(vec![(std::mem::take(cell), Some(*real_target))]),
            TerminatorKind::Return => Ok(vec![(std::mem::take(cell), None)]),
            TerminatorKind::Unreachable => unsup("unreachable reached"),
            TerminatorKind::SwitchInt { discr, targets } => {
                let (v, _) = self.operand(cell, b, discr)?;
                match self.norm(cell, &Self::sval(&v)?) {
                    Val::C(x, p) => {
                        if p != 0 {
                            // a pointer: different from every integer
                            return Ok(vec![(std::mem::take(cell), Some(targets.otherwise()))]);
                        }
                        Ok(vec![(std::mem::take(cell), Some(targets.target_for_value(x as u128)))])
                    }
                    Val::W(x) => Ok(vec![(std::mem::take(cell), Some(targets.target_for_value(x)))]),
                    Val::U => unsup("branch on an undefined value"),
                    Val::F(s, pw) => {
                        self.stats.branches += 1;
                        let mut m: BTreeMap<mir::BasicBlock, Vec<(u32, u32)>> = BTreeMap::new();
                        for p in &pw.0 {
                            if p.slope == 0 {
                                let t = if p.prov != 0 { targets.otherwise() } else { targets.target_for_value(p.base as u128) };
                                m.entry(t).or_default().push((p.lo, p.hi));
                            } else {
                                let (mn, mx) = p.ends();
                                let mut hits = vec![];
                                for (v, t) in targets.iter() {
                                    if v >= mn as u128 && v <= mx as u128 {
                                        let d = v as i128 - p.base as i128;
                                        if d % p.slope as i128 == 0 {
                                            hits.push((p.lo + (d / p.slope as i128) as u32, t));
                                        }
                                    }
                                }
                                hits.sort();
                                let mut x = p.lo as u64;
                                for (h, t) in hits {
                                    if (h as u64) > x {
                                        m.entry(targets.otherwise()).or_default().push((x as u32, h - 1));
                                    }
                                    m.entry(t).or_default().push((h, h));
                                    x = h as u64 + 1;
                                }
                                if x <= p.hi as u64 {
                                    m.entry(targets.otherwise()).or_default().push((x as u32, p.hi));
                                }
                            }
                        }
                        let rest = cell.regs[s as usize].minus(&pw.domain());
                        if !rest.is_empty() {
                            let c = cell.with(s, rest);
                            self.give_up(&c, "branch on an undefined value".into());
                        }
                        let mut out = vec![];
                        for (t, r) in m {
                            let c = cell.with(s, Reg::new(r));
                            out.push((c, Some(t)));
                        }
                        Ok(out)
                    }
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (v, _) = self.operand(cell, b, cond)?;
                match self.norm(cell, &Self::sval(&v)?) {
                    Val::C(x, _) => {
                        if (x != 0) == *expected {
                            Ok(vec![(std::mem::take(cell), Some(*target))])
                        } else {
                            Err(Stop::Panic(assert_kind(msg)))
                        }
                    }
                    Val::F(s, pw) => {
                        self.stats.branches += 1;
                        let mut ok = vec![];
                        for p in &pw.0 {
                            if p.slope == 0 {
                                if (p.base != 0) == *expected {
                                    ok.push((p.lo, p.hi));
                                }
                            } else {
                                for x in p.lo..=p.hi {
                                    if (p.at(x) != 0) == *expected {
                                        ok.push((x, x));
                                    }
                                }
                            }
                        }
                        let ok = Reg::new(ok);
                        let bad = cell.regs[s as usize].minus(&ok);
                        let mut out = vec![];
                        if !bad.is_empty() {
                            let c = cell.with(s, bad);
                            self.panic(&c, assert_kind(msg));
                        }
                        if !ok.is_empty() {
                            out.push((cell.with(s, ok), Some(*target)));
                        }
                        Ok(out)
                    }
                    _ => unsup("assertion on an undefined value"),
                }
            }
            TerminatorKind::Drop { place, target, .. } => {
                let pl = self.place(cell, b, place)?;
                let mut t = pl.ly.ty;
                let mut arg = Self::fatv(pl.ptr.clone(), pl.meta.clone());
                if let ty::Dynamic(..) = t.kind() {
                    match pl.meta {
                        Some(Val::C(_, vp)) if vp >= VTP => {
                            t = self.vts[(vp - VTP) as usize].0;
                            arg = V::S(pl.ptr.clone());
                        }
                        _ => return unsup("drop of a dynamic value"),
                    }
                }
                let inst = Instance::resolve_drop_glue(self.tcx, t);
                if let InstanceKind::Shim(ShimKind::DropGlue(_, None)) = inst.def {
                    return Ok(vec![(std::mem::take(cell), Some(*target))]);
                }
                let c = std::mem::take(cell);
                let outs = self.run(inst, vec![arg], c);
                Ok(outs.into_iter().map(|(c, _)| (c, Some(*target))).collect())
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let mut av = vec![];
                for a in args.iter() {
                    av.push(self.operand(cell, b, &a.node)?);
                }
                let (fv, fl) = self.operand(cell, b, func)?;
                let (inst, rust_call, never) = match *fl.ty.kind() {
                    ty::FnDef(d, ga) => {
                        let ga = ga.no_bound_vars().ok_or_else(|| Stop::Unsup("bound fn item".into()))?;
                        let i = match self.resolve.get(&(d, ga)) {
                            Some(i) => *i,
                            None => match Instance::try_resolve(self.tcx, self.env, d, ga) {
                                Ok(Some(i)) => {
                                    self.resolve.insert((d, ga), i);
                                    i
                                }
                                _ => return unsup("unresolved call"),
                            },
                        };
                        let sig = self.tcx.fn_sig(d).skip_binder().skip_binder();
                        (i, sig.abi() == rustc_abi::ExternAbi::RustCall, target.is_none())
                    }
                    ty::FnPtr(..) => match self.norm(cell, &Self::sval(&fv)?) {
                        Val::C(_, p) if p >= FNP && p < VTP => (self.fns[(p - FNP) as usize], false, target.is_none()),
                        v @ Val::F(..) => return self.split_by_value(cell, &v),
                        _ => return unsup("call through a strange pointer"),
                    },
                    _ => return unsup("callee"),
                };
                let mut vals: Vec<(V, Ly<'tcx>)> = av;
                if rust_call && !vals.is_empty() {
                    let (tv, tl) = vals.pop().unwrap();
                    for i in 0..tl.fields.count() {
                        vals.push(self.field_of(cell, &tv, tl, i)?);
                    }
                }
                let dest = if never { None } else { Some(self.place(cell, b, destination)?) };
                if let Some(d) = &dest {
                    // a destination behind a piecewise pointer must be separated before the call
                    if let Val::F(..) = self.norm(cell, &d.ptr) {
                        return self.split_by_value(cell, &d.ptr);
                    }
                }
                let outs = self.call(cell, inst, vals, dest.as_ref().map(|d| d.ly), never)?;
                let mut res = vec![];
                for (mut c, v) in outs {
                    if let (Some(d), Some(t)) = (&dest, target) {
                        match self.write(&mut c, &d.ptr, d.ly, &v) {
                            Ok(()) => res.push((c, Some(*t))),
                            Err(Stop::Unsup(m)) => self.give_up(&c, m),
                            Err(_) => self.give_up(&c, "return value".into()),
                        }
                    }
                }
                Ok(res)
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => unsup("unwinding"),
            _ => unsup("terminator"),
        }
    }

    pub fn model(&mut self, i: Instance<'tcx>) -> Model {
        let d = match i.def {
            InstanceKind::Item(d) => d,
            _ => return Model::None,
        };
        if let Some(m) = self.model_cache.get(&d) {
            return *m;
        }
        let tcx = self.tcx;
        let mut m = Model::None;
        if self.is_std(d) || tcx.is_foreign_item(d) {
            let path = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d));
            let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
            m = match name.as_str() {
                "next_code_point" => Model::NextCp,
                "next_code_point_reverse" => Model::NextCpRev,
                "len_utf8" => Model::LenUtf8,
                "is_char_boundary" => Model::IsCharBoundary,
                "encode_utf8_raw_unchecked" => Model::EncodeUtf8,
                "count_chars" | "do_count_chars" | "char_count_general_case" => Model::CountChars,
                "__rust_alloc" => Model::Alloc,
                "__rust_alloc_zeroed" => Model::AllocZeroed,
                "__rust_dealloc" => Model::Dealloc,
                "__rust_realloc" => Model::Realloc,
                "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" => Model::Nop,
                "memcmp" | "bcmp" => Model::Memcmp,
                _ => Model::None,
            };
            let _ = path;
        }
        self.model_cache.insert(d, m);
        m
    }

    fn call(&mut self, cell: &mut Cell, inst: Instance<'tcx>, args: Vec<(V, Ly<'tcx>)>, ret: Option<Ly<'tcx>>, never: bool) -> Res<Vec<(Cell, V)>> {
        let mut inst = inst;
        let mut args = args;
        match inst.def {
            InstanceKind::Intrinsic(d) => {
                return self.intrinsic(cell, inst, d, args, ret);
            }
            InstanceKind::LlvmIntrinsic(_) => return unsup("llvm intrinsic"),
            InstanceKind::Virtual(_, idx) => {
                let (p, m) = Self::fat(&args[0].0)?;
                let vp = match m.map(|m| self.norm(cell, &m)) {
                    Some(Val::C(_, vp)) if vp >= VTP => vp,
                    Some(v @ Val::F(..)) => return self.split_by_value(cell, &v),
                    _ => return unsup("virtual call"),
                };
                let (t, tr) = self.vts[(vp - VTP) as usize];
                let Some(tr) = tr else { return unsup("virtual call without a trait") };
                let entries = self.tcx.vtable_entries(tr.with_self_ty(self.tcx, t));
                match entries.get(idx) {
                    Some(VtblEntry::Method(i)) => {
                        inst = *i;
                        let unit = args[0].1;
                        args[0] = (V::S(p), unit);
                    }
                    _ => return unsup("vtable entry"),
                }
            }
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => return Ok(vec![(std::mem::take(cell), V::zst())]),
            _ => {}
        }
        if never {
            let d = inst.def_id();
            let name = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
            return Err(Stop::Panic(name));
        }
        match self.model(inst) {
            Model::None | Model::Panic => {}
            m => {
                if let Some(r) = self.run_model(cell, m, inst, &args, ret)? {
                    return Ok(r);
                }
            }
        }
        // pure functions of one number: by summary
        if let Some(r) = self.try_summary(cell, inst, &args, ret)? {
            return Ok(r);
        }
        let c = std::mem::take(cell);
        Ok(self.run(inst, args.into_iter().map(|a| a.0).collect(), c))
    }

    fn simple_int(ly: Ly<'tcx>) -> bool {
        match ly.backend_repr {
            BackendRepr::Scalar(s) => matches!(s.primitive(), Primitive::Int(..)) && ly.size.bytes() <= 8,
            _ => false,
        }
    }

    fn arg_domain(&self, ly: Ly<'tcx>) -> Option<Reg> {
        let BackendRepr::Scalar(s) = ly.backend_repr else { return None };
        if ly.ty.is_char() {
            return Some(Reg::new(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]));
        }
        let r = s.valid_range(&self.cx());
        match ly.ty.kind() {
            ty::Uint(_) if ly.size.bytes() == 4 => Some(Reg::new(vec![(0, 0x10FFFF)])),
            _ if ly.size.bytes() <= 2 && r.start <= r.end => {
                // enums with holes: only declared discriminants
                if let ty::Adt(a, _) = ly.ty.kind() {
                    if a.is_enum() {
                        if let Variants::Multiple { tag_encoding: TagEncoding::Direct, .. } = ly.variants {
                            return Some(Reg::new(a.discriminants(self.tcx).map(|(_, d)| (d.val as u32, d.val as u32)).collect()));
                        }
                        return None;
                    }
                }
                Some(Reg::new(vec![(r.start as u32, r.end as u32)]))
            }
            _ => None,
        }
    }

    fn try_summary(&mut self, cell: &mut Cell, inst: Instance<'tcx>, args: &[(V, Ly<'tcx>)], ret: Option<Ly<'tcx>>) -> Res<Option<Vec<(Cell, V)>>> {
        if self.no_summaries {
            return Ok(None);
        }
        let Some(rl) = ret else { return Ok(None) };
        if !Self::simple_int(rl) {
            return Ok(None);
        }
        let InstanceKind::Item(d) = inst.def else { return Ok(None) };
        if self.is_std(d) {
            return Ok(None);
        }
        let mut one = None;
        for a in args {
            if a.1.is_zst() {
                continue;
            }
            if one.is_some() || !Self::simple_int(a.1) {
                return Ok(None);
            }
            one = Some(a);
        }
        let Some((av, al)) = one else { return Ok(None) };
        if self.in_progress.contains(&inst) {
            return Ok(None);
        }
        let sm = match self.summaries.get(&inst) {
            Some(s) => s.clone(),
            None => {
                let s = self.make_summary(inst, args, *al);
                self.summaries.insert(inst, s.clone());
                s
            }
        };
        let Some(sm) = sm else { return Ok(None) };
        let v = self.norm(cell, &Self::sval(av)?);
        match v {
            Val::C(x, 0) => {
                if x > u32::MAX as u64 || !sm.domain.contains(x as u32) {
                    return Ok(None);
                }
                for (r, m) in &sm.panics {
                    if r.contains(x as u32) {
                        let mut i = m.clone();
                        let (_, st) = self.site();
                        i.stack.extend(st);
                        i.regs = cell.regs.clone();
                        self.panics.push(i);
                        return Ok(Some(vec![]));
                    }
                }
                match sm.pw.find(x as u32) {
                    Some(p) => {
                        let v = Val::C(p.at(x as u32), p.prov);
                        Ok(Some(vec![(std::mem::take(cell), V::S(v))]))
                    }
                    None => Ok(None),
                }
            }
            Val::F(s, f) => {
                let r = sm.pw.compose(&f);
                let dom = r.domain();
                let reg = cell.regs[s as usize].clone();
                let rest = reg.minus(&dom);
                if rest.is_empty() {
                    return Ok(Some(vec![(std::mem::take(cell), V::S(Self::mk(s, r)))]));
                }
                // panics and values outside the summary's domain
                let mut parts = vec![];
                for (pr, _) in &sm.panics {
                    let ind = Pw(pr.0.iter().map(|&(lo, hi)| Piece { lo, hi, prov: 0, base: 1, slope: 0 }).collect());
                    let hit = ind.compose(&f).domain().inter(&reg);
                    if !hit.is_empty() {
                        parts.push(hit);
                    }
                }
                let mut known = dom.clone();
                for p in &parts {
                    known = known.union(p);
                }
                let other = reg.minus(&known);
                if !other.is_empty() {
                    parts.push(other);
                }
                let ok = dom.inter(&reg);
                if parts.len() == 1 && ok.is_empty() {
                    // entirely outside the domain or entirely panicking
                    for (pr, m) in &sm.panics {
                        let ind = Pw(pr.0.iter().map(|&(lo, hi)| Piece { lo, hi, prov: 0, base: 1, slope: 0 }).collect());
                        if !ind.compose(&f).domain().inter(&reg).is_empty() {
                            let mut i = m.clone();
                            let (_, st) = self.site();
                            i.stack.extend(st);
                            i.regs = cell.regs.clone();
                            self.panics.push(i);
                            return Ok(Some(vec![]));
                        }
                    }
                    return Ok(None);
                }
                if !ok.is_empty() {
                    parts.push(ok);
                }
                Err(Stop::Split(s, parts))
            }
            _ => Ok(None),
        }
    }

    fn make_summary(&mut self, inst: Instance<'tcx>, args: &[(V, Ly<'tcx>)], al: Ly<'tcx>) -> Option<Rc<Summary>> {
        let dom = self.arg_domain(al)?;
        self.in_progress.insert(inst);
        let cell = Cell { regs: vec![dom.clone()], frames: vec![], heap: vec![] };
        let av: Vec<V> = args
            .iter()
            .map(|a| if a.1.is_zst() { V::zst() } else { V::S(Val::F(0, Rc::new(Pw::ident(&dom)))) })
            .collect();
        let sp = std::mem::take(&mut self.panics);
        let su = std::mem::take(&mut self.undecided);
        let st = std::mem::take(&mut self.stack);
        let outs = self.run(inst, av, cell);
        self.stack = st;
        let panics = std::mem::replace(&mut self.panics, sp);
        let und = std::mem::replace(&mut self.undecided, su);
        self.in_progress.remove(&inst);
        if !und.is_empty() {
            if self.trace {
                eprintln!("no summary for {}: {}", inst, und[0].msg);
            }
            return None;
        }
        let mut pw = Pw(vec![]);
        for (c, v) in outs {
            let v = Self::sval(&v).ok()?;
            let r = &c.regs[0];
            let f = match self.norm(&c, &v) {
                Val::C(x, p) => {
                    if is_heap(p) || is_local(p) {
                        return None;
                    }
                    Pw(r.0.iter().map(|&(lo, hi)| Piece { lo, hi, prov: p, base: x, slope: 0 }).collect())
                }
                Val::F(_, f) => (*f).clone(),
                _ => return None,
            };
            pw = pw.concat(&f);
        }
        self.stats.summaries += 1;
        Some(Rc::new(Summary { pw, domain: dom, panics: panics.into_iter().map(|i| (i.regs[0].clone(), i)).collect() }))
    }

    // ---------------------------------------------------------------- models

    fn run_model(&mut self, cell: &mut Cell, m: Model, _inst: Instance<'tcx>, args: &[(V, Ly<'tcx>)], ret: Option<Ly<'tcx>>) -> Res<Option<Vec<(Cell, V)>>> {
        let a = |i: usize| -> Res<Val> { Self::sval(&args[i].0) };
        let kc = |me: &Self, cell: &Cell, v: &Val| -> Res<u64> {
            match me.norm(cell, v) {
                Val::C(n, 0) => Ok(n),
                v => me.split_by_value(cell, &v),
            }
        };
        match m {
            Model::Nop => Ok(Some(vec![(std::mem::take(cell), V::zst())])),
            Model::Alloc | Model::AllocZeroed => {
                let n = kc(self, cell, &a(0)?)?;
                if n > 1 << 24 {
                    return unsup("large allocation");
                }
                let p = cell.new_heap(n);
                if m == Model::AllocZeroed {
                    if n > 1 << 16 {
                        return unsup("large zeroed allocation");
                    }
                    let al = cell.alloc_mut(p).unwrap();
                    al.slots = (0..n as u32).map(|i| Slot { off: i, size: 1, val: Val::c(0) }).collect();
                }
                Ok(Some(vec![(std::mem::take(cell), V::S(Val::C(0, p)))]))
            }
            Model::Dealloc => {
                let (p, _) = self.prep_ptr(cell, &a(0)?)?;
                if !is_heap(p) || cell.alloc(p).is_none() {
                    return unsup("free of a pointer that is not allocated");
                }
                cell.heap[p as usize - 1] = None;
                Ok(Some(vec![(std::mem::take(cell), V::zst())]))
            }
            Model::Realloc => {
                let (p, _) = self.prep_ptr(cell, &a(0)?)?;
                let n = kc(self, cell, &a(3)?)?;
                if !is_heap(p) {
                    return unsup("realloc");
                }
                let Some(old) = cell.alloc(p).cloned() else { return unsup("realloc of freed memory") };
                let q = cell.new_heap(n);
                let al = cell.alloc_mut(q).unwrap();
                al.slots = old.slots.iter().filter(|s| s.off as u64 + s.size as u64 <= n).cloned().collect();
                al.hp = old.hp;
                cell.heap[p as usize - 1] = None;
                Ok(Some(vec![(std::mem::take(cell), V::S(Val::C(0, q)))]))
            }
            Model::Memcmp => {
                let r = self.compare_bytes(cell, &a(0)?, &a(1)?, &a(2)?)?;
                Ok(Some(vec![(std::mem::take(cell), V::S(r))]))
            }
            Model::LenUtf8 if self.wide => {
                // every character takes four units in the wide string model
                if ret.map(|r| r.size.bytes()) == Some(8) {
                    return Ok(Some(vec![(std::mem::take(cell), V::S(Val::c(4)))]));
                }
                Ok(None)
            }
            Model::IsCharBoundary if self.wide => {
                let (p, n) = Self::fat(&args[0].0)?;
                let n = n.unwrap_or(Val::U);
                if !self.wide_mem(cell, &p) {
                    return Ok(None);
                }
                let i = a(1)?;
                let inr = self.op2(cell, Op::Le, 64, false, &i, &n)?;
                let r = self.op2(cell, Op::And, 64, false, &i, &Val::c(3))?;
                let z = self.op2(cell, Op::Eq, 64, false, &r, &Val::c(0))?;
                let b = self.op2(cell, Op::And, 8, false, &inr, &z)?;
                Ok(Some(vec![(std::mem::take(cell), V::S(b))]))
            }
            Model::EncodeUtf8 if self.wide => {
                // (code: u32, dst: *mut u8)
                let code = a(0)?;
                let (p, off) = self.prep_ptr(cell, &Self::fat(&args[1].0)?.0)?;
                let code = self.norm(cell, &code);
                self.put_range(cell, p, off, 4, vec![Slot { off: 0, size: 4, val: code }])?;
                Ok(Some(vec![(std::mem::take(cell), V::zst())]))
            }
            Model::CountChars if self.wide => {
                let (p, n) = Self::fat(&args[0].0)?;
                if !self.wide_mem(cell, &p) {
                    return Ok(None);
                }
                let r = self.op2(cell, Op::Div, 64, false, &n.unwrap_or(Val::U), &Val::c(4))?;
                Ok(Some(vec![(std::mem::take(cell), V::S(r))]))
            }
            Model::NextCp | Model::NextCpRev if self.wide => {
                // &mut slice::Iter<u8>: ptr, end_or_len
                let it = a(0)?;
                let t = args[0].1.ty.builtin_deref(true).unwrap();
                let il = self.layout(t)?;
                // only for core::slice::Iter<'_, u8>
                let is_iter = match t.kind() {
                    ty::Adt(d, _) => self.tcx.def_path_str(d.did()).ends_with("slice::Iter") && il.size.bytes() == 16,
                    _ => false,
                };
                if !is_iter {
                    return unsup("decoding characters from a byte iterator that is not a slice iterator");
                }
                let cx = self.cx();
                let (mut po, mut eo) = (0, 8);
                if let ty::Adt(d, _) = t.kind() {
                    for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                        match f.name.as_str() {
                            "ptr" => po = il.fields.offset(i).bytes(),
                            "end_or_len" => eo = il.fields.offset(i).bytes(),
                            _ => {}
                        }
                    }
                }
                let _ = cx;
                let pa = self.add_off(cell, &it, po)?;
                let ea = self.add_off(cell, &it, eo)?;
                let p = self.load(cell, &pa, 8)?;
                let e = self.load(cell, &ea, 8)?;
                let base = if m == Model::NextCp { &p } else { &e };
                let empty = self.op2(cell, Op::Eq, 64, false, &p, &e)?;
                let empty = match self.norm(cell, &empty) {
                    Val::C(x, _) => x != 0,
                    v => return self.split_by_value(cell, &v),
                };
                let rl = ret.unwrap();
                if empty {
                    return Ok(Some(vec![(std::mem::take(cell), self.mk_opt(rl, None)?)]));
                }
                if !self.wide_mem(cell, base) {
                    return Ok(None);
                }
                let (np, at) = if m == Model::NextCp {
                    (self.add_off(cell, &p, 4)?, p.clone())
                } else {
                    let q = self.op2(cell, Op::Sub, 64, false, &e, &Val::c(4))?;
                    (q.clone(), q)
                };
                let c = self.load(cell, &at, 4)?;
                let v = self.mk_opt(rl, Some(c))?;
                let tgt = if m == Model::NextCp { &pa } else { &ea };
                let (tp, to) = self.prep_ptr(cell, tgt)?;
                self.put_range(cell, tp, to, 8, vec![Slot { off: 0, size: 8, val: np }])?;
                Ok(Some(vec![(std::mem::take(cell), v)]))
            }
            _ => Ok(None),
        }
    }
    /// Does this pointer lead to a string in the one-slot-per-character model?
    fn wide_mem(&self, cell: &Cell, p: &Val) -> bool {
        match self.norm(cell, p) {
            Val::C(_, p) => match cell.alloc(p) {
                Some(a) => a.slots.iter().all(|s| s.size == 4),
                None => is_heap(p) || is_local(p) || p == 0,
            },
            Val::F(_, pw) => pw.0.iter().all(|x| cell.alloc(x.prov).map_or(false, |a| a.slots.iter().all(|s| s.size == 4))),
            _ => false,
        }
    }
    /// Option<u32> as laid out
    fn mk_opt(&mut self, rl: Ly<'tcx>, v: Option<Val>) -> Res<V> {
        let cx = self.cx();
        let mut al = Alloc::default();
        let idx = VariantIdx::from_usize(if v.is_some() { 1 } else { 0 });
        if let Some(v) = v {
            let vl = rl.for_variant(&cx, idx);
            al.put(vl.fields.offset(0).bytes() as u32, 4, v);
        }
        if let Some((o, n, t)) = self.tag_for(rl, idx)? {
            al.put(o, n, t);
        }
        Ok(Self::seal(rl, al))
    }

    pub fn compare_bytes(&mut self, cell: &Cell, a: &Val, b: &Val, n: &Val) -> Res<Val> {
        let n = match self.norm(cell, n) {
            Val::C(n, 0) => n,
            v => return self.split_by_value(cell, &v),
        };
        let mut cs: Vec<Val> = vec![];
        let mut i = 0;
        let mut unit = 1u64;
        if self.wide && n > 0 {
            let (wa, wb) = (self.wide_mem(cell, a), self.wide_mem(cell, b));
            if wa && wb {
                unit = 4;
            } else if wa != wb {
                return unsup("comparison of a modelled string with plain bytes");
            }
        }
        while i < n {
            let p = self.add_off(cell, a, i)?;
            let q = self.add_off(cell, b, i)?;
            let x = self.load(cell, &p, unit as u32)?;
            let y = self.load(cell, &q, unit as u32)?;
            let c = self.op2(cell, Op::Cmp, unit as u32 * 8, false, &x, &y)?;
            match c {
                Val::C(0, _) => {}
                Val::C(_, _) => {
                    cs.push(c);
                    break;
                }
                Val::U => return unsup("comparison of undefined bytes"),
                f => {
                    if let (Some(Val::F(s, _)), Val::F(t, _)) = (cs.first(), &f) {
                        if s != t {
                            let v = cs[0].clone();
                            return self.split_by_value(cell, &v);
                        }
                    }
                    // cannot be equal any more?
                    let never0 = match &f {
                        Val::F(_, pw) => pw.0.iter().all(|p| p.slope == 0 && p.base != 0),
                        _ => false,
                    };
                    cs.push(f);
                    if never0 {
                        break;
                    }
                }
            }
            i += unit;
        }
        let ext = |c: &Val| -> Val {
            match c {
                Val::C(x, _) => Val::c(sx(*x, 8) as u64 & 0xffff_ffff),
                _ => unreachable!(),
            }
        };
        // fold from the end: first difference wins
        let mut acc: Option<Val> = None;
        for c in cs.iter().rev() {
            let w = match c {
                Val::C(..) => ext(c),
                _ => self.cast_val(cell, c, 8, true, 32)?,
            };
            acc = Some(match acc {
                None => w,
                Some(r) => {
                    let z = self.op2(cell, Op::Eq, 32, false, &w, &Val::c(0))?;
                    self.select(cell, &z, &r, &w)?
                }
            });
        }
        Ok(acc.unwrap_or(Val::c(0)))
    }

    // ---------------------------------------------------------------- intrinsics

    fn size_align_val(&mut self, cell: &Cell, ly: Ly<'tcx>, meta: Option<Val>) -> Res<(Val, u64)> {
        if ly.is_sized() {
            return Ok((Val::c(ly.size.bytes()), ly.align.bytes()));
        }
        match ly.ty.kind() {
            ty::Slice(_) | ty::Str => {
                let cx = self.cx();
                let el = ly.field(&cx, 0);
                let m = meta.ok_or_else(|| Stop::Unsup("slice metadata".into()))?;
                Ok((self.op2(cell, Op::Mul, 64, false, &m, &Val::c(el.size.bytes()))?, el.align.bytes()))
            }
            ty::Dynamic(..) => match meta.map(|m| self.norm(cell, &m)) {
                Some(Val::C(_, vp)) if vp >= VTP => {
                    let t = self.vts[(vp - VTP) as usize].0;
                    let l = self.layout(t)?;
                    Ok((Val::c(l.size.bytes()), l.align.bytes()))
                }
                _ => unsup("dyn metadata"),
            },
            _ => unsup("size of an unsized value"),
        }
    }

    fn intrinsic(&mut self, cell: &mut Cell, inst: Instance<'tcx>, d: DefId, args: Vec<(V, Ly<'tcx>)>, ret: Option<Ly<'tcx>>) -> Res<Vec<(Cell, V)>> {
        let tcx = self.tcx;
        let name = tcx.item_name(d);
        let name = name.as_str();
        let a = |i: usize| -> Res<Val> { Self::sval(&args[i].0) };
        let one = |cell: &mut Cell, v: V| -> Res<Vec<(Cell, V)>> { Ok(vec![(std::mem::take(cell), v)]) };
        let s = |cell: &mut Cell, v: Val| -> Res<Vec<(Cell, V)>> { Ok(vec![(std::mem::take(cell), V::S(v))]) };
        let ta = |i: usize| inst.args.type_at(i);
        match name {
            "size_of" => {
                let l = self.layout(ta(0))?;
                s(cell, Val::c(l.size.bytes()))
            }
            "align_of" | "min_align_of" => {
                let l = self.layout(ta(0))?;
                s(cell, Val::c(l.align.bytes()))
            }
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                let l = self.layout(ta(0))?;
                let (_, m) = Self::fat(&args[0].0)?;
                let (sz, al) = self.size_align_val(cell, l, m)?;
                s(cell, if name == "size_of_val" { sz } else { Val::c(al) })
            }
            "needs_drop" => {
                let v = ta(0).needs_drop(tcx, self.env);
                s(cell, Val::b(v))
            }
            "vtable_size" | "vtable_align" => match self.norm(cell, &a(0)?) {
                Val::C(_, vp) if vp >= VTP => {
                    let t = self.vts[(vp - VTP) as usize].0;
                    let l = self.layout(t)?;
                    s(cell, Val::c(if name == "vtable_size" { l.size.bytes() } else { l.align.bytes() }))
                }
                _ => unsup("vtable"),
            },
            "type_id_eq" => unsup("type id"),
            "assume" | "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => one(cell, V::zst()),
            "likely" | "unlikely" | "black_box" => one(cell, args[0].0.clone()),
            "abort" => Err(Stop::Panic("abort".into())),
            "unreachable" => unsup("unreachable reached"),
            "is_val_statically_known" => s(cell, Val::c(0)),
            "ub_checks" | "contract_checks" => s(cell, Val::c(0)),
            "overflow_checks" => s(cell, Val::c(1)),
            "transmute" | "transmute_unchecked" => {
                let v = self.transmute(cell, args[0].0.clone(), args[0].1, ret.unwrap())?;
                one(cell, v)
            }
            "copy_nonoverlapping" | "copy" | "volatile_copy_memory" | "volatile_copy_nonoverlapping_memory" => {
                self.copy(cell, &a(0)?, &a(1)?, &a(2)?, ta(0))?;
                one(cell, V::zst())
            }
            "write_bytes" => {
                let n = match self.norm(cell, &a(2)?) {
                    Val::C(n, 0) => n,
                    v => return self.split_by_value(cell, &v),
                };
                let el = self.layout(ta(0))?;
                let size = n * el.size.bytes();
                if size > 1 << 16 {
                    return unsup("large write_bytes");
                }
                let (p, off) = self.prep_ptr(cell, &a(0)?)?;
                let v = a(1)?;
                let slots = (0..size as u32).map(|i| Slot { off: i, size: 1, val: v.clone() }).collect();
                self.put_range(cell, p, off, size as u32, slots)?;
                one(cell, V::zst())
            }
            "compare_bytes" => {
                let r = self.compare_bytes(cell, &a(0)?, &a(1)?, &a(2)?)?;
                s(cell, r)
            }
            "raw_eq" => {
                let l = self.layout(ta(0))?;
                let r = self.compare_bytes(cell, &a(0)?, &a(1)?, &Val::c(l.size.bytes()))?;
                let z = self.op2(cell, Op::Eq, 32, false, &r, &Val::c(0))?;
                s(cell, z)
            }
            "arith_offset" | "offset" => {
                let t = args[0].1.ty.builtin_deref(true).unwrap();
                let el = self.layout(t)?;
                let o = self.op2(cell, Op::Mul, 64, false, &a(1)?, &Val::c(el.size.bytes()))?;
                let p = self.op2(cell, Op::Add, 64, false, &a(0)?, &o)?;
                s(cell, p)
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let el = self.layout(ta(0))?;
                let dd = self.op2(cell, Op::Sub, 64, true, &a(0)?, &a(1)?)?;
                let n = if el.size.bytes() == 1 { dd } else { self.op2(cell, Op::Div, 64, name == "ptr_offset_from", &dd, &Val::c(el.size.bytes()))? };
                s(cell, n)
            }
            "ptr_mask" => {
                let r = self.op2(cell, Op::And, 64, false, &a(0)?, &a(1)?)?;
                s(cell, r)
            }
            "ptr_guaranteed_cmp" => {
                let r = self.op2(cell, Op::Eq, 64, false, &a(0)?, &a(1)?)?;
                s(cell, r)
            }
            "ptr_metadata" => {
                let (_, m) = Self::fat(&args[0].0)?;
                one(cell, match m {
                    Some(m) => V::S(m),
                    None => V::zst(),
                })
            }
            "aggregate_raw_ptr" => {
                let (p, _) = Self::fat(&args[0].0)?;
                if args[1].1.is_zst() {
                    s(cell, p)
                } else {
                    let m = a(1)?;
                    one(cell, Self::fatv(p, Some(m)))
                }
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let l = self.layout(ta(0))?;
                let v = self.read(cell, &a(0)?, l)?;
                one(cell, v)
            }
            "write_via_move" | "volatile_store" | "unaligned_volatile_store" => {
                let l = self.layout(ta(0))?;
                let p = a(0)?;
                self.write(cell, &p, l, &args[1].0)?;
                one(cell, V::zst())
            }
            "typed_swap_nonoverlapping" => {
                let l = self.layout(ta(0))?;
                let (x, y) = (a(0)?, a(1)?);
                self.prep_ptr(cell, &x)?;
                self.prep_ptr(cell, &y)?;
                let vx = self.read(cell, &x, l)?;
                let vy = self.read(cell, &y, l)?;
                self.write(cell, &x, l, &vy)?;
                self.write(cell, &y, l, &vx)?;
                one(cell, V::zst())
            }
            "discriminant_value" => {
                let t = args[0].1.ty.builtin_deref(true).unwrap();
                let l = self.layout(t)?;
                let pl = Pl { ptr: a(0)?, meta: None, ly: l };
                let v = self.read_discr(cell, &pl)?;
                s(cell, v)
            }
            "select_unpredictable" => {
                let c = self.norm(cell, &a(0)?);
                match &c {
                    Val::C(x, _) => one(cell, args[if *x != 0 { 1 } else { 2 }].0.clone()),
                    Val::F(..) => {
                        if let (V::S(x), V::S(y)) = (&args[1].0, &args[2].0) {
                            let (x, y) = (x.clone(), y.clone());
                            let r = self.select(cell, &c, &x, &y)?;
                            return s(cell, r);
                        }
                        self.split_by_value(cell, &c)
                    }
                    _ => unsup("undefined condition"),
                }
            }
            "three_way_compare" => {
                let (bits, sg) = self.bits_signed(args[0].1);
                let r = self.op2(cell, Op::Cmp, bits, sg, &a(0)?, &a(1)?)?;
                s(cell, r)
            }
            "caller_location" => {
                let cv = tcx.span_as_caller_location(DUMMY_SP);
                let v = match cv {
                    ConstValue::Scalar(x) => self.scalar(x)?,
                    _ => return unsup("caller location"),
                };
                s(cell, v)
            }
            "const_eval_select" => {
                // (args tuple, const fn, runtime fn)
                let (tv, tl) = args[0].clone();
                let f = args[2].1.ty;
                let inst = match *f.kind() {
                    ty::FnDef(d, ga) => {
                        let ga = ga.no_bound_vars().ok_or_else(|| Stop::Unsup("bound fn item".into()))?;
                        match Instance::try_resolve(tcx, self.env, d, ga) {
                            Ok(Some(i)) => i,
                            _ => return unsup("const_eval_select"),
                        }
                    }
                    _ => return unsup("const_eval_select"),
                };
                let mut av = vec![];
                for i in 0..tl.fields.count() {
                    av.push(self.field_of(cell, &tv, tl, i)?);
                }
                self.call(cell, inst, av, ret, false)
            }
            "saturating_add" | "saturating_sub" => {
                let (bits, sg) = self.bits_signed(args[0].1);
                let r = self.op2(cell, if name == "saturating_add" { Op::SatAdd } else { Op::SatSub }, bits, sg, &a(0)?, &a(1)?)?;
                s(cell, r)
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_div" | "unchecked_rem" | "unchecked_shl" | "unchecked_shr" | "exact_div" | "add_with_overflow"
            | "sub_with_overflow" | "mul_with_overflow" | "disjoint_bitor" => {
                let op = match name {
                    "wrapping_add" | "unchecked_add" => BinOp::Add,
                    "wrapping_sub" | "unchecked_sub" => BinOp::Sub,
                    "wrapping_mul" | "unchecked_mul" => BinOp::Mul,
                    "unchecked_div" | "exact_div" => BinOp::Div,
                    "unchecked_rem" => BinOp::Rem,
                    "unchecked_shl" => BinOp::Shl,
                    "unchecked_shr" => BinOp::Shr,
                    "add_with_overflow" => BinOp::AddWithOverflow,
                    "sub_with_overflow" => BinOp::SubWithOverflow,
                    "disjoint_bitor" => BinOp::BitOr,
                    _ => BinOp::MulWithOverflow,
                };
                let v = self.binop(cell, op, &args[0].0, args[0].1, &args[1].0, args[1].1, ret)?;
                one(cell, v)
            }
            "ctpop" | "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" | "bswap" | "bitreverse" => {
                let (bits, _) = self.bits_signed(args[0].1);
                if bits > 64 {
                    return unsup("128-bit bit counting");
                }
                let f = |x: u64| -> u64 {
                    match name {
                        "ctpop" => x.count_ones() as u64,
                        "ctlz" | "ctlz_nonzero" => x.leading_zeros() as u64 - (64 - bits as u64),
                        "cttz" | "cttz_nonzero" => (x.trailing_zeros() as u64).min(bits as u64),
                        "bswap" => x.swap_bytes() >> (64 - bits),
                        _ => x.reverse_bits() >> (64 - bits),
                    }
                };
                let r = match self.norm(cell, &a(0)?) {
                    Val::C(x, 0) => Val::c(f(x)),
                    Val::F(sy, pw) => Self::mk(
                        sy,
                        map(&pw, &mut |p, x| if p == 0 { Ok((0, f(x))) } else { Err("bits of a pointer".into()) }).map_err(Stop::Unsup)?,
                    ),
                    _ => return unsup("bit counting"),
                };
                s(cell, r)
            }
            "rotate_left" | "rotate_right" => {
                let (bits, _) = self.bits_signed(args[0].1);
                match (self.norm(cell, &a(0)?), self.norm(cell, &a(1)?)) {
                    (Val::C(x, 0), Val::C(k, 0)) if bits <= 64 => {
                        let k = (k % bits as u64) as u32;
                        let k = if name == "rotate_left" { k } else { (bits - k) % bits };
                        let r = if k == 0 { x } else { ((x << k) | (x >> (bits - k))) & mask(bits) };
                        s(cell, Val::c(r))
                    }
                    (Val::F(sy, pw), Val::C(k, 0)) if bits <= 64 => {
                        let k = (k % bits as u64) as u32;
                        let k = if name == "rotate_left" { k } else { (bits - k) % bits };
                        let r = map(&pw, &mut |p, x| if p == 0 { Ok((0, if k == 0 { x } else { ((x << k) | (x >> (bits - k))) & mask(bits) })) } else { Err("bits of a pointer".into()) })
                            .map_err(Stop::Unsup)?;
                        s(cell, Self::mk(sy, r))
                    }
                    _ => unsup("rotation"),
                }
            }
            "slice_get_unchecked" => {
                // (slice pointer, index) -> element pointer
                let (p, _) = Self::fat(&args[0].0)?;
                let rt = ret.unwrap().ty.builtin_deref(true).unwrap();
                let el = self.layout(rt)?;
                let o = self.op2(cell, Op::Mul, 64, false, &a(1)?, &Val::c(el.size.bytes()))?;
                let r = self.op2(cell, Op::Add, 64, false, &p, &o)?;
                s(cell, r)
            }
            "type_name" => unsup("type name"),
            "type_id" => unsup("type id"),
            "variant_count" => {
                let t = ta(0);
                let n = match t.kind() {
                    ty::Adt(a, _) => a.variants().len() as u64,
                    _ => 0,
                };
                s(cell, Val::c(n))
            }
            _ => {
                // a fallback body, if there is one
                let ok = tcx.intrinsic(d).map_or(false, |i| !i.must_be_overridden);
                if ok {
                    let i2 = Instance::new_raw(d, inst.args);
                    let c = std::mem::take(cell);
                    return Ok(self.run(i2, args.into_iter().map(|a| a.0).collect(), c));
                }
                unsup(format!("intrinsic {}", name))
            }
        }
    }

    #[allow(dead_code)]
    fn unused(&mut self) {
        let _ = (&self.opaque, &self.opaque_memo);
    }
}

fn assert_kind<'tcx>(m: &mir::AssertMessage<'tcx>) -> String {
    use rustc_middle::mir::AssertKind::*;
    match m {
        BoundsCheck { .. } => "index out of bounds".into(),
        Overflow(op, ..) => format!("arithmetic overflow in {:?}", op),
        OverflowNeg(_) => "negation overflow".into(),
        DivisionByZero(_) => "division by zero".into(),
        RemainderByZero(_) => "remainder by zero".into(),
        _ => "assertion".into(),
    }
}

fn succs<'tcx>(t: &TerminatorKind<'tcx>) -> Vec<mir::BasicBlock> {
    match t {
        TerminatorKind::Goto { target, .. } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => {
            let mut v: Vec<_> = targets.all_targets().to_vec();
            v.dedup();
            v
        }
        TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().cloned().collect(),
        TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => vec![*real_target],
        _ => vec![],
    }
}

/// A weak topological order of the blocks: every block of a loop comes before what follows it.
fn ranks<'tcx>(body: &mir::Body<'tcx>) -> (Vec<u32>, Vec<mir::BasicBlock>) {
    let n = body.basic_blocks.len();
    let sc: Vec<Vec<usize>> = body.basic_blocks.iter().map(|b| succs(&b.terminator().kind).into_iter().map(|x| x.as_usize()).collect()).collect();
    let mut order: Vec<usize> = vec![];
    // recursive SCC decomposition
    fn go(nodes: &[usize], entry: usize, sc: &[Vec<usize>], order: &mut Vec<usize>) {
        let inset: HashSet<usize> = nodes.iter().cloned().collect();
        // Tarjan, from entry, ignoring edges back to entry
        struct T<'a> {
            sc: &'a [Vec<usize>],
            inset: &'a HashSet<usize>,
            entry: usize,
            idx: HashMap<usize, usize>,
            low: HashMap<usize, usize>,
            st: Vec<usize>,
            on: HashSet<usize>,
            comps: Vec<Vec<usize>>,
        }
        impl<'a> T<'a> {
            fn visit(&mut self, v: usize) {
                let i = self.idx.len();
                self.idx.insert(v, i);
                self.low.insert(v, i);
                self.st.push(v);
                self.on.insert(v);
                for &w in &self.sc[v] {
                    if w == self.entry || !self.inset.contains(&w) {
                        continue;
                    }
                    if !self.idx.contains_key(&w) {
                        self.visit(w);
                        let l = self.low[&w].min(self.low[&v]);
                        self.low.insert(v, l);
                    } else if self.on.contains(&w) {
                        let l = self.idx[&w].min(self.low[&v]);
                        self.low.insert(v, l);
                    }
                }
                if self.low[&v] == self.idx[&v] {
                    let mut c = vec![];
                    loop {
                        let w = self.st.pop().unwrap();
                        self.on.remove(&w);
                        c.push(w);
                        if w == v {
                            break;
                        }
                    }
                    self.comps.push(c);
                }
            }
        }
        let mut t = T { sc, inset: &inset, entry, idx: Default::default(), low: Default::default(), st: vec![], on: Default::default(), comps: vec![] };
        t.visit(entry);
        let idx = t.idx;
        let mut comps = t.comps;
        comps.reverse();
        for c in comps {
            if c.len() == 1 {
                order.push(c[0]);
            } else {
                let head = *c.iter().min_by_key(|x| idx[x]).unwrap();
                go(&c, head, sc, order);
            }
        }
    }
    let all: Vec<usize> = (0..n).collect();
    go(&all, 0, &sc, &mut order);
    let mut rank = vec![u32::MAX; n];
    for (i, &b) in order.iter().enumerate() {
        rank[b] = i as u32;
    }
    (rank, order.into_iter().map(mir::BasicBlock::from_usize).collect())
}

fn liveness<'tcx>(body: &mir::Body<'tcx>) -> (Vec<Vec<u64>>, Vec<bool>) {
    use rustc_middle::mir::visit::{NonMutatingUseContext, MutatingUseContext, PlaceContext, Visitor};
    let n = body.local_decls.len();
    let words = n / 64 + 1;
    struct B(Vec<bool>);
    impl<'tcx> Visitor<'tcx> for B {
        fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: mir::Location) {
            match r {
                Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                    if !p.is_indirect() {
                        self.0[p.local.as_usize()] = true;
                    }
                }
                _ => {}
            }
            self.super_rvalue(r, l);
        }
        fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: mir::Location) {
            if let TerminatorKind::Drop { place, .. } = &t.kind {
                self.0[place.local.as_usize()] = true;
            }
            self.super_terminator(t, l);
        }
    }
    let mut b = B(vec![false; n]);
    b.visit_body(body);
    // gen/kill per block
    struct G {
        gen: Vec<u64>,
        kill: Vec<u64>,
    }
    impl<'tcx> Visitor<'tcx> for G {
        fn visit_local(&mut self, l: mir::Local, c: PlaceContext, _: mir::Location) {
            let i = l.as_usize();
            let def = matches!(c, PlaceContext::MutatingUse(MutatingUseContext::Store) | PlaceContext::MutatingUse(MutatingUseContext::Call));
            let _ = NonMutatingUseContext::Copy;
            if matches!(c, PlaceContext::NonUse(_)) {
                return;
            }
            if def {
                if self.gen[i / 64] >> (i % 64) & 1 == 0 {
                    self.kill[i / 64] |= 1 << (i % 64);
                }
            } else if self.kill[i / 64] >> (i % 64) & 1 == 0 {
                self.gen[i / 64] |= 1 << (i % 64);
            }
        }
    }
    let nb = body.basic_blocks.len();
    let mut gens = vec![];
    for (bb, d) in body.basic_blocks.iter_enumerated() {
        let mut g = G { gen: vec![0; words], kill: vec![0; words] };
        // within a statement uses come before the definition
        for (i, s) in d.statements.iter().enumerate() {
            let loc = mir::Location { block: bb, statement_index: i };
            if let StatementKind::Assign(a) = &s.kind {
                g.visit_rvalue(&a.1, loc);
                // projections in the destination are uses
                if a.0.projection.is_empty() {
                    g.visit_local(a.0.local, PlaceContext::MutatingUse(MutatingUseContext::Store), loc);
                } else {
                    g.visit_local(a.0.local, PlaceContext::NonMutatingUse(NonMutatingUseContext::Copy), loc);
                    for e in a.0.projection.iter() {
                        if let ProjectionElem::Index(l) = e {
                            g.visit_local(l, PlaceContext::NonMutatingUse(NonMutatingUseContext::Copy), loc);
                        }
                    }
                }
            } else {
                g.visit_statement(s, loc);
            }
        }
        let loc = mir::Location { block: bb, statement_index: d.statements.len() };
        match &d.terminator().kind {
            TerminatorKind::Call { func, args, destination, .. } => {
                g.visit_operand(func, loc);
                for a in args.iter() {
                    g.visit_operand(&a.node, loc);
                }
                if destination.projection.is_empty() {
                    g.visit_local(destination.local, PlaceContext::MutatingUse(MutatingUseContext::Store), loc);
                } else {
                    g.visit_local(destination.local, PlaceContext::NonMutatingUse(NonMutatingUseContext::Copy), loc);
                }
            }
            TerminatorKind::Return => {
                g.visit_local(mir::RETURN_PLACE, PlaceContext::NonMutatingUse(NonMutatingUseContext::Copy), loc);
            }
            _ => g.visit_terminator(d.terminator(), loc),
        }
        gens.push(g);
    }
    let mut live = vec![vec![0u64; words]; nb];
    let sc: Vec<Vec<usize>> = body.basic_blocks.iter().map(|b| succs(&b.terminator().kind).into_iter().map(|x| x.as_usize()).collect()).collect();
    loop {
        let mut ch = false;
        for i in (0..nb).rev() {
            let mut out = vec![0u64; words];
            for &s in &sc[i] {
                for w in 0..words {
                    out[w] |= live[s][w];
                }
            }
            for w in 0..words {
                let v = gens[i].gen[w] | (out[w] & !gens[i].kill[w]);
                if v != live[i][w] {
                    live[i][w] = v;
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    (live, b.0)
}

/// memory this process occupies
fn resident_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 >> 20
}

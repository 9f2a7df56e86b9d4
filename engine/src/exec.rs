//! Symbolic interpreter for LLVM IR.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const STACK_ID: u64 = 1 << 29;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(E),
    A(Rc<Vec<Val>>),
}
use Val::*;

pub enum Halt {
    Done,
    Infeasible,
    Violation(String, String),
    Error(String),
}
type R<T> = Result<T, Halt>;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub fix: u32,
    pub regs: Vec<Val>,
    pub block: u32,
    pub ip: u32,
    pub stack_mark: u64,
    pub ret_dst: u32,
    pub ret_next: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: PVec,
    pub stack: PVec,
    pub globs: PVec,
    pub next_heap: u64,
    /// Sizes and positions of the objects freed last, in the jobs that use addresses again.
    pub freed: Vec<(u32, u32)>,
    pub stack_top: u64,
    pub pc: Vec<E>,
    pub model: Rc<Vec<u8>>,
    pub nsym: u32,
    pub dom: Rc<Vec<[u64; 4]>>,
    pub fixed: u128,
    pub entangled: u128,
    pub steps: u64,
    /// Bytes copied, filled or compared by single instructions, and bytes allocated.
    pub moved: u64,
    pub allocated: u64,
    pub emits: Rc<Vec<Val>>,
    pub depth: u32,
    pub errno: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FK {
    Normal,
    SymBytes,
    SymAssume,
    SymAssert,
    SymEmit,
    SymCover,
    SymConcretize,
    SymParam,
    SymCost,
    SymMem,
    SymScale,
    Panic,
    HashOne,
    RandomKeys,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    CRealloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Memcmp,
    Bcmp,
    Memchr,
    Strlen,
    Memcpy,
    Memset,
    Abort,
    Zero,
    One,
    MinusOne,
    Write,
    Writev,
    Errno,
    GetRandom,
    Clock,
    Arg0,
    Intr(Ix),
    StackPtr,
    NoAllocShim,
    Extern,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ix {
    Nop,
    Memcpy,
    Memset,
    Umin,
    Umax,
    Smin,
    Smax,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    Ucmp,
    Scmp,
    Expect,
    IsConstant,
    Objectsize,
    Trap,
    Tls,
    FpToUiSat,
    FpToSiSat,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    Ptrmask,
    Pmovmskb,
    Fabs,
    Fmin,
    Fmax,
    Copysign,
    Floor,
    Ceil,
    Round,
    Rint,
    Sqrt,
    Powi,
    Pow,
    Exp,
    Exp2,
    Ln,
    Log2,
    Log10,
    Fma,
    Trunc,
    Unknown,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub decisions: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts_folded: u64,
    pub asserts_solved: u64,
    pub solver_domain: u64,
    pub cache_hits: u64,
    pub max_depth: u64,
    pub max_path_steps: u64,
    pub covers: BTreeMap<u64, u64>,
    pub violations: Vec<(String, String, Vec<u8>, u64)>,
    pub errors: Vec<String>,
    /// Paths that ended in something unsupported: what, and an input that takes the path.
    pub unsupported: Vec<(String, Vec<u8>)>,
    pub samples: Vec<(Vec<u8>, Vec<u128>)>,
    pub funcs: BTreeSet<u32>,
    pub max_sym: u32,
}

pub struct Limits {
    pub max_steps: u64,
    pub max_frames: usize,
    pub max_samples: usize,
    pub max_violations: usize,
    pub concretize_limit: u32,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub z3: Z3,
    kinds: Vec<FK>,
    gcache: Vec<Option<Rc<Obj>>>,
    qcache: HashMap<Box<[E]>, Option<Rc<Vec<u8>>>, std::hash::BuildHasherDefault<Fx>>,
    pub work: Vec<State>,
    pub st: Stats,
    pub lim: Limits,
    pub param: u64,
    pub trace: bool,
    pub seed: u64,
    /// The hash of every key.
    pub hash: u64,
    /// Whether the addresses of what was freed are given out again.
    pub reuse: bool,
    pub paused: bool,
}

fn classify(name: &str) -> FK {
    if let Some(r) = name.strip_prefix("llvm.") {
        let i = |p: &str| r.starts_with(p);
        return FK::Intr(if i("memcpy") || i("memmove") {
            Ix::Memcpy
        } else if i("memset") {
            Ix::Memset
        } else if i("umin.") {
            Ix::Umin
        } else if i("umax.") {
            Ix::Umax
        } else if i("smin.") {
            Ix::Smin
        } else if i("smax.") {
            Ix::Smax
        } else if i("abs.") {
            Ix::Abs
        } else if i("ctlz.") {
            Ix::Ctlz
        } else if i("cttz.") {
            Ix::Cttz
        } else if i("ctpop.") {
            Ix::Ctpop
        } else if i("bswap.") {
            Ix::Bswap
        } else if i("bitreverse.") {
            Ix::Bitreverse
        } else if i("fshl.") {
            Ix::Fshl
        } else if i("fshr.") {
            Ix::Fshr
        } else if i("uadd.with") {
            Ix::UaddO
        } else if i("usub.with") {
            Ix::UsubO
        } else if i("umul.with") {
            Ix::UmulO
        } else if i("sadd.with") {
            Ix::SaddO
        } else if i("ssub.with") {
            Ix::SsubO
        } else if i("smul.with") {
            Ix::SmulO
        } else if i("uadd.sat") {
            Ix::UaddSat
        } else if i("usub.sat") {
            Ix::UsubSat
        } else if i("sadd.sat") {
            Ix::SaddSat
        } else if i("ssub.sat") {
            Ix::SsubSat
        } else if i("ucmp.") {
            Ix::Ucmp
        } else if i("scmp.") {
            Ix::Scmp
        } else if i("expect.") {
            Ix::Expect
        } else if i("is.constant") {
            Ix::IsConstant
        } else if i("objectsize") {
            Ix::Objectsize
        } else if i("trap") || i("ubsantrap") {
            Ix::Trap
        } else if i("threadlocal.address") {
            Ix::Tls
        } else if i("fptoui.sat") {
            Ix::FpToUiSat
        } else if i("fptosi.sat") {
            Ix::FpToSiSat
        } else if i("vector.reduce.or") {
            Ix::ReduceOr
        } else if i("vector.reduce.and") {
            Ix::ReduceAnd
        } else if i("vector.reduce.add") {
            Ix::ReduceAdd
        } else if i("ptrmask") {
            Ix::Ptrmask
        } else if i("x86.sse2.pmovmskb") {
            Ix::Pmovmskb
        } else if i("minnum.") || i("minimumnum.") {
            Ix::Fmin
        } else if i("maxnum.") || i("maximumnum.") {
            Ix::Fmax
        } else if i("copysign.") {
            Ix::Copysign
        } else if i("fabs.") {
            Ix::Fabs
        } else if i("floor.") {
            Ix::Floor
        } else if i("ceil.") {
            Ix::Ceil
        } else if i("trunc.") {
            Ix::Trunc
        } else if i("round.") {
            Ix::Round
        } else if i("rint.") || i("nearbyint.") || i("roundeven.") {
            Ix::Rint
        } else if i("sqrt.") {
            Ix::Sqrt
        } else if i("powi.") {
            Ix::Powi
        } else if i("pow.") {
            Ix::Pow
        } else if i("exp.") {
            Ix::Exp
        } else if i("exp2.") {
            Ix::Exp2
        } else if i("log.") {
            Ix::Ln
        } else if i("log2.") {
            Ix::Log2
        } else if i("log10.") {
            Ix::Log10
        } else if i("fma.") {
            Ix::Fma
        } else if i("fmuladd.") {
            Ix::Fma
        } else if i("lifetime")
            || i("assume")
            || i("experimental.noalias")
            || i("dbg")
            || i("prefetch")
            || i("donothing")
            || i("x86.sse2.pause")
        {
            Ix::Nop
        } else {
            Ix::Unknown
        });
    }
    match name {
        "sym_bytes" => return FK::SymBytes,
        "sym_assume" => return FK::SymAssume,
        "sym_assert" => return FK::SymAssert,
        "sym_emit" => return FK::SymEmit,
        "sym_cover" => return FK::SymCover,
        "sym_concretize" => return FK::SymConcretize,
        "sym_param" => return FK::SymParam,
        "sym_cost" => return FK::SymCost,
        "sym_mem" => return FK::SymMem,
        "sym_scale" => return FK::SymScale,
        "malloc" => return FK::Malloc,
        "calloc" => return FK::Calloc,
        "realloc" => return FK::CRealloc,
        "free" => return FK::Free,
        "posix_memalign" => return FK::PosixMemalign,
        "aligned_alloc" => return FK::AlignedAlloc,
        "memcmp" => return FK::Memcmp,
        "bcmp" => return FK::Bcmp,
        "memchr" => return FK::Memchr,
        "strlen" => return FK::Strlen,
        "memcpy" | "memmove" => return FK::Memcpy,
        "memset" => return FK::Memset,
        "abort" | "_exit" | "exit" => return FK::Abort,
        "write" => return FK::Write,
        "writev" => return FK::Writev,
        "__errno_location" => return FK::Errno,
        "getrandom" => return FK::GetRandom,
        "clock_gettime" => return FK::Clock,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific"
        | "sched_yield" | "__cxa_atexit" | "pthread_getattr_np" | "pthread_attr_destroy" | "pthread_attr_getstack"
        | "pthread_attr_getguardsize" | "sigaction" | "close" | "munmap" | "pthread_attr_init" => return FK::Zero,
        "pthread_self" => return FK::One,
        "open" | "mmap" | "syscall" | "open64" | "sysconf" => return FK::MinusOne,
        "pthread_key_create" => return FK::Zero,
        "rust_psm_stack_pointer" => return FK::StackPtr,
        _ => {}
    }
    if name.contains("rust_begin_unwind") {
        return FK::Panic;
    }
    if name.contains("8hash_one") {
        return FK::HashOne;
    }
    if name.contains("hashmap_random_keys") {
        return FK::RandomKeys;
    }
    let tail = |s: &str| name.ends_with(s);
    if tail("___rust_alloc") || tail("___rdl_alloc") || name == "__rust_alloc" {
        return FK::Alloc;
    }
    if tail("___rust_alloc_zeroed") || tail("___rdl_alloc_zeroed") || name == "__rust_alloc_zeroed" {
        return FK::AllocZeroed;
    }
    if tail("___rust_dealloc") || tail("___rdl_dealloc") || name == "__rust_dealloc" {
        return FK::Dealloc;
    }
    if tail("___rust_realloc") || tail("___rdl_realloc") || name == "__rust_realloc" {
        return FK::Realloc;
    }
    if name.contains("no_alloc_shim_is_unstable") {
        return FK::NoAllocShim;
    }
    FK::Normal
}

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Halt::Error(s.into()))
}

fn from_e(e: E) -> Val {
    match cval(e) {
        Some(c) => C(c),
        None => S(e),
    }
}
fn to_e(v: &Val, w: u32) -> E {
    match v {
        C(c) => k(*c, w),
        S(e) => *e,
        A(_) => panic!("aggregate as expression"),
    }
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, z3: Z3, lim: Limits) -> Self {
        k(0, 8); // id 0 is reserved ("concrete" marker)
        let kinds = m
            .funcs
            .iter()
            .map(|f| {
                let c = classify(&f.name);
                if c == FK::Normal && f.body.is_none() {
                    FK::Extern
                } else {
                    c
                }
            })
            .collect();
        Engine {
            m,
            z3,
            kinds,
            gcache: vec![None; m.globals.len()],
            qcache: HashMap::default(),
            work: vec![],
            st: Stats::default(),
            lim,
            param: 0,
            trace: false,
            seed: 0,
            hash: 0,
            reuse: false,
            paused: false,
        }
    }

    fn bits(&self, t: TyId) -> u32 {
        self.m.types.borrow().bits(t)
    }

    pub fn start(&mut self, entry: &str) -> Option<State> {
        let fix = *self.m.func_ix.get(entry)?;
        let f = self.m.func(fix)?;
        let fr = Frame {
            regs: vec![C(0); f.nregs as usize],
            func: f,
            fix,
            block: 0,
            ip: 0,
            stack_mark: 0,
            ret_dst: u32::MAX,
            ret_next: None,
        };
        Some(State {
            frames: vec![Rc::new(fr)],
            heap: PVec::default(),
            stack: PVec::default(),
            globs: PVec::default(),
            next_heap: 0,
            freed: vec![],
            stack_top: 0,
            pc: vec![],
            model: Rc::new(vec![0; 128]),
            nsym: 0,
            dom: Rc::new(vec![]),
            fixed: 0,
            entangled: 0,
            steps: 0,
            emits: Rc::new(vec![]),
            depth: 0,
            moved: 0,
            allocated: 0,
            errno: 0,
        })
    }

    // ---------------------------------------------------------------- solver layer

    /// Satisfiability of pc ∧ cond; returns a full model on success.
    fn sat(&mut self, s: &State, cond: E) -> R<Option<Vec<u8>>> {
        let mut memo = HashMap::default();
        let cond = subst(cond, s.fixed, &s.model, &mut memo);
        match cval(cond) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(s.model.to_vec())),
            None => {}
        }
        let mut sup = support(cond);
        if sup.count_ones() == 1 && sup & s.entangled == 0 {
            // Exact decision over the finite domain of one unentangled byte.
            self.st.solver_domain += 1;
            let i = sup.trailing_zeros() as usize;
            let t = truth_set(cond);
            let d = s.dom[i];
            for w in 0..4 {
                let x = t[w] & d[w];
                if x != 0 {
                    let mut m = s.model.to_vec();
                    m[i] = (w * 64) as u8 + x.trailing_zeros() as u8;
                    return Ok(Some(m));
                }
            }
            return Ok(None);
        }
        // Slice.
        let mut cs: Vec<E> = vec![cond];
        let mut rest: Vec<E> = vec![];
        for &c in &s.pc {
            if support(c) & !s.fixed == 0 {
                continue;
            }
            let c = if support(c) & s.fixed != 0 { subst(c, s.fixed, &s.model, &mut memo) } else { c };
            if cval(c).is_none() {
                rest.push(c);
            }
        }
        loop {
            let mut changed = false;
            let mut i = 0;
            while i < rest.len() {
                if support(rest[i]) & sup != 0 {
                    let c = rest.swap_remove(i);
                    sup |= support(c);
                    cs.push(c);
                    changed = true;
                } else {
                    i += 1;
                }
            }
            if !changed {
                break;
            }
        }
        cs.sort_unstable();
        cs.dedup();
        let key: Box<[E]> = cs.clone().into_boxed_slice();
        if let Some(r) = self.qcache.get(&key) {
            self.st.cache_hits += 1;
            return Ok(match r {
                None => None,
                Some(m) => {
                    let mut out = s.model.to_vec();
                    for i in 0..128 {
                        if sup >> i & 1 == 1 {
                            out[i] = m[i];
                        }
                    }
                    Some(out)
                }
            });
        }
        if let Some(v) = crate::sep::Seps::new(&s.dom).cond(cond) {
            self.st.solver_domain += 1;
            if v {
                return Ok(Some(s.model.to_vec()));
            }
            return Ok(None);
        }
        let mut m = s.model.to_vec();
        match self.z3.check(&cs, sup, &mut m) {
            Res::Sat => {
                self.qcache.insert(key, Some(Rc::new(m.clone())));
                Ok(Some(m))
            }
            Res::Unsat => {
                self.qcache.insert(key, None);
                Ok(None)
            }
            Res::Unknown => err("solver returned unknown"),
        }
    }

    fn add(&mut self, s: &mut State, c: E) {
        let sup = support(c) & !s.fixed;
        if support(c).count_ones() == 1 {
            let i = sup.trailing_zeros() as usize;
            if sup != 0 {
                let t = truth_set(c);
                let d = Rc::make_mut(&mut s.dom);
                let mut n = 0;
                for w in 0..4 {
                    d[i][w] &= t[w];
                    n += d[i][w].count_ones();
                }
                if n == 1 {
                    s.fixed |= 1u128 << i;
                }
            }
        } else if sup.count_ones() == 1 {
            // other symbols fixed: still restricts one byte's domain
            let mut memo = HashMap::default();
            let c2 = subst(c, s.fixed, &s.model, &mut memo);
            if cval(c2).is_none() {
                let i = sup.trailing_zeros() as usize;
                let t = truth_set(c2);
                let d = Rc::make_mut(&mut s.dom);
                let mut n = 0;
                for w in 0..4 {
                    d[i][w] &= t[w];
                    n += d[i][w].count_ones();
                }
                if n == 1 {
                    s.fixed |= 1u128 << i;
                }
            }
        } else {
            s.entangled |= sup;
        }
        s.pc.push(c);
    }

    /// Decide a width-1 condition; forks the state when both outcomes are possible. The forked
    /// state re-executes the current instruction.
    fn decide(&mut self, s: &mut State, cond: &Val) -> R<bool> {
        let c = match cond {
            C(c) => return Ok(*c & 1 != 0),
            S(e) => *e,
            A(_) => return err("branch on aggregate"),
        };
        let sup = support(c);
        let dir = eval(c, &s.model) != 0;
        if sup & !s.fixed == 0 {
            return Ok(dir);
        }
        let nc = not(c);
        let (t, f) = if dir { (c, nc) } else { (nc, c) };
        if s.pc.iter().rev().any(|&x| x == t) {
            return Ok(dir);
        }
        self.st.decisions += 1;
        let single = sup.count_ones() == 1;
        let other = if single {
            let i = sup.trailing_zeros() as usize;
            let ts = truth_set(f);
            let d = s.dom[i];
            let any = (0..4).any(|w| ts[w] & d[w] != 0);
            if !any {
                self.st.solver_domain += 1;
                return Ok(dir);
            }
            self.sat(s, f)?
        } else {
            self.sat(s, f)?
        };
        match other {
            None => {
                // implied; remember for quick lookup when it relates several bytes
                Ok(dir)
            }
            Some(m) => {
                self.st.forks += 1;
                let mut o = s.clone();
                o.model = Rc::new(m);
                o.depth += 1;
                self.add(&mut o, f);
                self.work.push(o);
                s.depth += 1;
                self.add(s, t);
                Ok(dir)
            }
        }
    }

    /// Make a value concrete, forking over every feasible value.
    fn conc(&mut self, s: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            C(c) => Ok(*c),
            S(e) => {
                let x = eval(*e, &s.model);
                if support(*e) & !s.fixed == 0 {
                    return Ok(x);
                }
                let c = eq(*e, k(x, w));
                let r = self.decide(s, &from_e(c))?;
                debug_assert!(r);
                Ok(x)
            }
            A(_) => err("concretize aggregate"),
        }
    }

    /// A concrete value for an operation on floats, which are not in the solver's theory here. Values that depend on few bytes
    /// are enumerated. Of others only the notable ones are explored, and the rest is reported as not executed.
    fn conc_float(&mut self, s: &mut State, v: &Val, w: u32, fp: bool) -> R<u128> {
        let e = match v {
            S(e) if (support(*e) & !s.fixed).count_ones() > 3 => *e,
            _ => return self.conc(s, v, w),
        };
        let special: Vec<u128> = match (fp, w) {
            (true, 64) => [0u64, 1 << 63, 0x3ff8_0000_0000_0000, 0xbff0_0000_0000_0001, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff0_0000_0000_0001, 0xfff8_0000_0000_0003, 1, 0x7fef_ffff_ffff_ffff]
                .iter().map(|x| *x as u128).collect(),
            (true, 32) => [0u32, 1 << 31, 0x3fc0_0000, 0xbf80_0001, 0x7f80_0000, 0xff80_0000, 0x7f80_0001, 0xffc0_0003, 1, 0x7f7f_ffff].iter().map(|x| *x as u128).collect(),
            _ => [0u128, 1, u128::MAX, 1 << (w - 1), u128::MAX >> (128 - (w - 1)), (1 << 24) + 1, (1 << 53) + 1, !(1 << 53)].iter().map(|x| mask(*x, w)).collect(),
        };
        for x in special {
            if self.decide(s, &from_e(eq(e, k(x, w))))? {
                return Ok(x);
            }
        }
        err("arithmetic on any float")
    }

    // ---------------------------------------------------------------- memory

    fn first_obj(&self) -> u64 {
        self.m.first_obj()
    }

    fn global(&mut self, gi: usize) -> R<Rc<Obj>> {
        if let Some(o) = &self.gcache[gi] {
            return Ok(o.clone());
        }
        let g = &self.m.globals[gi];
        let mut o = Obj::new(g.size as usize);
        if g.init.is_some() {
            let (ty, v) = self.m.global_init(gi as u32).unwrap();
            self.init_bytes(&mut o.data, 0, ty, &v);
        }
        o.ro = g.constant;
        let o = Rc::new(o);
        self.gcache[gi] = Some(o.clone());
        Ok(o)
    }
    fn init_bytes(&self, out: &mut [u8], off: usize, ty: TyId, v: &Opnd) {
        match v {
            Opnd::C(c) => {
                let n = self.m.types.borrow().size(ty) as usize;
                let b = c.to_le_bytes();
                for i in 0..n.min(16) {
                    out[off + i] = b[i];
                }
            }
            Opnd::Agg(es) => {
                for (i, e) in es.iter().enumerate() {
                    let (o, t) = self.m.types.borrow().offset(ty, i);
                    self.init_bytes(out, off + o as usize, t, e);
                }
            }
            Opnd::Reg(_) => panic!("reg in global"),
        }
    }

    fn obj<'a>(&mut self, s: &'a mut State, addr: u64, n: u64, what: &str) -> R<(&'a Rc<Obj>, usize)> {
        let id = addr >> SLOT;
        let off = (addr & 0xffff_ffff).wrapping_sub(BASE_OFF);
        let o: Option<&Rc<Obj>>;
        if id >= STACK_ID {
            o = s.stack.get((id - STACK_ID) as usize);
        } else if id >= self.first_obj() {
            o = s.heap.get((id - self.first_obj()) as usize);
        } else if id >= 1 && id <= self.m.globals.len() as u64 {
            let gi = (id - 1) as usize;
            if s.globs.get(gi).is_none() {
                let g = self.global(gi)?;
                *s.globs.slot(gi) = Some(g);
            }
            o = s.globs.get(gi);
        } else {
            return Err(Halt::Violation(
                "memory".into(),
                format!("{} of {} bytes at invalid address {:#x}", what, n, addr),
            ));
        }
        match o {
            None => Err(Halt::Violation("memory".into(), format!("{} of freed or unknown memory {:#x}", what, addr))),
            Some(o) => {
                if off as u64 > o.data.len() as u64 || n > o.data.len() as u64 - off as u64 {
                    return Err(Halt::Violation(
                        "memory".into(),
                        format!("{} of {} bytes at offset {} outside object of {} bytes", what, n, off as i64, o.data.len()),
                    ));
                }
                Ok((o, off as usize))
            }
        }
    }
    fn obj_mut<'a>(&mut self, s: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        self.obj(s, addr, n, "store")?;
        let id = addr >> SLOT;
        let off = (addr & 0xffff_ffff).wrapping_sub(BASE_OFF) as usize;
        let o = if id >= STACK_ID {
            s.stack.get_mut((id - STACK_ID) as usize)
        } else if id >= self.first_obj() {
            s.heap.get_mut((id - self.first_obj()) as usize)
        } else {
            s.globs.get_mut((id - 1) as usize)
        };
        let o = o.unwrap();
        if o.ro {
            return Err(Halt::Violation("memory".into(), "store to constant".into()));
        }
        Ok((o, off))
    }

    fn load_bits(&mut self, s: &mut State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as u64;
        let (o, off) = self.obj(s, addr, n, "load")?;
        let n = n as usize;
        if o.concrete(off, n) {
            let v = match n {
                1 => o.data[off] as u128,
                8 => u64::from_le_bytes(o.data[off..off + 8].try_into().unwrap()) as u128,
                4 => u32::from_le_bytes(o.data[off..off + 4].try_into().unwrap()) as u128,
                _ => {
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&o.data[off..off + n]);
                    u128::from_le_bytes(b)
                }
            };
            return Ok(C(mask(v, w)));
        }
        let mut e: Option<E> = None;
        for i in 0..n {
            let b = if o.sym[off + i] != 0 { o.sym[off + i] } else { k(o.data[off + i] as u128, 8) };
            e = Some(match e {
                None => b,
                Some(lo) => concat(b, lo),
            });
        }
        let e = e.unwrap();
        let e = if w % 8 != 0 { extract(e, 0, w) } else { e };
        Ok(from_e(e))
    }

    fn store_bits(&mut self, s: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let (o, off) = self.obj_mut(s, addr, n as u64)?;
        match v {
            C(c) => {
                let b = c.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + n] {
                        *x = 0;
                    }
                }
            }
            S(e) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                let e = if w % 8 != 0 { zext(*e, (n * 8) as u32) } else { *e };
                for i in 0..n {
                    let b = extract(e, (i * 8) as u32, 8);
                    match cval(b) {
                        Some(c) => {
                            o.data[off + i] = c as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = b,
                    }
                }
            }
            A(_) => return err("store agg bits"),
        }
        Ok(())
    }

    /// Vectors of single bits are packed in memory: their number, if `ty` is one.
    fn packed_bits(&self, ty: TyId) -> Option<u32> {
        let t = self.m.types.borrow();
        match t.get(ty) {
            Ty::Vec(n, e) if t.bits(*e) == 1 && *n as u32 <= 128 => Some(*n as u32),
            _ => None,
        }
    }
    fn load(&mut self, s: &mut State, addr: u64, ty: TyId) -> R<Val> {
        let (agg, n) = {
            let t = self.m.types.borrow();
            (t.is_agg(ty), t.count(ty))
        };
        if agg {
            if let Some(w) = self.packed_bits(ty) {
                let v = self.load_bits(s, addr, w)?;
                return Ok(A(Rc::new(
                    (0..n as u32)
                        .map(|i| match &v {
                            C(c) => C(c >> i & 1),
                            v => from_e(extract(to_e(v, w), i, 1)),
                        })
                        .collect(),
                )));
            }
            let mut out = Vec::with_capacity(n);
            for i in 0..n {
                let (o, t) = self.m.types.borrow().offset(ty, i);
                out.push(self.load(s, addr + o, t)?);
            }
            return Ok(A(Rc::new(out)));
        }
        let w = self.bits(ty);
        self.load_bits(s, addr, w)
    }
    fn store(&mut self, s: &mut State, addr: u64, ty: TyId, v: &Val) -> R<()> {
        if let A(es) = v {
            if let Some(w) = self.packed_bits(ty) {
                let e = es.iter().rev().map(|e| to_e(e, 1)).reduce(concat).unwrap();
                return self.store_bits(s, addr, w, &from_e(e));
            }
            for (i, e) in es.iter().enumerate() {
                let (o, t) = self.m.types.borrow().offset(ty, i);
                self.store(s, addr + o, t, e)?;
            }
            return Ok(());
        }
        let w = self.bits(ty);
        self.store_bits(s, addr, w, v)
    }

    fn alloc(&mut self, s: &mut State, n: u64) -> R<u64> {
        s.allocated += n;
        let class = (n as u32).div_ceil(16);
        let i = match s.freed.iter().rposition(|f| f.0 == class) {
            Some(k) => s.freed.remove(k).1 as u64,
            None => {
                s.next_heap += 1;
                s.next_heap - 1
            }
        };
        *s.heap.slot(i as usize) = Some(Rc::new(Obj::new(n as usize)));
        Ok(((self.first_obj() + i) << SLOT) + BASE_OFF)
    }
    fn alloc_stack(&mut self, s: &mut State, n: u64) -> u64 {
        let i = s.stack_top;
        s.stack_top += 1;
        *s.stack.slot(i as usize) = Some(Rc::new(Obj::new(n as usize)));
        ((STACK_ID + i) << SLOT) + BASE_OFF
    }
    fn free(&mut self, s: &mut State, addr: u64) -> R<()> {
        if addr == 0 {
            return Ok(());
        }
        let n = self.obj(s, addr, 0, "free")?.0.data.len();
        let id = addr >> SLOT;
        if id < self.first_obj() || id >= STACK_ID || addr & 0xffff_ffff != BASE_OFF {
            return Err(Halt::Violation("memory".into(), format!("invalid free {:#x}", addr)));
        }
        let i = id - self.first_obj();
        s.heap.clear(i as usize);
        if self.reuse {
            if s.freed.len() >= 64 {
                s.freed.remove(0);
            }
            s.freed.push(((n as u32).div_ceil(16), i as u32));
        }
        Ok(())
    }

    fn copy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        s.moved += n;
        let (so, soff) = self.obj(s, src, n, "copy from")?;
        let n = n as usize;
        if so.concrete(soff, n) {
            if n <= 64 {
                let mut buf = [0u8; 64];
                buf[..n].copy_from_slice(&so.data[soff..soff + n]);
                let (d, doff) = self.obj_mut(s, dst, n as u64)?;
                d.data[doff..doff + n].copy_from_slice(&buf[..n]);
                if !d.sym.is_empty() {
                    d.sym[doff..doff + n].fill(0);
                }
            } else {
                let so = so.clone();
                let (d, doff) = self.obj_mut(s, dst, n as u64)?;
                d.data[doff..doff + n].copy_from_slice(&so.data[soff..soff + n]);
                if !d.sym.is_empty() {
                    d.sym[doff..doff + n].fill(0);
                }
            }
        } else {
            let so = so.clone();
            let (d, doff) = self.obj_mut(s, dst, n as u64)?;
            d.data[doff..doff + n].copy_from_slice(&so.data[soff..soff + n]);
            if d.sym.is_empty() {
                d.sym = vec![0; d.data.len()];
            }
            d.sym[doff..doff + n].copy_from_slice(&so.sym[soff..soff + n]);
        }
        Ok(())
    }
    fn fill(&mut self, s: &mut State, dst: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (d, off) = self.obj_mut(s, dst, n)?;
        let n = n as usize;
        match v {
            C(c) => {
                d.data[off..off + n].fill(*c as u8);
                if !d.sym.is_empty() {
                    d.sym[off..off + n].fill(0);
                }
            }
            S(e) => {
                if d.sym.is_empty() {
                    d.sym = vec![0; d.data.len()];
                }
                d.sym[off..off + n].fill(*e);
            }
            A(_) => return err("memset agg"),
        }
        Ok(())
    }

    fn byte(&mut self, s: &mut State, addr: u64) -> R<Val> {
        self.load_bits(s, addr, 8)
    }

    /// Load through a symbolic address that stays inside one constant object: an if-then-else
    /// chain over the feasible offsets. Returns None when not applicable.
    fn table_load(&mut self, s: &mut State, e: E, ty: TyId) -> R<Option<Val>> {
        let sup = support(e) & !s.fixed;
        if sup.count_ones() != 1 || self.m.types.borrow().is_agg(ty) {
            return Ok(None);
        }
        let w = self.bits(ty);
        let i = sup.trailing_zeros() as usize;
        let base = eval(e, &s.model) as u64;
        let id = base >> SLOT;
        if id == 0 || id > self.m.globals.len() as u64 || !self.m.globals[(id - 1) as usize].constant {
            return Ok(None);
        }
        let mut m = s.model.to_vec();
        let mut vals: Vec<(u8, u128)> = vec![];
        let d = s.dom[i];
        for v in 0..256usize {
            if d[v / 64] >> (v % 64) & 1 == 0 {
                continue;
            }
            m[i] = v as u8;
            let a = eval(e, &m) as u64;
            if a >> SLOT != id {
                return Ok(None);
            }
            match self.load(s, a, ty) {
                Ok(C(c)) => vals.push((v as u8, c)),
                _ => return Ok(None),
            }
        }
        // group consecutive runs
        let sy = sym(i as u32);
        let mut runs: Vec<(u8, u8, u128)> = vec![];
        for (v, c) in vals {
            match runs.last_mut() {
                Some(r) if r.2 == c => r.1 = v,
                _ => runs.push((v, v, c)),
            }
        }
        if runs.len() > 40 {
            return Ok(None);
        }
        let mut out = k(runs.last().unwrap().2, w);
        for r in runs.iter().rev().skip(1) {
            let c = ule(sy, k(r.1 as u128, 8));
            out = ite(c, k(r.2, w), out);
        }
        Ok(Some(from_e(out)))
    }

    // ---------------------------------------------------------------- values

    #[inline]
    fn op(&self, s: &State, o: &Opnd) -> Val {
        match o {
            Opnd::C(c) => C(*c),
            Opnd::Reg(r) => s.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::Agg(v) => A(Rc::new(v.iter().map(|x| self.op(s, x)).collect())),
        }
    }
    #[inline]
    fn set(&self, s: &mut State, d: u32, v: Val) {
        if d != u32::MAX {
            let f = s.frames.last_mut().unwrap();
            Rc::make_mut(f).regs[d as usize] = v;
        }
    }
    #[inline]
    fn advance(&self, s: &mut State) {
        let f = s.frames.last_mut().unwrap();
        Rc::make_mut(f).ip += 1;
    }

    fn arith(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            _ => {
                // floating point: concrete only
                if let (C(x), C(y)) = (a, b) {
                    let r = match w {
                        64 => {
                            let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
                            let r = match op {
                                BinOp::FAdd => x + y,
                                BinOp::FSub => x - y,
                                BinOp::FMul => x * y,
                                BinOp::FDiv => x / y,
                                _ => x % y,
                            };
                            r.to_bits() as u128
                        }
                        32 => {
                            let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                            let r = match op {
                                BinOp::FAdd => x + y,
                                BinOp::FSub => x - y,
                                BinOp::FMul => x * y,
                                BinOp::FDiv => x / y,
                                _ => x % y,
                            };
                            r.to_bits() as u128
                        }
                        _ => return err("fp width"),
                    };
                    return Ok(C(r));
                }
                return err("symbolic floating point arithmetic");
            }
        };
        if let (C(x), C(y)) = (a, b) {
            return match fold(o, w, *x, *y) {
                Some(r) => Ok(C(r)),
                None => Err(Halt::Violation("ub".into(), "division by zero".into())),
            };
        }
        Ok(from_e(bin(o, to_e(a, w), to_e(b, w))))
    }

    fn map2(&mut self, ty: TyId, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, u32, &Val, &Val) -> R<Val>) -> R<Val> {
        if let (A(x), A(y)) = (a, b) {
            let t = self.m.types.borrow().elem_ty(ty, 0);
            let w = self.bits(t);
            let mut out = Vec::with_capacity(x.len());
            for i in 0..x.len() {
                out.push(f(self, w, &x[i], &y[i])?);
            }
            return Ok(A(Rc::new(out)));
        }
        let w = self.bits(ty);
        f(self, w, a, b)
    }

    fn icmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
            };
            return C(r as u128);
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        from_e(match p {
            Pred::Eq => eq(x, y),
            Pred::Ne => not(eq(x, y)),
            Pred::Ugt => ult(y, x),
            Pred::Uge => ule(y, x),
            Pred::Ult => ult(x, y),
            Pred::Ule => ule(x, y),
            Pred::Sgt => slt(y, x),
            Pred::Sge => sle(y, x),
            Pred::Slt => slt(x, y),
            Pred::Sle => sle(x, y),
        })
    }

    fn fcmp(p: &str, w: u32, a: &Val, b: &Val) -> R<Val> {
        let (fx, fy) = (to_e(a, w), to_e(b, w));
        let (mb, eb): (u32, u128) = if w == 64 { (52, 0x7ff) } else { (23, 0xff) };
        let absmask = mask(u128::MAX, w - 1);
        let inf = eb << mb;
        let nan = |e: E| ult(k(inf, w), bin(Op::And, e, k(absmask, w)));
        let zero = |e: E| eq(bin(Op::And, e, k(absmask, w)), k(0, w));
        let uno = bin(Op::Or, nan(fx), nan(fy));
        let eqv = bin(Op::Or, eq(fx, fy), bin(Op::And, zero(fx), zero(fy)));
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = if w == 64 {
                (f64::from_bits(*x as u64), f64::from_bits(*y as u64))
            } else {
                (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64)
            };
            let u = x.is_nan() || y.is_nan();
            let r = match p {
                "oeq" => x == y,
                "une" => x != y,
                "ord" => !u,
                "uno" => u,
                "ogt" => x > y,
                "oge" => x >= y,
                "olt" => x < y,
                "ole" => x <= y,
                "one" => !u && x != y,
                "ueq" => u || x == y,
                "ugt" => u || x > y,
                "uge" => u || x >= y,
                "ult" => u || x < y,
                "ule" => u || x <= y,
                "true" => true,
                "false" => false,
                _ => return err("fcmp"),
            };
            return Ok(C(r as u128));
        }
        Ok(from_e(match p {
            "oeq" => bin(Op::And, not(uno), eqv),
            "une" => bin(Op::Or, uno, not(eqv)),
            "ueq" => bin(Op::Or, uno, eqv),
            "one" => bin(Op::And, not(uno), not(eqv)),
            "ord" => not(uno),
            "uno" => uno,
            // The order of floats is that of their bits, with those of negative ones reversed.
            _ if p.len() == 3 && (p.starts_with('o') || p.starts_with('u')) => {
                let top = k(1u128 << (w - 1), w);
                let key = |e: E| ite(eq(bin(Op::And, e, top), k(0, w)), bin(Op::Or, e, top), bin(Op::Xor, e, k(mask(u128::MAX, w), w)));
                let less = |a: E, b: E| bin(Op::And, ult(key(a), key(b)), not(eqv));
                let r = match &p[1..] {
                    "lt" => less(fx, fy),
                    "gt" => less(fy, fx),
                    "le" => bin(Op::Or, less(fx, fy), eqv),
                    "ge" => bin(Op::Or, less(fy, fx), eqv),
                    _ => return err(format!("symbolic fcmp {}", p)),
                };
                if p.starts_with('o') {
                    bin(Op::And, not(uno), r)
                } else {
                    bin(Op::Or, uno, r)
                }
            }
            _ => return err(format!("symbolic fcmp {}", p)),
        }))
    }

    fn flatten(&self, ty: TyId, v: &Val) -> R<(u32, Val)> {
        let t = self.m.types.borrow();
        match t.get(ty) {
            Ty::Vec(_, et) => {
                let w = t.bits(*et);
                let es = match v {
                    A(es) => es,
                    _ => return err("vector value expected"),
                };
                let tot = w * es.len() as u32;
                if tot > 128 {
                    return err("vector too wide");
                }
                if es.iter().all(|e| matches!(e, C(_))) {
                    let mut r = 0u128;
                    for (i, e) in es.iter().enumerate() {
                        if let C(c) = e {
                            r |= c << (w * i as u32);
                        }
                    }
                    return Ok((tot, C(r)));
                }
                let mut e = to_e(&es[0], w);
                for x in &es[1..] {
                    e = concat(to_e(x, w), e);
                }
                Ok((tot, from_e(e)))
            }
            _ => Ok((t.bits(ty), v.clone())),
        }
    }
    fn unflatten(&self, ty: TyId, v: &Val) -> R<Val> {
        let t = self.m.types.borrow();
        match t.get(ty) {
            Ty::Vec(n, et) => {
                let w = t.bits(*et);
                let mut out = vec![];
                for i in 0..*n {
                    out.push(match v {
                        C(c) => C(mask(c >> (w * i), w)),
                        S(e) => from_e(extract(*e, w * i, w)),
                        A(_) => return err("unflatten"),
                    });
                }
                Ok(A(Rc::new(out)))
            }
            _ => Ok(v.clone()),
        }
    }

    fn cast1(&mut self, op: Cast, wf: u32, wt: u32, v: &Val) -> R<Val> {
        Ok(match op {
            Cast::ZExt => match v {
                C(c) => C(*c),
                S(e) => from_e(zext(*e, wt)),
                A(_) => return err("cast"),
            },
            Cast::SExt => match v {
                C(c) => C(mask(sext(*c, wf) as u128, wt)),
                S(e) => from_e(sext_e(*e, wt)),
                A(_) => return err("cast"),
            },
            Cast::Trunc | Cast::Bit => match v {
                C(c) => C(mask(*c, wt)),
                S(e) => {
                    if wt <= wf {
                        from_e(extract(*e, 0, wt))
                    } else {
                        from_e(zext(*e, wt))
                    }
                }
                A(_) => return err("cast"),
            },
            _ => {
                let c = match v {
                    C(c) => *c,
                    _ => return err("symbolic floating point cast"),
                };
                match op {
                    Cast::FpExt => C((f32::from_bits(c as u32) as f64).to_bits() as u128),
                    Cast::FpTrunc => C((f64::from_bits(c as u64) as f32).to_bits() as u128),
                    Cast::UiToFp => {
                        if wt == 64 {
                            C((c as f64).to_bits() as u128)
                        } else {
                            C((c as f32).to_bits() as u128)
                        }
                    }
                    Cast::SiToFp => {
                        let x = sext(c, wf);
                        if wt == 64 {
                            C((x as f64).to_bits() as u128)
                        } else {
                            C((x as f32).to_bits() as u128)
                        }
                    }
                    Cast::FpToUi | Cast::FpToSi => {
                        let f = if wf == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
                        if op == Cast::FpToUi {
                            C(mask(f as u128, wt))
                        } else {
                            C(mask(f as i128 as u128, wt))
                        }
                    }
                    _ => unreachable!(),
                }
            }
        })
    }

    // ---------------------------------------------------------------- control flow

    fn goto(&mut self, s: &mut State, t: u32) -> R<()> {
        let fr = s.frames.last_mut().unwrap();
        let from = fr.block;
        let func = fr.func.clone();
        let b = &func.blocks[t as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let v = match inc.iter().find(|(p, _)| *p == from) {
                    Some((_, v)) => v,
                    None => return err("phi without predecessor"),
                };
                vals.push((*d, self.op(s, v)));
            }
            for (d, v) in vals {
                self.set(s, d, v);
            }
        }
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        fr.block = t;
        fr.ip = 0;
        Ok(())
    }

    fn ret(&mut self, s: &mut State, v: Option<Val>) -> R<()> {
        let fr = s.frames.pop().unwrap();
        while s.stack_top > fr.stack_mark {
            s.stack_top -= 1;
            let i = s.stack_top as usize;
            s.stack.clear(i);
        }
        if s.frames.is_empty() {
            return Err(Halt::Done);
        }
        if let Some(v) = v {
            self.set(s, fr.ret_dst, v);
        }
        match fr.ret_next {
            Some(b) => self.goto(s, b),
            None => {
                self.advance(s);
                Ok(())
            }
        }
    }

    pub fn trace_stack(&self, s: &State) -> String {
        let mut out = vec![];
        for f in s.frames.iter().rev() {
            out.push(self.m.funcs[f.fix as usize].name.clone());
            if out.len() >= 40 {
                break;
            }
        }
        out.join(" < ")
    }

    fn call(&mut self, s: &mut State, fix: u32, args: Vec<(TyId, Val)>, ret: TyId, d: u32, next: Option<u32>) -> R<()> {
        let kind = self.kinds[fix as usize];
        if kind == FK::Normal {
            let f = match self.m.func(fix) {
                Some(f) => f,
                None => return err(format!("call to external {}", self.m.funcs[fix as usize].name)),
            };
            if s.frames.len() >= self.lim.max_frames {
                return Err(Halt::Violation("stack".into(), format!("call depth exceeds {}", self.lim.max_frames)));
            }
            self.st.funcs.insert(fix);
            let mut regs = vec![C(0); f.nregs as usize];
            if args.len() < f.nparams as usize {
                return err(format!("too few arguments for {}", self.m.funcs[fix as usize].name));
            }
            for (i, (_, a)) in args.into_iter().enumerate().take(f.nparams as usize) {
                regs[i] = a;
            }
            let mark = s.stack_top;
            s.frames.push(Rc::new(Frame {
                func: f,
                fix,
                regs,
                block: 0,
                ip: 0,
                stack_mark: mark,
                ret_dst: d,
                ret_next: next,
            }));
            return Ok(());
        }
        let v = self.builtin(s, kind, fix, &args, ret)?;
        if let Some(v) = v {
            self.set(s, d, v);
        }
        match next {
            Some(b) => self.goto(s, b),
            None => {
                self.advance(s);
                Ok(())
            }
        }
    }

    fn size_arg(&mut self, s: &mut State, v: &Val) -> R<u64> {
        const BIG: u128 = 1 << 24;
        if let S(e) = v {
            let small = from_e(ult(*e, k(BIG, 64)));
            let pending = self.work.len();
            let mut fits = self.decide(s, &small)?;
            if fits && self.work.len() > pending {
                // the values that ask for too much come first: there may be very many of the others
                std::mem::swap(s, self.work.last_mut().unwrap());
                fits = false;
            }
            if !fits {
                return Err(Halt::Violation("alloc".into(), "allocation of more than 16 MiB".into()));
            }
        }
        let n = self.conc(s, v, 64)?;
        if n >= BIG {
            return Err(Halt::Violation("alloc".into(), format!("allocation of {} bytes", n)));
        }
        Ok(n as u64)
    }

    fn builtin(&mut self, s: &mut State, kind: FK, fix: u32, args: &[(TyId, Val)], ret: TyId) -> R<Option<Val>> {
        let a = |i: usize| args[i].1.clone();
        macro_rules! c64 {
            ($i:expr) => {{
                let v = a($i);
                self.conc(s, &v, 64)? as u64
            }};
        }
        Ok(match kind {
            FK::SymBytes => {
                let p = c64!(0);
                let n = c64!(1);
                for i in 0..n {
                    let id = s.nsym;
                    if id >= 128 {
                        return err("more than 128 symbolic bytes");
                    }
                    s.nsym += 1;
                    Rc::make_mut(&mut s.dom).push([u64::MAX; 4]);
                    let e = sym(id);
                    self.store_bits(s, p + i, 8, &S(e))?;
                }
                None
            }
            FK::SymAssume => {
                let v = a(0);
                let w = self.bits(args[0].0);
                let c = match &v {
                    C(c) => {
                        if *c & 1 == 0 {
                            return Err(Halt::Infeasible);
                        }
                        return Ok(None);
                    }
                    S(e) => {
                        if w > 1 {
                            extract(*e, 0, 1)
                        } else {
                            *e
                        }
                    }
                    A(_) => return err("assume"),
                };
                match self.sat(s, c)? {
                    None => return Err(Halt::Infeasible),
                    Some(m) => {
                        if eval(c, &s.model) == 0 {
                            s.model = Rc::new(m);
                        }
                        self.add(s, c);
                    }
                }
                None
            }
            FK::SymAssert => {
                let v = a(0);
                let w = self.bits(args[0].0);
                let code = c64!(1);
                let c = match &v {
                    C(c) => {
                        if *c & 1 == 0 {
                            return Err(Halt::Violation("assert".into(), format!("{}", code)));
                        }
                        self.st.asserts_folded += 1;
                        return Ok(None);
                    }
                    S(e) => {
                        if w > 1 {
                            extract(*e, 0, 1)
                        } else {
                            *e
                        }
                    }
                    A(_) => return err("assert"),
                };
                self.st.asserts_solved += 1;
                let bad = if eval(c, &s.model) == 0 { Some(s.model.to_vec()) } else { self.sat_z3(s, not(c))? };
                if let Some(m) = bad {
                    s.model = Rc::new(m);
                    return Err(Halt::Violation("assert".into(), format!("{}", code)));
                }
                None
            }
            FK::SymEmit => {
                let v = a(0);
                Rc::make_mut(&mut s.emits).push(v);
                None
            }
            FK::SymCover => {
                let id = c64!(0);
                *self.st.covers.entry(id).or_insert(0) += 1;
                None
            }
            FK::SymConcretize => Some(C(c64!(0) as u128)),
            FK::SymParam => Some(C(self.param as u128)),
            FK::SymScale => Some(C(1)),
            FK::SymCost => Some(C((s.steps + s.moved) as u128)),
            FK::SymMem => Some(C(s.allocated as u128)),
            FK::Panic => {
                return Err(Halt::Violation("panic".into(), "panic".into()));
            }
            FK::Abort => return Err(Halt::Violation("abort".into(), "process abort".into())),
            // All keys collide. Tables are iterated in the order of insertion in one half of the jobs, and rotated in the other.
            FK::HashOne => Some(C(self.hash as u128)),
            FK::RandomKeys => Some(A(Rc::new(vec![C(1), C(2)]))),
            FK::NoAllocShim => None,
            FK::Alloc | FK::AllocZeroed | FK::Malloc => {
                let v = a(0);
                let n = self.size_arg(s, &v)?;
                Some(C(self.alloc(s, n)? as u128))
            }
            FK::Calloc => {
                let x = c64!(0);
                let v = a(1);
                let n = self.size_arg(s, &v)?;
                Some(C(self.alloc(s, n * x)? as u128))
            }
            FK::AlignedAlloc => {
                let v = a(1);
                let n = self.size_arg(s, &v)?;
                Some(C(self.alloc(s, n)? as u128))
            }
            FK::PosixMemalign => {
                let p = c64!(0);
                let v = a(2);
                let n = self.size_arg(s, &v)?;
                let x = self.alloc(s, n)?;
                self.store_bits(s, p, 64, &C(x as u128))?;
                Some(C(0))
            }
            FK::Dealloc | FK::Free => {
                let p = c64!(0);
                self.free(s, p)?;
                None
            }
            FK::Realloc | FK::CRealloc => {
                let p = c64!(0);
                let v = if kind == FK::Realloc { a(3) } else { a(1) };
                let n = self.size_arg(s, &v)?;
                let x = self.alloc(s, n)?;
                if p != 0 {
                    let (o, _) = self.obj(s, p, 0, "realloc")?;
                    let old = o.data.len() as u64;
                    self.copy(s, x, p, old.min(n))?;
                    self.free(s, p)?;
                }
                Some(C(x as u128))
            }
            FK::Memcmp | FK::Bcmp => {
                let (p, q) = (c64!(0), c64!(1));
                let n = c64!(2);
                s.moved += n;
                let mut r = C(0);
                let mut alleq = k(1, 1);
                // fast path: concrete
                let mut i = 0;
                while i < n {
                    let x = self.byte(s, p + i)?;
                    let y = self.byte(s, q + i)?;
                    if let (C(x), C(y)) = (&x, &y) {
                        if x != y {
                            break;
                        }
                    } else {
                        break;
                    }
                    i += 1;
                }
                if i < n {
                    let mut j = n;
                    let mut e = k(0, 32);
                    while j > i {
                        j -= 1;
                        let x = self.byte(s, p + j)?;
                        let y = self.byte(s, q + j)?;
                        let (x, y) = (to_e(&x, 8), to_e(&y, 8));
                        let c = eq(x, y);
                        if kind == FK::Bcmp {
                            alleq = bin(Op::And, c, alleq);
                        } else {
                            e = ite(c, e, ite(ult(x, y), k(u128::MAX, 32), k(1, 32)));
                        }
                    }
                    r = if kind == FK::Bcmp { from_e(ite(alleq, k(0, 32), k(1, 32))) } else { from_e(e) };
                }
                Some(r)
            }
            FK::Memchr => {
                let p = c64!(0);
                let n = c64!(2);
                let v = a(1);
                let c = match v {
                    C(c) => C(c & 0xff),
                    S(e) => from_e(extract(e, 0, 8)),
                    _ => return err("memchr"),
                };
                for i in 0..n {
                    let x = self.byte(s, p + i)?;
                    let q = Self::icmp(Pred::Eq, 8, &x, &c);
                    if self.decide(s, &q)? {
                        return Ok(Some(C((p + i) as u128)));
                    }
                }
                Some(C(0))
            }
            FK::Strlen => {
                let p = c64!(0);
                let mut i = 0;
                loop {
                    let x = self.byte(s, p + i)?;
                    let q = Self::icmp(Pred::Eq, 8, &x, &C(0));
                    if self.decide(s, &q)? {
                        break;
                    }
                    i += 1;
                }
                Some(C(i as u128))
            }
            FK::Memcpy | FK::Intr(Ix::Memcpy) => {
                let n = c64!(2);
                let (d, q) = (c64!(0), c64!(1));
                self.copy(s, d, q, n)?;
                Some(C(d as u128))
            }
            FK::Memset | FK::Intr(Ix::Memset) => {
                let n = c64!(2);
                let d = c64!(0);
                s.moved += n;
                let v = match a(1) {
                    C(c) => C(c & 0xff),
                    S(e) => from_e(extract(e, 0, 8)),
                    x => x,
                };
                self.fill(s, d, &v, n)?;
                Some(C(d as u128))
            }
            FK::Zero => Some(C(0)),
            FK::One => Some(C(1)),
            FK::MinusOne => {
                let w = self.bits(ret);
                Some(C(mask(u128::MAX, w)))
            }
            FK::Write => Some(a(2)),
            FK::Writev => {
                let p = c64!(1);
                let n = c64!(2);
                let mut t = 0u128;
                for i in 0..n {
                    match self.load_bits(s, p + 16 * i + 8, 64)? {
                        C(c) => t += c,
                        _ => return err("writev"),
                    }
                }
                Some(C(t))
            }
            FK::Errno => {
                if s.errno == 0 {
                    s.errno = self.alloc(s, 8)?;
                }
                Some(C(s.errno as u128))
            }
            FK::GetRandom => {
                let n = c64!(1);
                Some(C(n as u128))
            }
            FK::Clock => {
                let p = c64!(1);
                self.store_bits(s, p, 64, &C(1_000_000))?;
                self.store_bits(s, p + 8, 64, &C(0))?;
                Some(C(0))
            }
            FK::Arg0 => Some(a(0)),
            FK::StackPtr => Some(C((STACK_ID << SLOT) as u128 + (1 << 31))),
            FK::Intr(ix) => self.intrinsic(s, ix, fix, args, ret)?,
            FK::Extern | FK::Normal => {
                return err(format!("call to external {}", self.m.funcs[fix as usize].name));
            }
        })
    }

    fn lanes(&self, ty: TyId) -> Option<(usize, u32)> {
        let t = self.m.types.borrow();
        match t.get(ty) {
            Ty::Vec(n, e) => Some((*n as usize, t.bits(*e))),
            _ => None,
        }
    }

    fn intrinsic(&mut self, s: &mut State, ix: Ix, fix: u32, args: &[(TyId, Val)], ret: TyId) -> R<Option<Val>> {
        let mut conc = vec![];
        if matches!(ix, Ix::Fmin | Ix::Fmax | Ix::Floor | Ix::Ceil | Ix::Trunc | Ix::Round | Ix::Rint | Ix::Sqrt | Ix::FpToUiSat | Ix::FpToSiSat | Ix::Powi | Ix::Pow | Ix::Exp | Ix::Exp2 | Ix::Ln | Ix::Log2 | Ix::Log10 | Ix::Fma) {
            for (i, (t, v)) in args.iter().enumerate() {
                let w = self.bits(*t);
                conc.push((*t, if let S(_) = v { C(self.conc_float(s, v, w, ix != Ix::Powi || i == 0)?) } else { v.clone() }));
            }
        }
        let args = if conc.is_empty() { args } else { &conc[..] };
        // element-wise on vectors
        if let Some((n, w)) = args.first().and_then(|a| self.lanes(a.0)) {
            match ix {
                Ix::Umin | Ix::Umax | Ix::Smin | Ix::Smax | Ix::UaddSat | Ix::UsubSat => {
                    let (x, y) = (args[0].1.clone(), args[1].1.clone());
                    let mut out = vec![];
                    if let (A(x), A(y)) = (x, y) {
                        for i in 0..n {
                            out.push(self.intr2(ix, w, &x[i], &y[i])?);
                        }
                    }
                    return Ok(Some(A(Rc::new(out))));
                }
                Ix::ReduceOr | Ix::ReduceAnd | Ix::ReduceAdd => {
                    if let A(x) = &args[0].1 {
                        let mut r = x[0].clone();
                        let op = match ix {
                            Ix::ReduceOr => BinOp::Or,
                            Ix::ReduceAnd => BinOp::And,
                            _ => BinOp::Add,
                        };
                        for v in &x[1..] {
                            r = self.arith(op, w, &r, v)?;
                        }
                        return Ok(Some(r));
                    }
                    return err("reduce");
                }
                Ix::Pmovmskb => {
                    if let A(x) = &args[0].1 {
                        let mut r = k(0, 32);
                        for (i, v) in x.iter().enumerate() {
                            let b = zext(extract(to_e(v, 8), 7, 1), 32);
                            r = bin(Op::Or, r, bin(Op::Shl, b, k(i as u128, 32)));
                        }
                        return Ok(Some(from_e(r)));
                    }
                    return err("pmovmskb");
                }
                _ => return err(format!("vector intrinsic {}", self.m.funcs[fix as usize].name)),
            }
        }
        let w = match args.first() {
            Some(a) if !self.m.types.borrow().is_agg(a.0) && *self.m.types.borrow().get(a.0) != Ty::Meta => self.bits(a.0),
            _ => 0,
        };
        let a = |i: usize| args[i].1.clone();
        Ok(match ix {
            Ix::Nop => None,
            Ix::Umin | Ix::Umax | Ix::Smin | Ix::Smax | Ix::UaddSat | Ix::UsubSat | Ix::SaddSat | Ix::SsubSat => {
                Some(self.intr2(ix, w, &a(0), &a(1))?)
            }
            Ix::Abs => Some(match a(0) {
                C(c) => C(mask(sext(c, w).unsigned_abs(), w)),
                S(e) => from_e(ite(slt(e, k(0, w)), bin(Op::Sub, k(0, w), e), e)),
                _ => return err("abs"),
            }),
            Ix::Ctlz => Some(match a(0) {
                C(c) => C((c.leading_zeros() - (128 - w)) as u128),
                S(e) => {
                    let mut r = k(w as u128, w);
                    for i in 0..w {
                        r = ite(extract(e, i, 1), k((w - 1 - i) as u128, w), r);
                    }
                    from_e(r)
                }
                _ => return err("ctlz"),
            }),
            Ix::Cttz => Some(match a(0) {
                C(c) => C(if c == 0 { w } else { c.trailing_zeros() } as u128),
                S(e) => {
                    let mut r = k(w as u128, w);
                    for i in (0..w).rev() {
                        r = ite(extract(e, i, 1), k(i as u128, w), r);
                    }
                    from_e(r)
                }
                _ => return err("cttz"),
            }),
            Ix::Ctpop => Some(match a(0) {
                C(c) => C(c.count_ones() as u128),
                S(e) => {
                    let mut r = k(0, w);
                    for i in 0..w {
                        r = bin(Op::Add, r, zext(extract(e, i, 1), w));
                    }
                    from_e(r)
                }
                _ => return err("ctpop"),
            }),
            Ix::Bswap => Some(match a(0) {
                C(c) => C(c.swap_bytes() >> (128 - w)),
                S(e) => {
                    let mut r = extract(e, 0, 8);
                    for i in 1..w / 8 {
                        r = concat(r, extract(e, i * 8, 8));
                    }
                    from_e(r)
                }
                _ => return err("bswap"),
            }),
            Ix::Bitreverse => Some(match a(0) {
                C(c) => C(c.reverse_bits() >> (128 - w)),
                S(e) => {
                    let mut r = extract(e, 0, 1);
                    for i in 1..w {
                        r = concat(r, extract(e, i, 1));
                    }
                    from_e(r)
                }
                _ => return err("bitreverse"),
            }),
            Ix::Fshl | Ix::Fshr => {
                let sh = self.conc(s, &a(2), w)? as u32 % w;
                let (hi, lo) = (to_e(&a(0), w), to_e(&a(1), w));
                if w * 2 > 128 {
                    let (x, y) = (hi, lo);
                    let (l, r) = if ix == Ix::Fshl { (sh, w - sh) } else { (w - sh, sh) };
                    let e = bin(Op::Or, bin(Op::Shl, x, k(l as u128, w)), bin(Op::LShr, y, k(r as u128, w)));
                    return Ok(Some(from_e(e)));
                }
                let c = concat(hi, lo);
                let e = if ix == Ix::Fshl { extract(c, w - sh, w) } else { extract(c, sh, w) };
                Some(from_e(e))
            }
            Ix::UaddO | Ix::UsubO | Ix::UmulO | Ix::SaddO | Ix::SsubO | Ix::SmulO => {
                let (x, y) = (a(0), a(1));
                Some(self.overflow(ix, w, &x, &y)?)
            }
            Ix::Ucmp | Ix::Scmp => {
                let rw = self.bits(ret);
                let (lt, gt) = if ix == Ix::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = Self::icmp(lt, w, &a(0), &a(1));
                let g = Self::icmp(gt, w, &a(0), &a(1));
                let e = ite(to_e(&l, 1), k(u128::MAX, rw), ite(to_e(&g, 1), k(1, rw), k(0, rw)));
                Some(from_e(e))
            }
            Ix::Expect | Ix::Tls => Some(a(0)),
            Ix::IsConstant => Some(C(0)),
            Ix::Objectsize => {
                let rw = self.bits(ret);
                Some(C(mask(u128::MAX, rw)))
            }
            Ix::Trap => return Err(Halt::Violation("abort".into(), "trap".into())),
            Ix::FpToUiSat | Ix::FpToSiSat => {
                let rw = self.bits(ret);
                match a(0) {
                    C(c) => {
                        let f = if w == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
                        if ix == Ix::FpToUiSat {
                            let m = mask(u128::MAX, rw);
                            let v = f as u128;
                            Some(C(v.min(m)))
                        } else {
                            let hi = (1i128 << (rw - 1)) - 1;
                            let lo = -(1i128 << (rw - 1));
                            Some(C(mask((f as i128).max(lo).min(hi) as u128, rw)))
                        }
                    }
                    _ => return err("symbolic fptoui"),
                }
            }
            Ix::Ptrmask => Some(self.arith(BinOp::And, 64, &a(0), &a(1))?),
            Ix::Copysign => {
                let x = self.arith(BinOp::And, w, &a(0), &C(mask(u128::MAX, w - 1)))?;
                let y = self.arith(BinOp::And, w, &a(1), &C(1 << (w - 1)))?;
                Some(self.arith(BinOp::Or, w, &x, &y)?)
            }
            Ix::Fmin | Ix::Fmax => match (a(0), a(1)) {
                (C(x), C(y)) => {
                    let f = |c: u128| if w == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
                    let r = if ix == Ix::Fmin { f(x).min(f(y)) } else { f(x).max(f(y)) };
                    Some(C(if w == 64 { r.to_bits() as u128 } else { (r as f32).to_bits() as u128 }))
                }
                _ => return err("symbolic floating point arithmetic"),
            },
            Ix::Fabs => Some(self.arith(BinOp::And, w, &a(0), &C(mask(u128::MAX, w - 1)))?),
            Ix::Floor | Ix::Ceil | Ix::Trunc | Ix::Round | Ix::Rint | Ix::Sqrt => match a(0) {
                C(c) => {
                    let f = if w == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
                    let r = match ix {
                        Ix::Floor => f.floor(),
                        Ix::Ceil => f.ceil(),
                        Ix::Trunc => f.trunc(),
                        Ix::Round => f.round(),
                        Ix::Rint => f.round_ties_even(),
                        _ => f.sqrt(),
                    };
                    Some(C(if w == 64 { r.to_bits() as u128 } else { (r as f32).to_bits() as u128 }))
                }
                _ => return err("fp intrinsic"),
            },
            Ix::Powi | Ix::Pow | Ix::Exp | Ix::Exp2 | Ix::Ln | Ix::Log2 | Ix::Log10 | Ix::Fma => {
                let mut v = [0f64; 3];
                let mut g = [0f32; 3];
                for (i, (_, x)) in args.iter().enumerate().take(3) {
                    match x {
                        C(c) if ix == Ix::Powi && i == 1 => v[1] = *c as u32 as i32 as f64,
                        C(c) => {
                            v[i] = f64::from_bits(*c as u64);
                            g[i] = f32::from_bits(*c as u32);
                        }
                        _ => return err("fp intrinsic"),
                    }
                }
                let n = v[1] as i32;
                macro_rules! all {
                    ($v:expr) => {
                        match ix {
                            Ix::Powi => $v[0].powi(n),
                            Ix::Pow => $v[0].powf($v[1]),
                            Ix::Exp => $v[0].exp(),
                            Ix::Exp2 => $v[0].exp2(),
                            Ix::Ln => $v[0].ln(),
                            Ix::Log2 => $v[0].log2(),
                            Ix::Log10 => $v[0].log10(),
                            _ => $v[0].mul_add($v[1], $v[2]),
                        }
                    };
                }
                Some(C(if w == 64 { all!(v).to_bits() as u128 } else { all!(g).to_bits() as u128 }))
            }
            _ => return err(format!("intrinsic {}", self.m.funcs[fix as usize].name)),
        })
    }

    fn intr2(&mut self, ix: Ix, w: u32, x: &Val, y: &Val) -> R<Val> {
        let pick = |p: Pred| -> Val {
            let c = Self::icmp(p, w, x, y);
            match c {
                C(0) => y.clone(),
                C(_) => x.clone(),
                S(e) => from_e(ite(e, to_e(x, w), to_e(y, w))),
                A(_) => unreachable!(),
            }
        };
        Ok(match ix {
            Ix::Umin => pick(Pred::Ult),
            Ix::Umax => pick(Pred::Ugt),
            Ix::Smin => pick(Pred::Slt),
            Ix::Smax => pick(Pred::Sgt),
            Ix::UaddSat | Ix::UsubSat | Ix::SaddSat | Ix::SsubSat => {
                let o = match ix {
                    Ix::UaddSat => Ix::UaddO,
                    Ix::UsubSat => Ix::UsubO,
                    Ix::SaddSat => Ix::SaddO,
                    _ => Ix::SsubO,
                };
                let r = self.overflow(o, w, x, y)?;
                if let A(v) = r {
                    let ov = to_e(&v[1], 1);
                    let val = to_e(&v[0], w);
                    let sat = match ix {
                        Ix::UaddSat => k(u128::MAX, w),
                        Ix::UsubSat => k(0, w),
                        _ => {
                            let neg = extract(to_e(x, w), w - 1, 1);
                            ite(neg, k(1u128 << (w - 1), w), k((1u128 << (w - 1)) - 1, w))
                        }
                    };
                    from_e(ite(ov, sat, val))
                } else {
                    unreachable!()
                }
            }
            _ => return err("intr2"),
        })
    }

    fn overflow(&mut self, ix: Ix, w: u32, x: &Val, y: &Val) -> R<Val> {
        if let (C(x), C(y)) = (x, y) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            let (r, ov): (u128, bool) = match ix {
                Ix::UaddO => {
                    let (r, c) = x.overflowing_add(y);
                    (mask(r, w), c || mask(r, w) != r)
                }
                Ix::UsubO => (mask(x.wrapping_sub(y), w), x < y),
                Ix::UmulO => {
                    let (r, c) = x.overflowing_mul(y);
                    (mask(r, w), c || mask(r, w) != r)
                }
                Ix::SaddO => {
                    let (r, c) = sx.overflowing_add(sy);
                    let m = mask(r as u128, w);
                    (m, c || sext(m, w) != r)
                }
                Ix::SsubO => {
                    let (r, c) = sx.overflowing_sub(sy);
                    let m = mask(r as u128, w);
                    (m, c || sext(m, w) != r)
                }
                _ => {
                    let (r, c) = sx.overflowing_mul(sy);
                    let m = mask(r as u128, w);
                    (m, c || sext(m, w) != r)
                }
            };
            return Ok(A(Rc::new(vec![C(r), C(ov as u128)])));
        }
        let (a, b) = (to_e(x, w), to_e(y, w));
        let (r, ov) = match ix {
            Ix::UaddO => {
                let r = bin(Op::Add, a, b);
                let (ma, mb) = (node(a).may, node(b).may);
                let ov = match ma.checked_add(mb) {
                    Some(t) if t <= mask(u128::MAX, w) => k(0, 1),
                    _ => ult(r, a),
                };
                (r, ov)
            }
            Ix::UsubO => (bin(Op::Sub, a, b), ult(a, b)),
            Ix::SaddO | Ix::SsubO => {
                let op = if ix == Ix::SaddO { Op::Add } else { Op::Sub };
                let r = bin(op, a, b);
                if w < 128 {
                    let wide = bin(op, sext_e(a, w + 1), sext_e(b, w + 1));
                    let ov = bin(Op::Xor, extract(wide, w, 1), extract(wide, w - 1, 1));
                    (r, ov)
                } else {
                    let (sa, sb, sr) = (extract(a, w - 1, 1), extract(b, w - 1, 1), extract(r, w - 1, 1));
                    let differ = bin(Op::Xor, sa, sr);
                    let cond = if op == Op::Add { not(bin(Op::Xor, sa, sb)) } else { bin(Op::Xor, sa, sb) };
                    (r, bin(Op::And, cond, differ))
                }
            }
            Ix::UmulO => {
                let full = mask(u128::MAX, w);
                let ov = match (cval(a), cval(b)) {
                    (_, Some(0)) | (Some(0), _) => k(0, 1),
                    (_, Some(c)) => ult(k(full / c, w), a),
                    (Some(c), _) => ult(k(full / c, w), b),
                    _ if w <= 64 => not(eq(extract(bin(Op::Mul, zext(a, 2 * w), zext(b, 2 * w)), w, w), k(0, w))),
                    _ => {
                        // From the products of the halves.
                        let h = |x: E| zext(extract(x, 64, 64), 128);
                        let l = |x: E| zext(extract(x, 0, 64), 128);
                        let both = bin(Op::And, not(eq(h(a), k(0, 128))), not(eq(h(b), k(0, 128))));
                        let t = bin(Op::Add, bin(Op::Mul, h(a), l(b)), bin(Op::Mul, l(a), h(b)));
                        let t = bin(Op::Add, t, h(bin(Op::Mul, l(a), l(b))));
                        bin(Op::Or, both, not(eq(h(t), k(0, 128))))
                    }
                };
                (bin(Op::Mul, a, b), ov)
            }
            _ => {
                let r = bin(Op::Mul, a, b);
                let max = (mask(u128::MAX, w) >> 1) as i128;
                let min = -max - 1;
                let range = |c: i128, x: E| match c {
                    0 | 1 => k(0, 1),
                    -1 => eq(x, k(mask(min as u128, w), w)),
                    _ => {
                        let (lo, hi) = if c > 0 { (min / c, max / c) } else { (max / c, min / c) };
                        let lo = slt(x, k(mask(lo as u128, w), w));
                        let hi = slt(k(mask(hi as u128, w), w), x);
                        bin(Op::Or, lo, hi)
                    }
                };
                let ov = match (cval(a), cval(b)) {
                    (_, Some(c)) => range(sext(c, w) as i128, a),
                    (Some(c), _) => range(sext(c, w) as i128, b),
                    _ if w <= 64 => {
                        let wide = bin(Op::Mul, sext_e(a, 2 * w), sext_e(b, 2 * w));
                        not(eq(wide, sext_e(extract(wide, 0, w), 2 * w)))
                    }
                    _ => return err("wide smul.with.overflow"),
                };
                (r, ov)
            }
        };
        Ok(A(Rc::new(vec![from_e(r), from_e(ov)])))
    }

    /// Like `sat`, but always asks Z3 unless the condition folds to a constant.
    fn sat_z3(&mut self, s: &State, cond: E) -> R<Option<Vec<u8>>> {
        let sup = support(cond) & !s.fixed;
        if sup.count_ones() == 1 && sup & s.entangled == 0 {
            let mut memo = HashMap::default();
            let c = subst(cond, s.fixed, &s.model, &mut memo);
            if let Some(v) = cval(c) {
                return Ok(if v == 0 { None } else { Some(s.model.to_vec()) });
            }
            let mut cs = vec![c];
            for &p in &s.pc {
                if support(p) & sup != 0 {
                    cs.push(subst(p, s.fixed, &s.model, &mut memo));
                }
            }
            let mut m = s.model.to_vec();
            return match self.z3.check(&cs, sup, &mut m) {
                Res::Sat => Ok(Some(m)),
                Res::Unsat => Ok(None),
                Res::Unknown => err("solver returned unknown"),
            };
        }
        self.sat(s, cond)
    }

    // ---------------------------------------------------------------- main loop

    fn step(&mut self, s: &mut State) -> R<()> {
        let fr = s.frames.last().unwrap();
        let func = fr.func.clone();
        let blk = &func.blocks[fr.block as usize];
        let inst = match blk.insts.get(fr.ip as usize) {
            Some(i) => i,
            None => return err("fell off block"),
        };
        s.steps += 1;
        match inst {
            Inst::Bin { op, ty, a, b, d } => {
                let (mut x, mut y) = (self.op(s, a), self.op(s, b));
                if matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem) {
                    let w = self.bits(*ty);
                    if let S(_) = x {
                        x = C(self.conc_float(s, &x, w, true)?);
                    }
                    if let S(_) = y {
                        y = C(self.conc_float(s, &y, w, true)?);
                    }
                }
                if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                    if let S(e) = &y {
                        let z = from_e(eq(*e, k(0, width(*e))));
                        if self.decide(s, &z)? {
                            return Err(Halt::Violation("ub".into(), "division by zero".into()));
                        }
                    }
                }
                let op = *op;
                let v = if let (C(_), C(_)) = (&x, &y) {
                    let w = self.bits(*ty);
                    self.arith(op, w, &x, &y)?
                } else {
                    self.map2(*ty, &x, &y, &mut |e, w, p, q| e.arith(op, w, p, q))?
                };
                self.set(s, *d, v);
            }
            Inst::FNeg { ty, a, d } => {
                let w = self.bits(*ty);
                let x = self.op(s, a);
                let v = self.arith(BinOp::Xor, w, &x, &C(1u128 << (w - 1)))?;
                self.set(s, *d, v);
            }
            Inst::ICmp { p, ty, a, b, d } => {
                let (x, y) = (self.op(s, a), self.op(s, b));
                let p = *p;
                let v = self.map2(*ty, &x, &y, &mut |_, w, p1, q1| Ok(Self::icmp(p, w, p1, q1)))?;
                self.set(s, *d, v);
            }
            Inst::FCmp { p, ty, a, b, d } => {
                let (x, y) = (self.op(s, a), self.op(s, b));
                let w = self.bits(*ty);
                let v = Self::fcmp(p, w, &x, &y)?;
                self.set(s, *d, v);
            }
            Inst::Select { cty: _, c, ty, a, b, d } => {
                let cv = self.op(s, c);
                let (x, y) = (self.op(s, a), self.op(s, b));
                let v = match &cv {
                    C(c) => {
                        if *c & 1 != 0 {
                            x
                        } else {
                            y
                        }
                    }
                    A(cs) => {
                        if let (A(x), A(y)) = (&x, &y) {
                            let t = self.m.types.borrow().elem_ty(*ty, 0);
                            let w = self.bits(t);
                            let mut out = vec![];
                            for i in 0..cs.len() {
                                out.push(match &cs[i] {
                                    C(c) => {
                                        if *c & 1 != 0 {
                                            x[i].clone()
                                        } else {
                                            y[i].clone()
                                        }
                                    }
                                    S(e) => from_e(ite(*e, to_e(&x[i], w), to_e(&y[i], w))),
                                    _ => return err("select lane"),
                                });
                            }
                            A(Rc::new(out))
                        } else {
                            return err("vector select");
                        }
                    }
                    S(e) => {
                        let isptr = matches!(self.m.types.borrow().get(*ty), Ty::Ptr);
                        let agg = matches!(x, A(_)) || matches!(y, A(_));
                        if isptr || agg {
                            if self.decide(s, &cv)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            let w = self.bits(*ty);
                            from_e(ite(*e, to_e(&x, w), to_e(&y, w)))
                        }
                    }
                };
                self.set(s, *d, v);
            }
            Inst::Cast { op, from, to, a, d } => {
                let x = self.op(s, a);
                let v = match op {
                    Cast::Bit => {
                        let (_, fl) = self.flatten(*from, &x)?;
                        self.unflatten(*to, &fl)?
                    }
                    _ => {
                        if let A(xs) = &x {
                            let (ft, tt) = {
                                let t = self.m.types.borrow();
                                (t.bits(t.elem_ty(*from, 0)), t.bits(t.elem_ty(*to, 0)))
                            };
                            let mut out = vec![];
                            for x in xs.iter() {
                                out.push(self.cast1(*op, ft, tt, x)?);
                            }
                            A(Rc::new(out))
                        } else {
                            let (wf, wt) = (self.bits(*from), self.bits(*to));
                            let x = match op {
                                Cast::ZExt | Cast::SExt | Cast::Trunc => x,
                                _ => C(self.conc_float(s, &x, wf, !matches!(op, Cast::UiToFp | Cast::SiToFp))?),
                            };
                            self.cast1(*op, wf, wt, &x)?
                        }
                    }
                };
                self.set(s, *d, v);
            }
            Inst::Load { ty, p, d } => {
                let pv = self.op(s, p);
                if let S(e) = &pv {
                    if let Some(v) = self.table_load(s, *e, *ty)? {
                        self.set(s, *d, v);
                        self.advance(s);
                        return Ok(());
                    }
                }
                let addr = self.conc(s, &pv, 64)? as u64;
                let v = self.load(s, addr, *ty)?;
                self.set(s, *d, v);
            }
            Inst::Store { ty, v, p } => {
                let pv = self.op(s, p);
                let addr = self.conc(s, &pv, 64)? as u64;
                let v = self.op(s, v);
                self.store(s, addr, *ty, &v)?;
            }
            Inst::Gep { base, off, idx, d } => {
                let b = self.op(s, base);
                let mut v = match b {
                    C(c) => C((c as u64).wrapping_add(*off) as u128),
                    S(e) => from_e(bin(Op::Add, e, k(*off as u128, 64))),
                    A(_) => return err("gep on vector"),
                };
                for (o, w, scale) in idx {
                    let i = self.op(s, o);
                    v = match (&v, &i) {
                        (C(b), C(i)) => C((*b as u64).wrapping_add((sext64(*i, *w) as u64).wrapping_mul(*scale)) as u128),
                        _ => {
                            let ie = sext_e(to_e(&i, *w), 64);
                            let m = bin(Op::Mul, ie, k(*scale as u128, 64));
                            from_e(bin(Op::Add, to_e(&v, 64), m))
                        }
                    };
                }
                self.set(s, *d, v);
            }
            Inst::Alloca { size, n, d } => {
                let nv = self.op(s, n);
                let n = self.conc(s, &nv, 64)? as u64;
                let a = self.alloc_stack(s, size * n);
                self.set(s, *d, C(a as u128));
            }
            Inst::Call { f, ret, args, d, next } => {
                let fix = match f {
                    Callee::Func(i) => *i,
                    Callee::Ptr(o) => {
                        let p = self.op(s, o);
                        let p = self.conc(s, &p, 64)? as u64;
                        match self.m.func_at(p) {
                            Some(i) => i,
                            None => return Err(Halt::Violation("memory".into(), format!("call of non-function {:#x}", p))),
                        }
                    }
                    Callee::Asm(t) => {
                        if t.is_empty() || t.contains("cpuid") {
                            // compiler barrier / cpuid: zero results
                            let z = self.zero_val(*ret);
                            // black_box-style asm returning its input
                            self.set(s, *d, z);
                            match next {
                                Some(b) => return self.goto(s, *b),
                                None => {
                                    self.advance(s);
                                    return Ok(());
                                }
                            }
                        }
                        return err(format!("inline asm {}", t));
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (t, o) in args {
                    av.push((*t, self.op(s, o)));
                }
                return self.call(s, fix, av, *ret, *d, *next);
            }
            Inst::Extract { ty: _, a, path, d } => {
                let mut v = self.op(s, a);
                for p in path {
                    v = match v {
                        A(es) => es[*p as usize].clone(),
                        _ => return err("extractvalue of scalar"),
                    };
                }
                self.set(s, *d, v);
            }
            Inst::Insert { ty: _, a, v, path, d } => {
                let agg = self.op(s, a);
                let v = self.op(s, v);
                fn ins(a: &Val, path: &[u32], v: Val) -> Option<Val> {
                    if path.is_empty() {
                        return Some(v);
                    }
                    match a {
                        A(es) => {
                            let mut n = (**es).clone();
                            n[path[0] as usize] = ins(&es[path[0] as usize], &path[1..], v)?;
                            Some(A(Rc::new(n)))
                        }
                        _ => None,
                    }
                }
                match ins(&agg, path, v) {
                    Some(r) => self.set(s, *d, r),
                    None => return err("insertvalue"),
                }
            }
            Inst::ExtElem { ty: _, a, i, d } => {
                let i = self.op(s, i);
                let i = self.conc(s, &i, 64)? as usize;
                let v = match self.op(s, a) {
                    A(es) => es[i].clone(),
                    _ => return err("extractelement"),
                };
                self.set(s, *d, v);
            }
            Inst::InsElem { ty: _, a, v, i, d } => {
                let i = self.op(s, i);
                let i = self.conc(s, &i, 64)? as usize;
                let v = self.op(s, v);
                match self.op(s, a) {
                    A(es) => {
                        let mut n = (*es).clone();
                        n[i] = v;
                        self.set(s, *d, A(Rc::new(n)));
                    }
                    _ => return err("insertelement"),
                }
            }
            Inst::Shuffle { ty: _, a, b, mask, d } => {
                let (x, y) = (self.op(s, a), self.op(s, b));
                if let (A(x), A(y)) = (x, y) {
                    let mut out = vec![];
                    for m in mask {
                        let m = *m;
                        out.push(if m < 0 {
                            C(0)
                        } else if (m as usize) < x.len() {
                            x[m as usize].clone()
                        } else {
                            y[m as usize - x.len()].clone()
                        });
                    }
                    self.set(s, *d, A(Rc::new(out)));
                } else {
                    return err("shuffle");
                }
            }
            Inst::Freeze { a, d } => {
                let v = self.op(s, a);
                self.set(s, *d, v);
            }
            Inst::Ret { v } => {
                let v = v.as_ref().map(|o| self.op(s, o));
                return self.ret(s, v);
            }
            Inst::Br { t } => return self.goto(s, *t),
            Inst::CondBr { c, t, e } => {
                let v = self.op(s, c);
                let dir = self.decide(s, &v)?;
                return self.goto(s, if dir { *t } else { *e });
            }
            Inst::Switch { w, v, def, cases } => {
                let x = self.op(s, v);
                match &x {
                    C(c) => {
                        let t = cases.iter().find(|(k, _)| k == c).map(|x| x.1).unwrap_or(*def);
                        return self.goto(s, t);
                    }
                    S(e) => {
                        // group by target
                        let mut targets: Vec<u32> = vec![];
                        for (_, t) in cases {
                            if !targets.contains(t) {
                                targets.push(*t);
                            }
                        }
                        for t in targets {
                            if t == *def {
                                continue;
                            }
                            let mut c = k(0, 1);
                            for (v, tt) in cases {
                                if *tt == t {
                                    c = bin(Op::Or, c, eq(*e, k(*v, *w)));
                                }
                            }
                            if self.decide(s, &from_e(c))? {
                                return self.goto(s, t);
                            }
                        }
                        return self.goto(s, *def);
                    }
                    A(_) => return err("switch"),
                }
            }
            Inst::Unreachable => {
                return Err(Halt::Violation("ub".into(), "reached unreachable".into()));
            }
            Inst::Rmw { op, ty, p, v, d } => {
                let pv = self.op(s, p);
                let addr = self.conc(s, &pv, 64)? as u64;
                let old = self.load(s, addr, *ty)?;
                let v = self.op(s, v);
                let w = self.bits(*ty);
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.arith(BinOp::Add, w, &old, &v)?,
                    "sub" => self.arith(BinOp::Sub, w, &old, &v)?,
                    "and" => self.arith(BinOp::And, w, &old, &v)?,
                    "or" => self.arith(BinOp::Or, w, &old, &v)?,
                    "xor" => self.arith(BinOp::Xor, w, &old, &v)?,
                    "umax" => self.intr2(Ix::Umax, w, &old, &v)?,
                    "umin" => self.intr2(Ix::Umin, w, &old, &v)?,
                    o => return err(format!("atomicrmw {}", o)),
                };
                self.store(s, addr, *ty, &new)?;
                self.set(s, *d, old);
            }
            Inst::CmpXchg { ty, p, a, b, d } => {
                let pv = self.op(s, p);
                let addr = self.conc(s, &pv, 64)? as u64;
                let old = self.load(s, addr, *ty)?;
                let (x, y) = (self.op(s, a), self.op(s, b));
                let w = self.bits(*ty);
                let c = Self::icmp(Pred::Eq, w, &old, &x);
                let ok = self.decide(s, &c)?;
                if ok {
                    self.store(s, addr, *ty, &y)?;
                }
                self.set(s, *d, A(Rc::new(vec![old, C(ok as u128)])));
            }
            Inst::Nop => {}
            Inst::Unsupported(u) => return err(format!("unsupported: {}", u)),
        }
        self.advance(s);
        Ok(())
    }

    fn zero_val(&self, t: TyId) -> Val {
        let ts = self.m.types.borrow();
        if *ts.get(t) == Ty::Void {
            return C(0);
        }
        if ts.is_agg(t) {
            let n = ts.count(t);
            let tys: Vec<TyId> = (0..n).map(|i| ts.elem_ty(t, i)).collect();
            drop(ts);
            return A(Rc::new(tys.into_iter().map(|t| self.zero_val(t)).collect()));
        }
        C(0)
    }

    /// Run one state to completion.
    pub fn run(&mut self, mut s: State, poll: &mut dyn FnMut(&mut Self)) {
        let mut cnt = 0u64;
        let start = s.steps;
        loop {
            let before = s.steps;
            let r = self.step(&mut s);
            let _ = before;
            cnt += 1;
            if cnt & 0xfff == 0 {
                poll(self);
                if self.paused {
                    // Deadline reached, or this process is a fresh split whose parent owns the path.
                    return;
                }
            }
            let halt = match r {
                Ok(()) => {
                    if s.steps > self.lim.max_steps {
                        Halt::Violation("hang".into(), format!("more than {} instructions", self.lim.max_steps))
                    } else {
                        continue;
                    }
                }
                Err(h) => h,
            };
            self.st.steps += s.steps - start;
            self.st.max_path_steps = self.st.max_path_steps.max(s.steps);
            self.st.max_depth = self.st.max_depth.max(s.depth as u64);
            self.st.max_sym = self.st.max_sym.max(s.nsym);
            match halt {
                Halt::Done => {
                    self.st.paths += 1;
                    // self-check: the path's model satisfies its path condition
                    let mut ev = Eval::new(&s.model);
                    if s.pc.iter().any(|&c| ev.ev(c) == 0) {
                        self.st.errors.push("internal: model violates path condition".into());
                    }
                    // reservoir sample for native cross-validation
                    let smp = {
                        let em: Vec<u128> = s
                            .emits
                            .iter()
                            .map(|v| match v {
                                C(c) => *c,
                                S(e) => ev.ev(*e),
                                A(_) => 0,
                            })
                            .collect();
                        (s.model[..s.nsym as usize].to_vec(), em)
                    };
                    if self.st.samples.len() < self.lim.max_samples {
                        self.st.samples.push(smp);
                    } else {
                        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        let j = (self.seed >> 33) % self.st.paths;
                        if (j as usize) < self.lim.max_samples {
                            self.st.samples[j as usize] = smp;
                        }
                    }
                }
                Halt::Infeasible => self.st.infeasible += 1,
                Halt::Violation(kind, msg) => {
                    self.st.paths += 1;
                    let m = s.model[..s.nsym as usize].to_vec();
                    let st = self.trace_stack(&s);
                    if self.st.violations.len() < self.lim.max_violations {
                        self.st.violations.push((kind, format!("{} @ {}", msg, st), m, s.nsym as u64));
                    }
                }
                Halt::Error(e) => {
                    let st = self.trace_stack(&s);
                    if self.st.unsupported.len() < 20 {
                        let m = s.model[..s.nsym as usize].to_vec();
                        self.st.unsupported.push((format!("{} @ {}", e, st), m));
                    }
                }
            }
            return;
        }
    }
}

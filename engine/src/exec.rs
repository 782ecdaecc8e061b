//! Symbolic execution of LLVM IR with state merging.
use crate::ir::*;
use crate::solver::*;
use crate::sweep;
use crate::sat::{Ans, Blaster};
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub const UNDEF: T = u32::MAX;
const STACK_BASE: u64 = 1 << 20;
const HEAP_BASE: u64 = 1 << 24;

#[derive(Clone, Debug)]
pub enum Val {
    Undef,
    Bv(T),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cell {
    pub t: T,
    pub i: u8,
}
const UCELL: Cell = Cell { t: UNDEF, i: 0 };

#[derive(Clone)]
pub struct Obj {
    pub cells: Vec<Cell>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub gid: u32,
    pub block: u32,
    pub idx: u32,
    pub regs: Vec<Val>,
    pub iters: Vec<u32>,
    pub nalloca: u32,
}

pub struct Model {
    pub vals: Vec<u128>,
    memo: RefCell<FxMap<T, u128>>,
}
impl Model {
    pub fn new(vals: Vec<u128>) -> Model {
        Model { vals, memo: RefCell::new(FxMap::default()) }
    }
    pub fn eval(&self, tm: &Terms, t: T) -> u128 {
        if let Some(c) = tm.as_const(t) {
            return c;
        }
        let mut memo = self.memo.borrow_mut();
        if let Some(&v) = memo.get(&t) {
            return v;
        }
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let k = &tm.n[x as usize].k;
            // lazy children for ite / lookup
            let mut ready = true;
            match k.op {
                Op::Ite => {
                    let c = k.args[0];
                    match get(tm, &memo, c) {
                        None => {
                            st.push(c);
                            ready = false;
                        }
                        Some(v) => {
                            let b = if v == 1 { k.args[1] } else { k.args[2] };
                            match get(tm, &memo, b) {
                                None => {
                                    st.push(b);
                                    ready = false;
                                }
                                Some(v) => {
                                    memo.insert(x, v);
                                    st.pop();
                                    continue;
                                }
                            }
                        }
                    }
                }
                Op::Lookup => {
                    let c = k.args[0];
                    match get(tm, &memo, c) {
                        None => {
                            st.push(c);
                            ready = false;
                        }
                        Some(v) => {
                            let tab = &tm.tables[k.aux as usize];
                            let i = v.min(tab.len() as u128 - 1) as usize;
                            match get(tm, &memo, tab[i]) {
                                None => {
                                    st.push(tab[i]);
                                    ready = false;
                                }
                                Some(v) => {
                                    memo.insert(x, v);
                                    st.pop();
                                    continue;
                                }
                            }
                        }
                    }
                }
                _ => {
                    for &c in k.args.iter() {
                        if get(tm, &memo, c).is_none() {
                            st.push(c);
                            ready = false;
                        }
                    }
                }
            }
            if !ready {
                continue;
            }
            let v = tm.eval_node(x, &|c| get(tm, &memo, c).unwrap(), &|i| self.vals.get(i as usize).cloned().unwrap_or(0));
            memo.insert(x, v);
            st.pop();
        }
        memo[&t]
    }
}
fn get(tm: &Terms, memo: &FxMap<T, u128>, t: T) -> Option<u128> {
    if let Some(c) = tm.as_const(t) {
        return Some(c);
    }
    memo.get(&t).cloned()
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub pc: Vec<T>,
    pub heap: u64,
    pub nsym: u32,
    pub panic_ok: T,
    pub models: Vec<Rc<Model>>,
    pub nomerge: u8,
    pub tags: Vec<u64>,
    pub out: Vec<Cell>,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: String,
    pub id: i64,
    pub model: Vec<u8>,
}

#[derive(Default)]
pub struct Stats {
    pub insts: u64,
    pub forks: u64,
    pub merges: u64,
    pub paths: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub feas: u64,
    pub max_states: usize,
    pub sweep_merges: u64,
    pub final_queries: u64,
    pub canon_fail: u64,
}

pub struct Cfg {
    pub deadline: Instant,
    pub feas_timeout: Duration,
    pub prove_timeout: Duration,
    pub concrete: Option<Vec<u8>>,
    pub verbose: u32,
    pub force_join: Option<u8>,
}

pub struct Engine {
    pub m: Module,
    pub tm: Terms,
    pub solver: Solver,
    pub cfg: Cfg,
    pub work: BTreeMap<Vec<u32>, Vec<State>>,
    pub nwork: usize,
    quots: HashMap<T, (T, T)>,
    prods: HashMap<T, (T, T)>,
    live_memo: HashMap<(u32, u32, u32, bool), Rc<Vec<u64>>>,
    heap_memo: Vec<u8>,
    pub inc_ok: bool,
    pub asked_join: u8,
    pub blaster: Blaster,
    pub sat_time: Duration,
    pub sat_queries: u64,
    pub sat_unsat: u64,
    pub sat_cross: u64,
    gobjs: HashMap<u64, Rc<Obj>>,
    pub stats: Stats,
    pub executed: BTreeSet<u32>,
    pub violation: Option<Violation>,
    pub inconclusive: Vec<String>,
    pub reached: BTreeMap<i64, u64>,
    pub checked_ids: BTreeMap<i64, u64>,
    pub outputs: Vec<Vec<u8>>,
    pub panics: BTreeMap<String, u64>,
    pub stubs: BTreeSet<String>,
    pub max_nsym: u32,
    intr: HashMap<u32, Intr>,
    pub sweeper: sweep::Sweeper,
    pub rng: u64,
    pub prof: HashMap<(u32, u32), u64>,
}

#[derive(Clone, Debug)]
enum Intr {
    Nop,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    LifeStart,
    LifeEnd,
    FormatInner,
    IntFmt,
    UMax,
    UMin,
    SMax,
    SMin,
    UsubSat,
    UaddSat,
    Abs,
    Bswap,
    Bitrev,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    AddOv(bool),
    SubOv(bool),
    MulOv(bool),
    Ucmp,
    Scmp,
    IsConst,
    TlAddr,
    Expect,
    LoadRel,
    SymBytes,
    SymAssume,
    SymCheck,
    SymCheckEq,
    SymPanicOk,
    SymReach,
    SymNoMerge,
    SymSplit,
    SymConcretize,
    SymOut,
    Trap,
    None,
}

enum Step {
    Continue,
    Point,
    Done,
}

type Er = Result<(), String>;

impl Engine {
    pub fn new(m: Module, cfg: Cfg, solver: Solver) -> Engine {
        Engine {
            quots: HashMap::new(),
            prods: HashMap::new(),
            m,
            tm: Terms::new(),
            solver,
            cfg,
            work: BTreeMap::new(),
            nwork: 0,
            gobjs: HashMap::new(),
            live_memo: HashMap::new(),
            heap_memo: vec![],
            asked_join: 0,
            blaster: Blaster::new(),
            sat_time: Duration::ZERO,
            sat_queries: 0,
            sat_unsat: 0,
            sat_cross: 0,
            inc_ok: std::env::var("SYMIR_NOINC").is_err(),
            stats: Stats::default(),
            executed: BTreeSet::new(),
            violation: None,
            inconclusive: vec![],
            reached: BTreeMap::new(),
            checked_ids: BTreeMap::new(),
            outputs: vec![],
            panics: BTreeMap::new(),
            stubs: BTreeSet::new(),
            max_nsym: 0,
            intr: HashMap::new(),
            sweeper: sweep::Sweeper::new(),
            rng: 0x9e3779b97f4a7c15,
            prof: HashMap::new(),
        }
    }
    fn classify(&self, g: u32) -> Intr {
        let n = &self.m.globals[g as usize].name;
        let n: &str = n;
        match n {
            "malloc" => return Intr::Malloc,
            "calloc" => return Intr::Calloc,
            "realloc" => return Intr::Realloc,
            "free" => return Intr::Free,
            "posix_memalign" => return Intr::Memalign,
            "memcpy" | "memmove" => return Intr::Memcpy,
            "memset" => return Intr::Memset,
            "bcmp" => return Intr::Bcmp,
            "memcmp" => return Intr::Memcmp,
            "strlen" => return Intr::Strlen,
            "sym_bytes" => return Intr::SymBytes,
            "sym_assume" => return Intr::SymAssume,
            "sym_check" => return Intr::SymCheck,
            "sym_check_eq" => return Intr::SymCheckEq,
            "sym_panic_ok" => return Intr::SymPanicOk,
            "sym_reach" => return Intr::SymReach,
            "sym_nomerge" => return Intr::SymNoMerge,
            "sym_split" => return Intr::SymSplit,
            "sym_concretize" => return Intr::SymConcretize,
            "sym_out" => return Intr::SymOut,
            _ => {}
        }
        if let Some(r) = n.strip_prefix("llvm.") {
            for (p, i) in [
                ("memcpy.", Intr::Memcpy),
                ("memmove.", Intr::Memcpy),
                ("memset.", Intr::Memset),
                ("lifetime.start", Intr::LifeStart),
                ("lifetime.end", Intr::LifeEnd),
                ("umax.", Intr::UMax),
                ("umin.", Intr::UMin),
                ("smax.", Intr::SMax),
                ("smin.", Intr::SMin),
                ("usub.sat.", Intr::UsubSat),
                ("uadd.sat.", Intr::UaddSat),
                ("abs.", Intr::Abs),
                ("bswap.", Intr::Bswap),
                ("bitreverse.", Intr::Bitrev),
                ("ctlz.", Intr::Ctlz),
                ("cttz.", Intr::Cttz),
                ("ctpop.", Intr::Ctpop),
                ("fshl.", Intr::Fshl),
                ("fshr.", Intr::Fshr),
                ("uadd.with", Intr::AddOv(false)),
                ("sadd.with", Intr::AddOv(true)),
                ("usub.with", Intr::SubOv(false)),
                ("ssub.with", Intr::SubOv(true)),
                ("umul.with", Intr::MulOv(false)),
                ("smul.with", Intr::MulOv(true)),
                ("ucmp.", Intr::Ucmp),
                ("scmp.", Intr::Scmp),
                ("is.constant", Intr::IsConst),
                ("threadlocal.address", Intr::TlAddr),
                ("expect", Intr::Expect),
                ("load.relative", Intr::LoadRel),
                ("trap", Intr::Trap),
                ("assume", Intr::Nop),
                ("experimental.noalias", Intr::Nop),
                ("dbg.", Intr::Nop),
                ("donothing", Intr::Nop),
                ("prefetch", Intr::Nop),
                ("x86.sse2.pause", Intr::Nop),
                ("invariant", Intr::Nop),
            ] {
                if r.starts_with(p) {
                    return i;
                }
            }
        }
        if n.contains("5alloc3fmt6format12format_inner") {
            return Intr::FormatInner;
        }
        if n.contains("3fmt") && n.contains("4core") && (n.contains("7Display3fmt") || n.contains("5Debug3fmt") || n.contains("8LowerHex3fmt")) && (n.contains("3num") || n.contains("3imp")) {
            return Intr::IntFmt;
        }
        Intr::None
    }

    // ---- values ---------------------------------------------------------------------
    fn cv(&mut self, c: &CVal, ty: &Ty) -> Val {
        match (c, ty) {
            (CVal::Int(w, v), _) => Val::Bv(self.tm.c(*w, *v)),
            (CVal::Addr(a), _) => Val::Bv(self.tm.c(64, *a as u128)),
            (CVal::Undef, Ty::Struct(..)) | (CVal::Undef, Ty::Arr(..)) | (CVal::Undef, Ty::Vec(..)) => self.zero_like(ty, true),
            (CVal::Undef, _) => Val::Undef,
            (CVal::Zero, _) => self.zero_like(ty, false),
            (CVal::Agg(v), _) => {
                let mut o = vec![];
                for (t, c) in v.iter() {
                    o.push(self.cv(c, t));
                }
                Val::Agg(Rc::new(o))
            }
            (CVal::Bytes(b), _) => {
                let mut o = vec![];
                for x in b.iter() {
                    o.push(Val::Bv(self.tm.c(8, *x as u128)));
                }
                Val::Agg(Rc::new(o))
            }
        }
    }
    fn zero_like(&mut self, ty: &Ty, undef: bool) -> Val {
        match ty {
            Ty::Int(w) => {
                if undef {
                    Val::Undef
                } else {
                    Val::Bv(self.tm.c(*w, 0))
                }
            }
            Ty::Ptr => {
                if undef {
                    Val::Undef
                } else {
                    Val::Bv(self.tm.c(64, 0))
                }
            }
            Ty::Struct(f, _) => {
                let mut o = vec![];
                for t in f {
                    o.push(self.zero_like(t, undef));
                }
                Val::Agg(Rc::new(o))
            }
            Ty::Arr(t, n) => {
                let mut o = vec![];
                for _ in 0..*n {
                    o.push(self.zero_like(t, undef));
                }
                Val::Agg(Rc::new(o))
            }
            Ty::Vec(t, n) => {
                let mut o = vec![];
                for _ in 0..*n {
                    o.push(self.zero_like(t, undef));
                }
                Val::Agg(Rc::new(o))
            }
            _ => Val::Undef,
        }
    }
    #[inline]
    fn ev(&mut self, fr: &Frame, o: &Opnd, ty: &Ty) -> Val {
        match o {
            Opnd::Reg(r) => fr.regs[*r as usize].clone(),
            Opnd::C(c) => self.cv(c, ty),
        }
    }
    fn width(ty: &Ty) -> u16 {
        match ty {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 64,
        }
    }
    #[inline]
    fn evt(&mut self, fr: &Frame, o: &Opnd, ty: &Ty) -> T {
        match self.ev(fr, o, ty) {
            Val::Bv(t) => t,
            Val::Undef => {
                let w = Self::width(ty);
                self.tm.c(w, 0)
            }
            Val::Agg(_) => panic!("aggregate where scalar expected"),
        }
    }
    fn as_t(&mut self, v: &Val, w: u16) -> T {
        match v {
            Val::Bv(t) => *t,
            Val::Undef => self.tm.c(w, 0),
            Val::Agg(_) => panic!("aggregate where scalar expected"),
        }
    }

    // ---- memory -----------------------------------------------------------------------
    fn gobj(&mut self, slot: u64) -> Option<Rc<Obj>> {
        if let Some(o) = self.gobjs.get(&slot) {
            return Some(o.clone());
        }
        let g = self.m.global_at(slot * SLOT)?;
        if let GKind::Func { .. } = self.m.globals[g as usize].kind {
            return None;
        }
        let (bytes, _) = self.m.global_init(g);
        let mut cells = Vec::with_capacity(bytes.len());
        for b in bytes {
            cells.push(match b {
                None => UCELL,
                Some(v) => Cell { t: self.tm.c(8, v as u128), i: 0 },
            });
        }
        let o = Rc::new(Obj { cells });
        self.gobjs.insert(slot, o.clone());
        Some(o)
    }
    fn obj(&mut self, st: &State, slot: u64) -> Option<Rc<Obj>> {
        if let Some(o) = st.mem.get(&slot) {
            return Some(o.clone());
        }
        if slot < STACK_BASE {
            return self.gobj(slot);
        }
        None
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, slot: u64) -> Result<&'a mut Obj, String> {
        if !st.mem.contains_key(&slot) {
            if slot < STACK_BASE {
                if let Some(o) = self.gobj(slot) {
                    st.mem.insert(slot, o);
                }
            }
        }
        match st.mem.get_mut(&slot) {
            Some(o) => Ok(Rc::make_mut(o)),
            None => Err(format!("store to unknown object slot {slot:#x}")),
        }
    }
    fn split(addr: u64) -> (u64, i64) {
        (addr / SLOT, (addr % SLOT) as i64 - SLOT_OFF as i64)
    }
    /// assemble n bytes of cells into a term (None: all undefined)
    fn assemble(&mut self, cells: &[Cell]) -> Option<T> {
        let n = cells.len();
        let f = cells[0];
        if f.i == 0 && f.t != UNDEF && self.tm.w(f.t) as usize == 8 * n && cells.iter().enumerate().all(|(j, c)| c.t == f.t && c.i as usize == j) {
            return Some(f.t);
        }
        if cells.iter().all(|c| c.t == UNDEF) {
            return None;
        }
        // runs from the most significant byte down
        let mut parts = vec![];
        let mut j = n;
        while j > 0 {
            j -= 1;
            let c = cells[j];
            if c.t == UNDEF {
                parts.push(self.tm.c(8, 0));
                continue;
            }
            let mut lo = j;
            while lo > 0 && cells[lo - 1].t == c.t && cells[lo].i > 0 && cells[lo - 1].i == cells[lo].i - 1 {
                lo -= 1;
            }
            let hi_bit = (c.i as u16 + 1) * 8 - 1;
            let lo_bit = cells[lo].i as u16 * 8;
            parts.push(self.tm.extract(c.t, hi_bit, lo_bit));
            j = lo;
        }
        Some(self.tm.concat(&parts))
    }
    fn byte(&mut self, c: Cell) -> T {
        if c.t == UNDEF {
            return self.tm.c(8, 0);
        }
        self.tm.extract(c.t, c.i as u16 * 8 + 7, c.i as u16 * 8)
    }
    fn read_const(&mut self, st: &State, addr: u64, n: usize) -> Result<Vec<Cell>, String> {
        let (slot, off) = Self::split(addr);
        match self.obj(st, slot) {
            Some(o) => {
                if off < 0 || off as usize + n > o.cells.len() {
                    // out of range: undefined bytes (merged pointers may be read under infeasible guards)
                    let mut v = Vec::with_capacity(n);
                    for j in 0..n {
                        let p = off + j as i64;
                        v.push(if p >= 0 && (p as usize) < o.cells.len() { o.cells[p as usize] } else { UCELL });
                    }
                    return Ok(v);
                }
                Ok(o.cells[off as usize..off as usize + n].to_vec())
            }
            None => Err(format!("read of unknown address {addr:#x}")),
        }
    }
    /// Break a symbolic address into guarded simpler addresses.
    fn addr_cases(&mut self, t: T, guard: T, out: &mut Vec<(T, T)>) {
        if self.tm.as_const(t).is_some() {
            out.push((guard, t));
            return;
        }
        let k = self.tm.key(t);
        if k.op == Op::Ite {
            let c = k.args[0];
            let nc = self.tm.not(c);
            let g1 = self.tm.and(&[guard, c], 1);
            let g2 = self.tm.and(&[guard, nc], 1);
            if !self.tm.is_false(g1) {
                self.addr_cases(k.args[1], g1, out);
            }
            if !self.tm.is_false(g2) {
                self.addr_cases(k.args[2], g2, out);
            }
            return;
        }
        if k.op == Op::Lin {
            // an ite among the summands that can be a pointer
            for (i, &a) in k.args.iter().enumerate() {
                if self.tm.op(a) == Op::Ite && self.tm.n[a as usize].hi >= SLOT as u128 {
                    let ka = self.tm.key(a);
                    let mut parts: Vec<(T, u128)> = k.args.iter().cloned().zip(k.cs[1..].iter().cloned()).collect();
                    for (b, neg) in [(1usize, false), (2, true)] {
                        parts[i].0 = ka.args[b];
                        let nt = self.tm.lin(64, k.cs[0], &parts);
                        let c = if neg { self.tm.not(ka.args[0]) } else { ka.args[0] };
                        let g = self.tm.and(&[guard, c], 1);
                        if !self.tm.is_false(g) {
                            self.addr_cases(nt, g, out);
                        }
                    }
                    return;
                }
            }
        }
        out.push((guard, t));
    }
    /// candidate concrete addresses of a non-constant, non-ite address: (slot, first offset, stride, count)
    fn addr_range(&mut self, st: &State, guard: T, t: T, n: usize) -> Result<(u64, i64, u64, usize, T), String> {
        let k = self.tm.key(t);
        let c0 = if k.op == Op::Lin { k.cs[0] as u64 } else { 0 };
        let (lo, hi) = (self.tm.n[t as usize].lo, self.tm.n[t as usize].hi);
        let mut slot = c0 / SLOT;
        if slot == 0 {
            slot = lo as u64 / SLOT;
        }
        let o = match self.obj(st, slot) {
            Some(o) => o,
            None => return Err(format!("symbolic address with unknown base (slot {slot:#x}): {}", self.show(t, 4))),
        };
        let size = o.cells.len() as i64;
        let base = slot_addr(slot);
        let maxoff = size - n as i64;
        if maxoff < 0 {
            return Err("symbolic access larger than object".into());
        }
        let (first, last) = (base as u128, base as u128 + maxoff as u128);
        let (mut a, mut b) = (lo.max(first), hi.min(last));
        if lo < first || hi > last {
            // must be implied by the path condition
            let cf = self.tm.c(64, first);
            let cl = self.tm.c(64, last);
            let g1 = self.tm.ule(cf, t);
            let g2 = self.tm.ule(t, cl);
            let ok = self.tm.and(&[g1, g2], 1);
            let bad = self.tm.not(ok);
            let gb = self.tm.and(&[bad, guard], 1);
            let (f, _) = self.feasible(st, gb)?;
            if f {
                return Err(format!("symbolic address may leave its object (size {size}): {}", self.show(t, 5)));
            }
            a = first;
            b = last;
        }
        // stride from known low bits of t - base
        let off = self.tm.addc(t, (base as u128).wrapping_neg());
        let tz = (!self.tm.n[off as usize].k0).trailing_zeros().min(6);
        let stride = 1u64 << tz;
        let fo = ((a - base as u128) as u64 + stride - 1) / stride * stride;
        let lo_ = (b - base as u128) as u64 / stride * stride;
        let count = ((lo_ - fo) / stride + 1) as usize;
        if count > 20000 {
            return Err(format!("symbolic address with {count} candidates"));
        }
        Ok((slot, fo as i64, stride, count, off))
    }
    fn load_cells(&mut self, st: &State, t: T, n: usize) -> Result<Vec<Cell>, String> {
        if let Some(a) = self.tm.as_const(t) {
            return self.read_const(st, a as u64, n);
        }
        let one = self.tm.c(1, 1);
        let mut cases = vec![];
        self.addr_cases(t, one, &mut cases);
        // unreachable garbage addresses (dangling, null) are skipped
        let mut res: Option<Vec<Cell>> = None;
        // group equal addresses
        let mut grouped: Vec<(T, T)> = vec![];
        for (g, a) in cases {
            if let Some(x) = grouped.iter_mut().find(|x| x.1 == a) {
                x.0 = self.tm.or(&[x.0, g], 0);
            } else {
                grouped.push((g, a));
            }
        }
        let single = grouped.len() == 1;
        for (g, a) in grouped {
            let cells = if let Some(c) = self.tm.as_const(a) {
                match self.read_const(st, c as u64, n) {
                    Ok(v) => v,
                    Err(e) => {
                        if single {
                            return Err(e);
                        }
                        continue;
                    }
                }
            } else {
                match self.load_table(st, g, a, n) {
                    Ok(v) => v,
                    Err(e) => {
                        let (f, _) = self.feasible(st, g)?;
                        if f {
                            return Err(e);
                        }
                        continue;
                    }
                }
            };
            res = Some(match res {
                None => cells,
                Some(r) => self.merge_cells(g, &cells, &r),
            });
        }
        res.ok_or_else(|| format!("read through unresolvable address {}", self.show(t, 4)))
    }
    fn load_table(&mut self, st: &State, guard: T, t: T, n: usize) -> Result<Vec<Cell>, String> {
        let (slot, fo, stride, count, off) = self.addr_range(st, guard, t, n)?;
        let o = self.obj(st, slot).unwrap();
        let mut ents = Vec::with_capacity(count);
        let mut alldef = false;
        for i in 0..count {
            let p = fo as usize + i * stride as usize;
            let v = match self.assemble(&o.cells[p..p + n]) {
                Some(v) => {
                    alldef = true;
                    v
                }
                None => self.tm.c(8 * n as u16, 0),
            };
            ents.push(v);
        }
        if !alldef {
            return Ok(vec![UCELL; n]);
        }
        let idx = self.index_term(off, fo, stride, count);
        let v = self.tm.lookup(idx, ents);
        Ok((0..n).map(|i| Cell { t: v, i: i as u8 }).collect())
    }
    fn index_term(&mut self, off: T, fo: i64, stride: u64, count: usize) -> T {
        let tz = stride.trailing_zeros() as u16;
        let sh = self.tm.addc(off, (fo as u128).wrapping_neg());
        let idx = self.tm.lshrc(sh, tz);
        let need = (64 - (count as u64 - 1).leading_zeros() as u16).max(1);
        self.tm.extract(idx, need - 1, 0)
    }
    fn store_cells(&mut self, st: &mut State, t: T, cells: &[Cell]) -> Er {
        let one = self.tm.c(1, 1);
        self.store_cells_if(st, t, cells, one)
    }
    fn store_cells_if(&mut self, st: &mut State, t: T, cells: &[Cell], one: T) -> Er {
        let n = cells.len();
        if n == 0 || self.tm.is_false(one) {
            return Ok(());
        }
        if let (Some(a), true) = (self.tm.as_const(t), self.tm.is_true(one)) {
            let (slot, off) = Self::split(a as u64);
            let o = self.obj_mut(st, slot)?;
            if off < 0 || off as usize + n > o.cells.len() {
                return Err(format!("store out of object: slot {slot:#x} off {off} n {n} size {}", o.cells.len()));
            }
            o.cells[off as usize..off as usize + n].copy_from_slice(cells);
            return Ok(());
        }
        let mut cases = vec![];
        self.addr_cases(t, one, &mut cases);
        let mut grouped: Vec<(T, T)> = vec![];
        for (g, a) in cases {
            if let Some(x) = grouped.iter_mut().find(|x| x.1 == a) {
                x.0 = self.tm.or(&[x.0, g], 0);
            } else {
                grouped.push((g, a));
            }
        }
        for (g, a) in grouped {
            if let Some(c) = self.tm.as_const(a) {
                let (slot, off) = Self::split(c as u64);
                let old = self.obj(st, slot);
                let ok = match &old {
                    Some(o) => off >= 0 && off as usize + n <= o.cells.len(),
                    None => false,
                };
                if !ok {
                    let (f, _) = self.feasible(st, g)?;
                    if f {
                        return Err(format!("guarded store to bad address {c:#x}"));
                    }
                    continue;
                }
                let old = old.unwrap().cells[off as usize..off as usize + n].to_vec();
                let new = self.merge_cells(g, cells, &old);
                let o = self.obj_mut(st, slot)?;
                o.cells[off as usize..off as usize + n].copy_from_slice(&new);
            } else {
                let (slot, fo, stride, count, off) = self.addr_range(st, g, a, n)?;
                if stride < n as u64 && count > 1 && n > 1 {
                    // possibly overlapping candidates: go byte by byte
                    for j in 0..n {
                        let aj = self.tm.addc(a, j as u128);
                        let (slot, fo, stride, count, off) = self.addr_range(st, g, aj, 1)?;
                        self.store_table(st, g, slot, fo, stride, count, off, &cells[j..j + 1])?;
                    }
                } else {
                    self.store_table(st, g, slot, fo, stride, count, off, cells)?;
                }
            }
        }
        Ok(())
    }
    fn store_table(&mut self, st: &mut State, g: T, slot: u64, fo: i64, stride: u64, count: usize, off: T, cells: &[Cell]) -> Er {
        let n = cells.len();
        let idx = self.index_term(off, fo, stride, count);
        let iw = self.tm.w(idx);
        for i in 0..count {
            let ci = self.tm.c(iw, i as u128);
            let e = self.tm.eq(idx, ci);
            let c = self.tm.and(&[e, g], 1);
            if self.tm.is_false(c) {
                continue;
            }
            let p = fo as usize + i * stride as usize;
            let old = self.obj(st, slot).unwrap().cells[p..p + n].to_vec();
            let new = self.merge_cells(c, cells, &old);
            let o = self.obj_mut(st, slot)?;
            o.cells[p..p + n].copy_from_slice(&new);
        }
        Ok(())
    }
    /// cellwise ite(c, a, b), keeping whole words whole; undefined bytes take the other side
    fn merge_cells(&mut self, c: T, a: &[Cell], b: &[Cell]) -> Vec<Cell> {
        let n = a.len();
        let mut out = Vec::with_capacity(n);
        let mut i = 0;
        if self.tm.is_true(c) {
            return a.to_vec();
        }
        while i < n {
            if a[i] == b[i] || b[i].t == UNDEF {
                out.push(a[i]);
                i += 1;
                continue;
            }
            if a[i].t == UNDEF {
                out.push(b[i]);
                i += 1;
                continue;
            }
            let ra = self.whole(a, i);
            let rb = self.whole(b, i);
            let mut len = ra.max(rb).max(1);
            if i + len > n {
                len = 1;
            }
            // avoid swallowing undefined bytes
            if a[i..i + len].iter().any(|x| x.t == UNDEF) || b[i..i + len].iter().any(|x| x.t == UNDEF) {
                len = 1;
            }
            let ta = self.assemble(&a[i..i + len]).unwrap();
            let tb = self.assemble(&b[i..i + len]).unwrap();
            let t = self.tm.ite(c, ta, tb);
            for j in 0..len {
                out.push(Cell { t, i: j as u8 });
            }
            i += len;
        }
        out
    }
    /// length of the complete word starting at cell i (0 if none)
    fn whole(&self, a: &[Cell], i: usize) -> usize {
        let c = a[i];
        if c.t == UNDEF || c.i != 0 {
            return 0;
        }
        let len = self.tm.w(c.t) as usize / 8;
        if i + len > a.len() {
            return 0;
        }
        for j in 0..len {
            if a[i + j].t != c.t || a[i + j].i as usize != j {
                return 0;
            }
        }
        len
    }

    fn load(&mut self, st: &State, ty: &Ty, p: T) -> Result<Val, String> {
        match ty {
            Ty::Int(w) => {
                let n = ty.store_size() as usize;
                let c = self.load_cells(st, p, n)?;
                Ok(match self.assemble(&c) {
                    None => Val::Undef,
                    Some(t) => Val::Bv(if self.tm.w(t) != *w { self.tm.extract(t, *w - 1, 0) } else { t }),
                })
            }
            Ty::Ptr => {
                let c = self.load_cells(st, p, 8)?;
                Ok(match self.assemble(&c) {
                    None => Val::Undef,
                    Some(t) => Val::Bv(t),
                })
            }
            Ty::Vec(el, n) => {
                let es = el.store_size();
                let mut v = vec![];
                for i in 0..*n {
                    let a = self.tm.addc(p, (i as u64 * es) as u128);
                    v.push(self.load(st, el, a)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() {
                    let a = self.tm.addc(p, ty.field_off(i as u64) as u128);
                    v.push(self.load(st, t, a)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Arr(el, n) => {
                let mut v = vec![];
                for i in 0..*n {
                    let a = self.tm.addc(p, (i * el.size()) as u128);
                    v.push(self.load(st, el, a)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => Err(format!("load of type {:?}", ty)),
        }
    }
    fn cells_of(&mut self, t: T, n: usize) -> Vec<Cell> {
        let w = self.tm.w(t) as usize;
        let t = if w != 8 * n { self.tm.zext(t, 8 * n as u16) } else { t };
        (0..n).map(|i| Cell { t, i: i as u8 }).collect()
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, p: T) -> Er {
        match (ty, v) {
            (Ty::Int(_), Val::Undef) | (Ty::Ptr, Val::Undef) => {
                let n = ty.store_size() as usize;
                self.store_cells(st, p, &vec![UCELL; n])
            }
            (Ty::Int(_), Val::Bv(t)) | (Ty::Ptr, Val::Bv(t)) => {
                let n = ty.store_size() as usize;
                let c = self.cells_of(*t, n);
                self.store_cells(st, p, &c)
            }
            (Ty::Vec(el, n), Val::Agg(vs)) => {
                let es = el.store_size();
                for i in 0..*n as usize {
                    let a = self.tm.addc(p, (i as u64 * es) as u128);
                    self.store(st, el, &vs[i], a)?;
                }
                Ok(())
            }
            (Ty::Struct(f, _), Val::Agg(vs)) => {
                for (i, t) in f.iter().enumerate() {
                    let a = self.tm.addc(p, ty.field_off(i as u64) as u128);
                    self.store(st, t, &vs[i], a)?;
                }
                Ok(())
            }
            (Ty::Arr(el, n), Val::Agg(vs)) => {
                for i in 0..*n as usize {
                    let a = self.tm.addc(p, (i as u64 * el.size()) as u128);
                    self.store(st, el, &vs[i], a)?;
                }
                Ok(())
            }
            _ => Err(format!("store of {:?}", ty)),
        }
    }
    fn alloc(&mut self, st: &mut State, size: usize) -> u64 {
        let slot = HEAP_BASE + st.heap;
        st.heap += 1;
        st.mem.insert(slot, Rc::new(Obj { cells: vec![UCELL; size] }));
        slot_addr(slot)
    }
    /// upper bound of a size that may be symbolic
    fn size_bound(&mut self, st: &State, n: T) -> Result<usize, String> {
        if let Some(c) = self.tm.as_const(n) {
            return Ok(c as usize);
        }
        let hi = self.tm.n[n as usize].hi;
        if self.tm.is_constite(n) || hi <= 1024 {
            if self.tm.is_constite(n) {
                let mut v = vec![];
                self.tm.leaves_of(n, &mut v);
                let m = v.iter().cloned().filter(|&x| x < 1 << 24).max().unwrap_or(0);
                let c = self.tm.c(64, m);
                let bad = self.tm.ult(c, n);
                if self.tm.is_false(bad) {
                    return Ok(m as usize);
                }
                let (f, _) = self.feasible(st, bad)?;
                if !f {
                    return Ok(m as usize);
                }
            } else {
                return Ok(hi as usize);
            }
        }
        for b in [16u128, 64, 256, 1024, 4096, 65536] {
            let c = self.tm.c(64, b);
            let bad = self.tm.ult(c, n);
            let (f, _) = self.feasible(st, bad)?;
            if !f {
                return Ok(b as usize);
            }
        }
        Err(format!("unbounded symbolic size {}", self.show(n, 4)))
    }
    fn remaining(&mut self, st: &State, p: T) -> usize {
        // bytes left in the object(s) p may point to
        let one = self.tm.c(1, 1);
        let mut cases = vec![];
        self.addr_cases(p, one, &mut cases);
        let mut best = 0;
        for (_, a) in cases {
            let lo = if let Some(c) = self.tm.as_const(a) {
                c as u64
            } else {
                let k = self.tm.key(a);
                if k.op == Op::Lin {
                    (k.cs[0] as u64).max(self.tm.n[a as usize].lo as u64)
                } else {
                    self.tm.n[a as usize].lo as u64
                }
            };
            let (slot, off) = Self::split(lo);
            if let Some(o) = self.obj(st, slot) {
                let r = o.cells.len() as i64 - off.max(0);
                best = best.max(r.max(0) as usize);
            }
        }
        best
    }
    fn memcpy(&mut self, st: &mut State, d: T, s: T, n: T) -> Er {
        if let Some(c) = self.tm.as_const(n) {
            let c = c as usize;
            if c == 0 {
                return Ok(());
            }
            let cells = self.read_span(st, s, c)?;
            return self.write_span(st, d, &cells);
        }
        let nb = self.size_bound(st, n)?;
        let rd = self.remaining(st, d);
        let rs = self.remaining(st, s);
        let nmax = nb.min(rd).min(rs);
        if nmax < nb {
            let c = self.tm.c(64, nmax as u128);
            let bad = self.tm.ult(c, n);
            let (f, _) = self.feasible(st, bad)?;
            if f {
                return Err(format!("symbolic memcpy may overrun: bound {nb} dst {rd} src {rs}"));
            }
        }
        // read everything first (memmove semantics)
        let mut src = vec![];
        for j in 0..nmax {
            let a = self.tm.addc(s, j as u128);
            let c = match self.load_cells(st, a, 1) {
                Ok(v) => v[0],
                Err(e) => {
                    let cj = self.tm.c(64, j as u128);
                    let g = self.tm.ult(cj, n);
                    let (f, _) = self.feasible(st, g)?;
                    if f {
                        return Err(e);
                    }
                    UCELL
                }
            };
            src.push(c);
        }
        for j in 0..nmax {
            let cj = self.tm.c(64, j as u128);
            let g = self.tm.ult(cj, n);
            if self.tm.is_false(g) {
                break;
            }
            let a = self.tm.addc(d, j as u128);
            self.store_cells_if(st, a, &src[j..j + 1], g)?;
        }
        Ok(())
    }
    fn read_span(&mut self, st: &State, s: T, n: usize) -> Result<Vec<Cell>, String> {
        if self.tm.is_constite(s) {
            return self.load_cells(st, s, n);
        }
        let mut v = Vec::with_capacity(n);
        // word by word keeps terms whole where the address allows
        let mut j = 0;
        while j < n {
            let a = self.tm.addc(s, j as u128);
            let c = self.load_cells(st, a, 1)?;
            v.push(c[0]);
            j += 1;
        }
        Ok(v)
    }
    fn write_span(&mut self, st: &mut State, d: T, cells: &[Cell]) -> Er {
        if self.tm.is_constite(d) {
            return self.store_cells(st, d, cells);
        }
        for (j, c) in cells.iter().enumerate() {
            let a = self.tm.addc(d, j as u128);
            self.store_cells(st, a, std::slice::from_ref(c))?;
        }
        Ok(())
    }

    // ---- feasibility and proofs ------------------------------------------------------------
    pub fn feasible(&mut self, st: &State, cond: T) -> Result<(bool, Option<Rc<Model>>), String> {
        if let Some(c) = self.tm.as_const(cond) {
            return Ok((c == 1, None));
        }
        if st.pc.contains(&cond) {
            return Ok((true, None));
        }
        let nc = self.tm.not(cond);
        if st.pc.contains(&nc) {
            return Ok((false, None));
        }
        for m in &st.models {
            if m.eval(&self.tm, cond) == 1 {
                return Ok((true, Some(m.clone())));
            }
        }
        if Instant::now() > self.cfg.deadline {
            return Err("deadline".into());
        }
        self.stats.feas += 1;
        let mut roots = st.pc.clone();
        roots.push(cond);
        let (r, model) = self.sat(&roots);
        match r {
            Res::Unsat => Ok((false, None)),
            Res::Sat => Ok((true, Some(self.mk_model(st, model)))),
            Res::Unknown => Ok((true, None)),
        }
    }
    fn sat(&mut self, roots: &[T]) -> (Res, Vec<(u32, u128)>) {
        if self.inc_ok {
            let (r, m) = self.sat_budget(roots, 20_000);
            if r != Res::Unknown {
                return (r, m);
            }
        }
        self.solver.check(&self.tm, roots, None, self.cfg.feas_timeout, true)
    }
    fn sat_budget(&mut self, roots: &[T], budget: u64) -> (Res, Vec<(u32, u128)>) {
        {
            let t0 = Instant::now();
            if self.blaster.sat.nvars() > 4_000_000 {
                self.blaster = Blaster::new();
            }
            let (r, m) = self.blaster.check(&self.tm, roots, budget);
            self.sat_time += t0.elapsed();
            if self.cfg.verbose == 1 && t0.elapsed() > Duration::from_millis(100) {
                eprintln!("slow: {:?} {:?} roots {} vars {} conflicts {} props {}", r, t0.elapsed(), roots.len(), self.blaster.sat.nvars(), self.blaster.sat.conflicts, self.blaster.sat.propagations);
            }
            self.sat_queries += 1;
            match r {
                Ans::Sat => {
                    let mm = Model::new({
                        let mut v = vec![];
                        for &(i, x) in &m {
                            if v.len() <= i as usize {
                                v.resize(i as usize + 1, 0);
                            }
                            v[i as usize] = x;
                        }
                        v
                    });
                    if roots.iter().all(|&p| mm.eval(&self.tm, p) == 1) {
                        return (Res::Sat, m);
                    }
                    self.inconclusive.push("bit blaster: model does not satisfy the query".into());
                }
                Ans::Unsat => {
                    self.sat_unsat += 1;
                    // a sample of the refutations is asked of the other solver as well
                    if self.sat_unsat % 512 == 1 {
                        self.sat_cross += 1;
                        if let (Res::Sat, _) = self.solver.check(&self.tm, roots, None, self.cfg.feas_timeout.min(Duration::from_secs(2)), true) {
                            self.inconclusive.push("bit blaster and SMT solver disagree".into());
                        }
                    }
                    return (Res::Unsat, vec![]);
                }
                Ans::Unknown => {}
            }
        }
        (Res::Unknown, vec![])
    }
    fn mk_model(&mut self, st: &State, m: Vec<(u32, u128)>) -> Rc<Model> {
        let mut vals = match st.models.first() {
            Some(b) => b.vals.clone(),
            None => vec![],
        };
        // variables that do not occur in the query keep an arbitrary value
        for (i, v) in m {
            if vals.len() <= i as usize {
                vals.resize(i as usize + 1, 0);
            }
            vals[i as usize] = v;
        }
        Rc::new(Model::new(vals))
    }
    fn holds(&self, st: &State, m: &Model) -> bool {
        st.pc.iter().all(|&p| m.eval(&self.tm, p) == 1)
    }
    fn report(&mut self, st: &State, kind: &str, id: i64, m: Rc<Model>) {
        let mut bytes = vec![];
        for i in 0..st.nsym {
            bytes.push(m.vals.get(i as usize).cloned().unwrap_or(0) as u8);
        }
        if self.violation.is_none() {
            self.violation = Some(Violation { kind: kind.to_string(), id, model: bytes });
        }
    }
    /// prove pc => goal, or report a violation
    fn prove(&mut self, st: &State, goal: T, kind: &str, id: i64) -> Er {
        self.stats.checks += 1;
        *self.checked_ids.entry(id).or_default() += 1;
        if self.tm.is_true(goal) {
            self.stats.checks_trivial += 1;
            return Ok(());
        }
        for m in &st.models {
            if m.eval(&self.tm, goal) == 0 {
                let m = m.clone();
                self.report(st, kind, id, m);
                return Ok(());
            }
        }
        let t0 = Instant::now();
        let left = self.cfg.deadline.saturating_duration_since(t0);
        if left < Duration::from_millis(50) {
            return Err("deadline".into());
        }
        let to = self.cfg.prove_timeout.min(left);
        let models: Vec<Rc<Model>> = st.models.clone();
        let mut all = st.pc.clone();
        all.push(goal);
        let size = crate::solver::cone(&self.tm, &all, None).len();
        if self.inc_ok && size < if st.nomerge == 2 { 200_000 } else { 4000 } {
            *all.last_mut().unwrap() = self.tm.not(goal);
            let (r, m) = self.sat_budget(&all, if st.nomerge == 2 { 200_000 } else { 5000 });
            match r {
                Res::Unsat => return Ok(()),
                Res::Sat => {
                    let m = self.mk_model(st, m);
                    if self.holds(st, &m) && m.eval(&self.tm, goal) == 0 {
                        self.report(st, kind, id, m);
                        return Ok(());
                    }
                }
                Res::Unknown => {}
            }
        }
        let (r, model) = sweep::prove(&mut self.sweeper, &mut self.tm, &mut self.solver, &st.pc, goal, to, &models, self.cfg.verbose);
        match r {
            Res::Unsat => Ok(()),
            Res::Sat => {
                let m = self.mk_model(st, model);
                if self.holds(st, &m) && m.eval(&self.tm, goal) == 0 {
                    self.report(st, kind, id, m);
                } else {
                    self.inconclusive.push(format!("check {id}: solver model does not satisfy the query"));
                }
                Ok(())
            }
            Res::Unknown => {
                self.inconclusive.push(format!("check {id} ({kind}): solver gave no answer within {:?}", to));
                Ok(())
            }
        }
    }

    pub fn show(&self, t: T, depth: u32) -> String {
        if t == UNDEF {
            return "undef".into();
        }
        let k = &self.tm.n[t as usize].k;
        match k.op {
            Op::Const => format!("{:#x}:{}", k.cs[0], k.w),
            Op::Var => format!("v{}", k.aux),
            _ => {
                if depth == 0 {
                    return format!("t{t}");
                }
                let a: Vec<String> = k.args.iter().take(6).map(|&x| self.show(x, depth - 1)).collect();
                let cs: Vec<String> = k.cs.iter().map(|c| format!("{c:x}")).collect();
                format!("({:?}.{}/{} {} [{}])", k.op, k.w, k.aux, a.join(" "), cs.join(","))
            }
        }
    }

    // ---- states ------------------------------------------------------------------------------
    fn key(&self, st: &State) -> Vec<u32> {
        let mut k = Vec::with_capacity(st.frames.len() * 6 + st.tags.len() + 1);
        for t in &st.tags {
            k.push((*t as u32).wrapping_add(1));
        }
        k.push(0);
        for f in &st.frames {
            let p = &f.f.path[f.block as usize];
            for (i, x) in p.iter().enumerate() {
                k.push(*x);
                if i < f.iters.len() {
                    k.push(f.iters[i]);
                }
            }
            k.push(f.idx);
        }
        k
    }
    fn enqueue(&mut self, st: State) {
        let key = self.key(&st);
        self.enqueue_key(key, st);
    }
    fn enqueue_key(&mut self, key: Vec<u32>, st: State) {
        let mut st = st;
        if st.nomerge == 2 {
            self.canon(&mut st);
        }
        if let Some(v) = self.work.get_mut(&key) {
            let mut v = std::mem::take(v);
            let mut i = 0;
            while i < v.len() {
                if self.mergeable(&v[i], &st) {
                    let o = v.swap_remove(i);
                    self.nwork -= 1;
                    st = self.merge(o, st);
                } else {
                    i += 1;
                }
            }
            v.push(st);
            self.nwork += 1;
            self.work.insert(key, v);
        } else {
            self.nwork += 1;
            self.work.insert(key, vec![st]);
        }
        self.stats.max_states = self.stats.max_states.max(self.nwork);
    }
    fn mergeable(&mut self, a: &State, b: &State) -> bool {
        let same = a.nomerge == b.nomerge && a.tags == b.tags && a.nomerge != 1 && a.nsym == b.nsym && a.frames.len() == b.frames.len() && a.out.len() == b.out.len() && a.frames.iter().zip(&b.frames).all(|(x, y)| x.gid == y.gid && x.block == y.block && x.idx == y.idx);
        same && (a.nomerge != 2 || self.same_shape(a, b))
    }
    // ---- shape mode: states merge only if their addresses, lengths and counters agree -----------
    fn wide_differ(&self, x: T, y: T) -> bool {
        if x == y || x == UNDEF || y == UNDEF {
            return false;
        }
        let (p, q) = (&self.tm.n[x as usize].k, &self.tm.n[y as usize].k);
        p.op == Op::Const && q.op == Op::Const && p.w >= 32 && p.w <= 64 && q.w >= 32
    }
    fn val_differ(&self, x: &Val, y: &Val) -> bool {
        match (x, y) {
            (Val::Bv(a), Val::Bv(b)) => self.wide_differ(*a, *b),
            (Val::Agg(a), Val::Agg(b)) => !Rc::ptr_eq(a, b) && a.iter().zip(b.iter()).any(|(p, q)| self.val_differ(p, q)),
            _ => false,
        }
    }
    fn live_regs(&mut self, fr: &Frame, top: bool) -> Rc<Vec<u64>> {
        let key = (fr.gid, fr.block, fr.idx, top);
        if let Some(l) = self.live_memo.get(&key) {
            return l.clone();
        }
        let l = Rc::new(fr.f.live_at(fr.block, fr.idx, top));
        self.live_memo.insert(key, l.clone());
        l
    }
    fn same_shape(&mut self, a: &State, b: &State) -> bool {
        let nf = a.frames.len();
        for fi in 0..nf {
            let live = self.live_regs(&a.frames[fi], fi + 1 == nf);
            let (x, y) = (&a.frames[fi], &b.frames[fi]);
            for r in 0..x.regs.len() {
                if live[r / 64] >> (r % 64) & 1 == 1 && self.val_differ(&x.regs[r], &y.regs[r]) {
                    if self.cfg.verbose >= 3 {
                        eprintln!("shape: {} reg {r} {:?} {:?}", x.f.name, x.regs[r], y.regs[r]);
                    }
                    return false;
                }
            }
        }
        if a.mem.len() != b.mem.len() {
            if self.cfg.verbose >= 3 {
                eprintln!("shape: objects {} {}", a.mem.len(), b.mem.len());
            }
            return false;
        }
        for ((sa, oa), (sb, ob)) in a.mem.iter().zip(b.mem.iter()) {
            if sa != sb || oa.cells.len() != ob.cells.len() {
                if self.cfg.verbose >= 3 {
                    eprintln!("shape: object {sa:#x} {sb:#x} {} {}", oa.cells.len(), ob.cells.len());
                }
                return false;
            }
            if Rc::ptr_eq(oa, ob) {
                continue;
            }
            for (p, q) in oa.cells.iter().zip(&ob.cells) {
                if p.t != q.t && self.wide_differ(p.t, q.t) {
                    if self.cfg.verbose >= 3 {
                        eprintln!("shape: object {sa:#x} {} {}", self.show(p.t, 1), self.show(q.t, 1));
                    }
                    return false;
                }
            }
        }
        true
    }
    fn heap_half(v: u64) -> bool {
        v / SLOT >= HEAP_BASE && v / SLOT < 2 * HEAP_BASE
    }
    /// does a non-constant term mention a heap address?
    fn mentions_heap(&mut self, t: T) -> bool {
        if self.heap_memo.len() < self.tm.n.len() {
            self.heap_memo.resize(self.tm.n.len(), 0);
        }
        if self.heap_memo[t as usize] != 0 {
            return self.heap_memo[t as usize] == 2;
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.heap_memo[x as usize] != 0 {
                stack.pop();
                continue;
            }
            let k = &self.tm.n[x as usize].k;
            if k.op == Op::Const {
                let v = k.cs[0];
                let yes = k.w >= 57 && (Self::heap_half(v as u64) || Self::heap_half((v >> 64) as u64));
                self.heap_memo[x as usize] = if yes { 2 } else { 1 };
                stack.pop();
                continue;
            }
            let mut yes = k.w >= 57 && k.cs.iter().any(|&v| Self::heap_half(v as u64) || Self::heap_half((v >> 64) as u64));
            let mut ready = true;
            for &y in k.args.iter() {
                match self.heap_memo[y as usize] {
                    0 => {
                        stack.push(y);
                        ready = false;
                    }
                    2 => yes = true,
                    _ => {}
                }
            }
            if yes {
                self.heap_memo[x as usize] = 2;
            } else if ready {
                self.heap_memo[x as usize] = 1;
            }
        }
        self.heap_memo[t as usize] == 2
    }
    /// heap slots named by t, in order; false if t hides them in an expression
    fn heap_refs(&mut self, t: T, f: &mut Vec<u64>) -> bool {
        if t == UNDEF {
            return true;
        }
        let k = &self.tm.n[t as usize].k;
        if k.op == Op::Const {
            if k.w >= 57 {
                let v = k.cs[0];
                for h in [v as u64, (v >> 64) as u64] {
                    if Self::heap_half(h) {
                        f.push(h / SLOT);
                    }
                }
            }
            return true;
        }
        !self.mentions_heap(t)
    }
    fn val_refs(&mut self, v: &Val, f: &mut Vec<u64>) -> bool {
        match v {
            Val::Bv(t) => self.heap_refs(*t, f),
            Val::Agg(a) => a.iter().all(|x| self.val_refs(x, f)),
            Val::Undef => true,
        }
    }
    fn relabel(&mut self, t: T, map: &FxMap<u64, u64>) -> T {
        if t == UNDEF {
            return t;
        }
        let k = &self.tm.n[t as usize].k;
        if k.op != Op::Const || k.w < 57 {
            return t;
        }
        let (w, v) = (k.w, k.cs[0]);
        let h = |x: u64| {
            if Self::heap_half(x) {
                match map.get(&(x / SLOT)) {
                    Some(n) => n * SLOT + x % SLOT,
                    None => slot_addr(HEAP_BASE),
                }
            } else {
                x
            }
        };
        let nv = h(v as u64) as u128 | (h((v >> 64) as u64) as u128) << 64;
        if nv == v {
            t
        } else {
            self.tm.c(w, nv)
        }
    }
    fn relabel_val(&mut self, v: &Val, map: &FxMap<u64, u64>) -> Val {
        match v {
            Val::Bv(t) => Val::Bv(self.relabel(*t, map)),
            Val::Agg(a) => {
                let n: Vec<Val> = a.iter().map(|x| self.relabel_val(x, map)).collect();
                Val::Agg(Rc::new(n))
            }
            Val::Undef => Val::Undef,
        }
    }
    /// number the reachable heap objects in the order in which registers and stack name them, and
    /// forget the rest and every dead register; does nothing if an address hides in an expression
    fn canon(&mut self, st: &mut State) {
        let nf = st.frames.len();
        let mut refs = vec![];
        let mut ok = true;
        for fi in 0..nf {
            let live = self.live_regs(&st.frames[fi], fi + 1 == nf);
            for r in 0..st.frames[fi].regs.len() {
                if live[r / 64] >> (r % 64) & 1 == 0 {
                    st.frames[fi].regs[r] = Val::Undef;
                    continue;
                }
                let v = st.frames[fi].regs[r].clone();
                ok &= self.val_refs(&v, &mut refs);
            }
        }
        // objects of frames that are gone
        let dead: Vec<u64> = st.mem.range(STACK_BASE + nf as u64 * 4096..HEAP_BASE).map(|x| *x.0).collect();
        for d in dead {
            st.mem.remove(&d);
        }
        let roots: Vec<Rc<Obj>> = st.mem.range(..HEAP_BASE).map(|x| x.1.clone()).collect();
        for o in &roots {
            for (i, c) in o.cells.iter().enumerate() {
                if c.t != UNDEF && (i == 0 || o.cells[i - 1].t != c.t) {
                    ok &= self.heap_refs(c.t, &mut refs);
                }
            }
        }
        if !ok {
            self.stats.canon_fail += 1;
            return;
        }
        let mut map: FxMap<u64, u64> = FxMap::default();
        let mut order = vec![];
        let mut at = 0;
        while at < refs.len() {
            let s = refs[at];
            at += 1;
            if map.contains_key(&s) {
                continue;
            }
            let Some(o) = st.mem.get(&s).cloned() else { continue };
            map.insert(s, HEAP_BASE + 1 + order.len() as u64);
            order.push(s);
            for (i, c) in o.cells.iter().enumerate() {
                if c.t != UNDEF && (i == 0 || o.cells[i - 1].t != c.t) && !self.heap_refs(c.t, &mut refs) {
                    self.stats.canon_fail += 1;
                    return;
                }
            }
        }
        let mut mem: BTreeMap<u64, Rc<Obj>> = BTreeMap::new();
        for (s, o) in std::mem::take(&mut st.mem) {
            let n = if s < HEAP_BASE { s } else { match map.get(&s) { Some(n) => *n, None => continue } };
            let mut cells: Option<Vec<Cell>> = None;
            let mut last = (UNDEF, UNDEF);
            for (i, c) in o.cells.iter().enumerate() {
                if c.t == UNDEF {
                    continue;
                }
                if last.0 != c.t {
                    last = (c.t, self.relabel(c.t, &map));
                }
                if last.1 != c.t {
                    cells.get_or_insert_with(|| o.cells.clone())[i].t = last.1;
                }
            }
            mem.insert(n, match cells { Some(cells) => Rc::new(Obj { cells }), None => o });
        }
        st.mem = mem;
        for fi in 0..nf {
            for r in 0..st.frames[fi].regs.len() {
                if !matches!(st.frames[fi].regs[r], Val::Undef) {
                    let v = st.frames[fi].regs[r].clone();
                    st.frames[fi].regs[r] = self.relabel_val(&v, &map);
                }
            }
        }
        st.heap = order.len() as u64 + 1;
    }
    fn merge(&mut self, mut a: State, b: State) -> State {
        self.stats.merges += 1;
        // split the path conditions
        let mut i = 0;
        while i < a.pc.len() && i < b.pc.len() && a.pc[i] == b.pc[i] {
            i += 1;
        }
        let setb: FxSet<T> = b.pc.iter().cloned().collect();
        let seta: FxSet<T> = a.pc.iter().cloned().collect();
        let common: Vec<T> = a.pc.iter().cloned().filter(|x| setb.contains(x)).collect();
        let ra: Vec<T> = a.pc[i..].iter().cloned().filter(|x| !setb.contains(x)).collect();
        let rb: Vec<T> = b.pc[i..].iter().cloned().filter(|x| !seta.contains(x)).collect();
        let ca = if ra.is_empty() { self.tm.c(1, 1) } else { self.tm.and(&ra, 1) };
        let cb = if rb.is_empty() { self.tm.c(1, 1) } else { self.tm.and(&rb, 1) };
        // selector: a literal of a whose negation is in b
        let mut sel = ca;
        let rbset: FxSet<T> = rb.iter().cloned().collect();
        for &x in &ra {
            let nx = self.tm.not(x);
            if rbset.contains(&nx) {
                sel = x;
                break;
            }
        }
        if sel == ca && ra.len() > 1 && rb.len() >= 1 {
            // use the simpler side
            if rb.len() < ra.len() {
                sel = self.tm.not(cb);
            }
        }
        if ra.is_empty() {
            // a's condition is implied by b's: select on b
            sel = self.tm.not(cb);
        }
        let mut disj = self.tm.or(&[ca, cb], 0);
        if a.nomerge == 2 && !self.tm.is_true(disj) {
            // x | (!x & y) is x | y
            let (xa, xb) = (self.without(&rb, &ra), self.without(&ra, &rb));
            let ca = if xa.is_empty() { self.tm.c(1, 1) } else { self.tm.and(&xa, 1) };
            let cb = if xb.is_empty() { self.tm.c(1, 1) } else { self.tm.and(&xb, 1) };
            let (ca, cb) = if xa.len() < ra.len() { (ca, self.tm.and(&rb, 1)) } else if xb.len() < rb.len() { (self.tm.and(&ra, 1), cb) } else { (ca, cb) };
            disj = self.tm.or(&[ca, cb], 0);
            if !self.tm.is_true(disj) {
                // often one of the two always applies
                let nd = self.tm.not(disj);
                let mut q = common.clone();
                q.push(nd);
                if self.tm.as_const(nd).is_none() && self.sat_budget(&q, 500).0 == Res::Unsat {
                    disj = self.tm.c(1, 1);
                }
            }
        }
        let mut pc = common;
        if !self.tm.is_true(disj) {
            // keep top-level conjunctions split
            let k = self.tm.key(disj);
            if k.op == Op::And {
                for &x in k.args.iter() {
                    if !pc.contains(&x) {
                        pc.push(x);
                    }
                }
            } else {
                pc.push(disj);
            }
        }
        a.pc = pc;
        let nf = a.frames.len();
        for (fi, (fa, fb)) in a.frames.iter_mut().zip(&b.frames).enumerate() {
            let live = if fi == nf - 1 && fa.idx == 0 { Some(fa.f.live_in[fa.block as usize].clone()) } else { None };
            for r in 0..fa.regs.len() {
                if let Some(l) = &live {
                    if l[r / 64] >> (r % 64) & 1 == 0 {
                        continue;
                    }
                }
                let m = match (&fa.regs[r], &fb.regs[r]) {
                    (Val::Bv(x), Val::Bv(y)) if x == y => continue,
                    (Val::Undef, Val::Undef) => continue,
                    (x, y) => self.merge_val(sel, x, y),
                };
                fa.regs[r] = m;
            }
            fa.nalloca = fa.nalloca.max(fb.nalloca);
        }
        for (slot, ob) in b.mem.iter() {
            match a.mem.get(slot) {
                None => {
                    a.mem.insert(*slot, ob.clone());
                }
                Some(oa) => {
                    if Rc::ptr_eq(oa, ob) {
                        continue;
                    }
                    let oa = oa.clone();
                    let n = oa.cells.len().min(ob.cells.len());
                    let mut cells = self.merge_cells(sel, &oa.cells[..n], &ob.cells[..n]);
                    cells.extend_from_slice(&oa.cells[n..]);
                    cells.extend_from_slice(&ob.cells[n..]);
                    a.mem.insert(*slot, Rc::new(Obj { cells }));
                }
            }
        }
        a.heap = a.heap.max(b.heap);
        if a.panic_ok != b.panic_ok {
            a.panic_ok = self.tm.ite(sel, a.panic_ok, b.panic_ok);
        }
        if a.out != b.out {
            let o = self.merge_cells(sel, &a.out, &b.out);
            a.out = o;
        }
        for m in b.models {
            if a.models.len() < 6 && !a.models.iter().any(|x| Rc::ptr_eq(x, &m)) {
                a.models.push(m);
            }
        }
        a
    }
    /// the conjuncts of b that are not implied by the negation of the conjunction of a
    fn without(&mut self, a: &[T], b: &[T]) -> Vec<T> {
        if a.len() != 1 {
            return b.to_vec();
        }
        let k = self.tm.key(a[0]);
        let lits: Vec<T> = if k.op == Op::Or && k.w == 1 && k.cs[0] == 0 { k.args.to_vec() } else { vec![a[0]] };
        let neg: FxSet<T> = lits.iter().map(|&x| self.tm.not(x)).collect();
        b.iter().cloned().filter(|x| !neg.contains(x)).collect()
    }
    fn merge_val(&mut self, c: T, x: &Val, y: &Val) -> Val {
        match (x, y) {
            (Val::Undef, v) | (v, Val::Undef) => v.clone(),
            (Val::Bv(a), Val::Bv(b)) => {
                if self.tm.w(*a) != self.tm.w(*b) {
                    return x.clone();
                }
                Val::Bv(self.tm.ite(c, *a, *b))
            }
            (Val::Agg(a), Val::Agg(b)) => {
                if Rc::ptr_eq(a, b) {
                    return x.clone();
                }
                let v: Vec<Val> = a.iter().zip(b.iter()).map(|(p, q)| self.merge_val(c, p, q)).collect();
                Val::Agg(Rc::new(v))
            }
            _ => x.clone(),
        }
    }

    pub fn run(&mut self, name: &str, args: &[u64]) -> Er {
        let g = *self.m.by_name.get(name).ok_or_else(|| format!("no function {name}"))?;
        let f = self.m.func(g).ok_or("no body")?;
        self.executed.insert(g);
        let mut regs = vec![Val::Undef; f.nregs as usize];
        for i in 0..f.params.len() {
            let w = Self::width(&f.params[i]);
            regs[i] = Val::Bv(self.tm.c(w, args.get(i).cloned().unwrap_or(0) as u128));
        }
        let z = self.tm.c(1, 0);
        // start models: arbitrary points of the (unconstrained) input space
        let mut models = vec![];
        for s in 0..3 {
            let mut v = Vec::with_capacity(4096);
            for _ in 0..4096 {
                self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                v.push(match s {
                    0 => 0,
                    _ => (self.rng >> 33) as u128 & 0xff,
                });
            }
            models.push(Rc::new(Model::new(v)));
        }
        if let Some(c) = &self.cfg.concrete {
            models = vec![Rc::new(Model::new(c.iter().map(|&x| x as u128).collect()))];
        }
        let st = State {
            frames: vec![Frame { f: f.clone(), gid: g, block: 0, idx: 0, regs, iters: vec![0; f.comp_heads[0].len()], nalloca: 0 }],
            mem: BTreeMap::new(),
            pc: vec![],
            heap: 0,
            nsym: 0,
            panic_ok: z,
            models,
            nomerge: self.cfg.force_join.unwrap_or(0),
            tags: vec![],
            out: vec![],
        };
        self.enqueue(st);
        while let Some((_, mut v)) = self.work.pop_first() {
            self.nwork -= v.len();
            while let Some(st) = v.pop() {
                self.run_state(st)?;
                if self.violation.is_some() {
                    return Ok(());
                }
                if Instant::now() > self.cfg.deadline {
                    return Err("deadline".into());
                }
            }
        }
        Ok(())
    }
    fn run_state(&mut self, st: State) -> Er {
        let mut st = st;
        let mut at_point = false;
        let mut tick = 0u32;
        loop {
            if at_point && self.nwork > 0 {
                let key = self.key(&st);
                let (first, _) = self.work.first_key_value().unwrap();
                if *first <= key {
                    self.enqueue_key(key, st);
                    return Ok(());
                }
            }
            tick += 1;
            if tick & 0x3ff == 0 && Instant::now() > self.cfg.deadline {
                return Err("deadline".into());
            }
            // run to the next block boundary / call / return
            match self.run_block(&mut st)? {
                Step::Continue => at_point = false,
                Step::Point => at_point = true,
                Step::Done => return Ok(()),
            }
            if self.violation.is_some() {
                return Ok(());
            }
        }
    }
    fn goto(&mut self, st: &mut State, target: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let from = fr.block;
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let o = &p.inc.iter().find(|x| x.1 == from).expect("phi edge").0;
                let v = match o {
                    Opnd::Reg(r) => fr.regs[*r as usize].clone(),
                    Opnd::C(c) => self.cv(c, &p.ty),
                };
                vals.push(v);
            }
            for (p, v) in b.phis.iter().zip(vals) {
                fr.regs[p.dst as usize] = v;
            }
        }
        // loop iteration counters
        let hf = &f.comp_heads[from as usize];
        let ht = &f.comp_heads[target as usize];
        let mut common = 0;
        while common < hf.len() && common < ht.len() && hf[common] == ht[common] {
            common += 1;
        }
        fr.iters.truncate(common);
        // a back edge re-enters the head of its component
        if let Some(p) = ht.iter().position(|&h| h == target) {
            if p < common {
                fr.iters.truncate(p + 1);
                fr.iters[p] += 1;
            }
        }
        fr.iters.resize(ht.len(), 0);
        fr.block = target;
        fr.idx = 0;
    }
    fn fork(&mut self, st: &State, cond: T, target: u32, model: Option<Rc<Model>>) -> State {
        let mut s = st.clone();
        self.constrain(&mut s, cond, model);
        self.goto(&mut s, target);
        s
    }
    fn constrain(&mut self, s: &mut State, cond: T, model: Option<Rc<Model>>) {
        if self.tm.is_true(cond) {
            return;
        }
        let ms: Vec<Rc<Model>> = s.models.iter().filter(|m| m.eval(&self.tm, cond) == 1).cloned().collect();
        s.models = ms;
        if let Some(m) = model {
            if s.models.is_empty() {
                s.models.push(m);
            }
        }
        let k = self.tm.key(cond);
        if k.op == Op::And && k.w == 1 && k.cs[0] == 1 {
            for &x in k.args.iter() {
                if !s.pc.contains(&x) {
                    s.pc.push(x);
                }
            }
        } else if !s.pc.contains(&cond) {
            s.pc.push(cond);
        }
    }
    fn panic_state(&mut self, st: &State, what: &str) -> Er {
        self.stats.paths += 1;
        *self.panics.entry(what.to_string()).or_default() += 1;
        let z = st.panic_ok;
        if self.tm.is_true(z) {
            return Ok(());
        }
        // not allowed: is this path feasible with panics disallowed?
        self.stats.checks += 1;
        *self.checked_ids.entry(-1).or_default() += 1;
        let bad = self.tm.not(z);
        // need a real model
        for m in &st.models {
            if m.eval(&self.tm, bad) == 1 {
                let m = m.clone();
                self.report(st, &format!("panic:{what}"), -1, m);
                return Ok(());
            }
        }
        let left = self.cfg.deadline.saturating_duration_since(Instant::now());
        let to = self.cfg.prove_timeout.min(left);
        let models = st.models.clone();
        let (r, model) = sweep::prove(&mut self.sweeper, &mut self.tm, &mut self.solver, &st.pc, z, to, &models, self.cfg.verbose);
        match r {
            Res::Unsat => Ok(()),
            Res::Sat => {
                let m = self.mk_model(st, model);
                if self.holds(st, &m) {
                    self.report(st, &format!("panic:{what}"), -1, m);
                } else {
                    self.inconclusive.push(format!("panic {what}: bad model"));
                }
                Ok(())
            }
            Res::Unknown => {
                self.inconclusive.push(format!("panic {what}: no answer"));
                Ok(())
            }
        }
    }

    fn run_block(&mut self, st: &mut State) -> Result<Step, String> {
        loop {
            let fi = st.frames.len() - 1;
            let f = st.frames[fi].f.clone();
            let bi = st.frames[fi].block as usize;
            let ii = st.frames[fi].idx as usize;
            let (dst, inst) = &f.blocks[bi].insts[ii];
            self.stats.insts += 1;
            macro_rules! fr {
                () => {
                    st.frames[fi]
                };
            }
            let val: Val = match inst {
                Inst::Bin(op, ty, a, b) => {
                    let va = self.ev(&fr!(), a, ty);
                    let vb = self.ev(&fr!(), b, ty);
                    self.binop(*op, ty, &va, &vb)?
                }
                Inst::ICmp(p, ty, a, b) => {
                    let va = self.ev(&fr!(), a, ty);
                    let vb = self.ev(&fr!(), b, ty);
                    self.icmp(*p, ty, &va, &vb)?
                }
                Inst::Cast(op, ty, a, to) => {
                    let v = self.ev(&fr!(), a, ty);
                    self.cast(*op, ty, &v, to)?
                }
                Inst::Select(cty, c, ty, a, b) => {
                    let va = self.ev(&fr!(), a, ty);
                    let vb = self.ev(&fr!(), b, ty);
                    match self.ev(&fr!(), c, cty) {
                        Val::Agg(cs) => {
                            let (Val::Agg(x), Val::Agg(y)) = (&va, &vb) else { return Err("vector select".into()) };
                            let mut o = vec![];
                            for i in 0..cs.len() {
                                let ct = self.as_t(&cs[i], 1);
                                o.push(self.sel(ct, &x[i], &y[i]));
                            }
                            Val::Agg(Rc::new(o))
                        }
                        Val::Bv(ct) => self.sel(ct, &va, &vb),
                        Val::Undef => vb,
                    }
                }
                Inst::Alloca(sz, n) => {
                    let nt = self.evt(&fr!(), n, &Ty::Int(64));
                    let n = self.tm.as_const(nt).ok_or("dynamic alloca")? as u64;
                    let slot = STACK_BASE + (fi as u64) * 4096 + fr!().nalloca as u64;
                    fr!().nalloca += 1;
                    st.mem.insert(slot, Rc::new(Obj { cells: vec![UCELL; (sz * n) as usize] }));
                    Val::Bv(self.tm.c(64, slot_addr(slot) as u128))
                }
                Inst::Load(ty, p) => {
                    let pt = self.evt(&fr!(), p, &Ty::Ptr);
                    self.load(st, ty, pt).map_err(|e| self.loc(st, e))?
                }
                Inst::Store(ty, v, p) => {
                    let v = self.ev(&fr!(), v, ty);
                    let pt = self.evt(&fr!(), p, &Ty::Ptr);
                    if let Err(e) = self.store(st, ty, &v, pt) {
                        return Err(self.loc(st, e));
                    }
                    Val::Undef
                }
                Inst::Gep(b, off, var) => {
                    let base = self.evt(&fr!(), b, &Ty::Ptr);
                    if var.is_empty() {
                        Val::Bv(self.tm.addc(base, *off as i128 as u128))
                    } else {
                        let mut parts = vec![(base, 1u128)];
                        for (o, w, sc) in var {
                            let t = self.evt(&fr!(), o, &Ty::Int(*w));
                            let t = self.tm.sext(t, 64);
                            parts.push((t, *sc as i128 as u128 & mask(64)));
                        }
                        Val::Bv(self.tm.lin(64, *off as i128 as u128 & mask(64), &parts))
                    }
                }
                Inst::Br(t) => {
                    self.goto(st, *t);
                    return Ok(Step::Point);
                }
                Inst::CondBr(c, a, b) => {
                    let c = self.evt(&fr!(), c, &Ty::Int(1));
                    if let Some(v) = self.tm.as_const(c) {
                        self.goto(st, if v == 1 { *a } else { *b });
                        return Ok(Step::Point);
                    }
                    if a == b {
                        self.goto(st, *a);
                        return Ok(Step::Point);
                    }
                    let nc = self.tm.not(c);
                    let (ft, mt) = self.feasible(st, c)?;
                    let (ff, mf) = if ft { self.feasible(st, nc)? } else { (true, None) };
                    if ft && ff {
                        self.stats.forks += 1;
                        if self.cfg.verbose > 0 {
                            *self.prof.entry((fr!().gid, fr!().block)).or_default() += 1;
                        }
                        let s1 = self.fork(st, c, *a, mt);
                        let s2 = self.fork(st, nc, *b, mf);
                        self.enqueue(s1);
                        self.enqueue(s2);
                        return Ok(Step::Done);
                    }
                    self.goto(st, if ft { *a } else { *b });
                    return Ok(Step::Point);
                }
                Inst::Switch(ty, v, d, cs) => {
                    let t = self.evt(&fr!(), v, ty);
                    let w = self.tm.w(t);
                    if let Some(c) = self.tm.as_const(t) {
                        let tg = cs.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*d);
                        self.goto(st, tg);
                        return Ok(Step::Point);
                    }
                    // group by target; phis depend only on the edge's source block
                    let mut targets: Vec<(u32, T)> = vec![];
                    let mut none = self.tm.c(1, 1);
                    for (c, tg) in cs {
                        let cc = self.tm.c(w, *c);
                        let e = self.tm.eq(t, cc);
                        let ne = self.tm.not(e);
                        none = self.tm.and(&[none, ne], 1);
                        if let Some(x) = targets.iter_mut().find(|x| x.0 == *tg) {
                            x.1 = self.tm.or(&[x.1, e], 0);
                        } else {
                            targets.push((*tg, e));
                        }
                    }
                    if let Some(x) = targets.iter_mut().find(|x| x.0 == *d) {
                        x.1 = self.tm.or(&[x.1, none], 0);
                    } else {
                        targets.push((*d, none));
                    }
                    let mut feas = vec![];
                    for (tg, c) in targets {
                        let (f, m) = self.feasible(st, c)?;
                        if f {
                            feas.push((tg, c, m));
                        }
                    }
                    if feas.len() == 1 {
                        let tg = feas[0].0;
                        self.goto(st, tg);
                        return Ok(Step::Point);
                    }
                    self.stats.forks += 1;
                    for (tg, c, m) in feas {
                        let s = self.fork(st, c, tg, m);
                        self.enqueue(s);
                    }
                    return Ok(Step::Done);
                }
                Inst::Ret(ty, v) => {
                    let rv = match v {
                        None => Val::Undef,
                        Some(v) => self.ev(&fr!(), v, ty),
                    };
                    return self.do_ret(st, rv);
                }
                Inst::Unreachable => {
                    let fname = f.name.clone();
                    self.panic_state(st, &format!("unreachable in {fname}"))?;
                    return Ok(Step::Done);
                }
                Inst::Call { callee, ret, args, normal, noreturn } => {
                    let mut av = Vec::with_capacity(args.len());
                    for (t, o) in args {
                        av.push(self.ev(&fr!(), o, t));
                    }
                    let g = match callee {
                        Callee::Direct(g) => *g,
                        Callee::Asm => {
                            // compiler barriers only
                            fr!().idx += 1;
                            continue;
                        }
                        Callee::Ptr(p) => {
                            let t = self.evt(&fr!(), p, &Ty::Ptr);
                            match self.tm.as_const(t) {
                                Some(c) => match self.m.global_at(c as u64) {
                                    Some(g) => g,
                                    None => return Err(self.loc(st, format!("call to bad address {c:#x}"))),
                                },
                                None => {
                                    // fork over the possible callees
                                    if !self.tm.is_constite(t) {
                                        return Err(self.loc(st, "call through unresolved pointer".into()));
                                    }
                                    let mut lv = vec![];
                                    self.tm.leaves_of(t, &mut lv);
                                    let Opnd::Reg(r) = p else { return Err("callee".into()) };
                                    self.stats.forks += 1;
                                    for l in lv {
                                        let lc = self.tm.c(64, l);
                                        let e = self.tm.eq(t, lc);
                                        let (fs, m) = self.feasible(st, e)?;
                                        if fs {
                                            let mut s = st.clone();
                                            self.constrain(&mut s, e, m);
                                            s.frames[fi].regs[*r as usize] = Val::Bv(lc);
                                            self.enqueue(s);
                                        }
                                    }
                                    return Ok(Step::Done);
                                }
                            }
                        }
                    };
                    let intr = match self.intr.get(&g) {
                        Some(i) => i.clone(),
                        None => {
                            let i = self.classify(g);
                            self.intr.insert(g, i.clone());
                            i
                        }
                    };
                    if *noreturn || self.m.globals[g as usize].noreturn || matches!(intr, Intr::Trap) {
                        let n = self.m.globals[g as usize].name.clone();
                        self.panic_state(st, &n)?;
                        return Ok(Step::Done);
                    }
                    match intr {
                        Intr::None => {
                            let cf = match self.m.func(g) {
                                Some(f) => f,
                                None => {
                                    let n = self.m.globals[g as usize].name.clone();
                                    return Err(self.loc(st, format!("call to external function {n}")));
                                }
                            };
                            self.executed.insert(g);
                            if st.frames.len() > 400 {
                                return Err("call depth".into());
                            }
                            let mut regs = vec![Val::Undef; cf.nregs as usize];
                            for (i, v) in av.into_iter().enumerate() {
                                if i < cf.params.len() {
                                    regs[i] = v;
                                }
                            }
                            let iters = vec![0; cf.comp_heads[0].len()];
                            st.frames.push(Frame { f: cf, gid: g, block: 0, idx: 0, regs, iters, nalloca: 0 });
                            return Ok(Step::Continue);
                        }
                        i => {
                            let r = self.intrinsic(st, &i, g, ret, args, &av);
                            match r {
                                Err(e) => return Err(self.loc(st, e)),
                                Ok(None) => return Ok(Step::Done),
                                Ok(Some(v)) => {
                                    if let Some(d) = dst {
                                        fr!().regs[*d as usize] = v;
                                    }
                                    if self.violation.is_some() {
                                        return Ok(Step::Done);
                                    }
                                    if let Some(n) = normal {
                                        self.goto(st, *n);
                                        return Ok(Step::Point);
                                    }
                                    fr!().idx += 1;
                                    continue;
                                }
                            }
                        }
                    }
                }
                Inst::ExtractValue(a, idx) => {
                    let mut v = match a {
                        Opnd::Reg(r) => fr!().regs[*r as usize].clone(),
                        Opnd::C(_) => Val::Undef,
                    };
                    for i in idx {
                        v = match v {
                            Val::Agg(x) => x[*i as usize].clone(),
                            _ => Val::Undef,
                        };
                    }
                    v
                }
                Inst::InsertValue(ty, a, v, idx) => {
                    let mut base = self.ev(&fr!(), a, ty);
                    if let Val::Undef = base {
                        base = self.zero_like(ty, true);
                    }
                    let mut t = ty;
                    for i in idx {
                        t = t.field(*i as u64);
                    }
                    let v = self.ev(&fr!(), v, t);
                    insert(&base, idx, v)
                }
                Inst::ExtractElem(a, i) => {
                    let it = self.evt(&fr!(), i, &Ty::Int(64));
                    let i = self.tm.as_const(it).ok_or("symbolic vector index")? as usize;
                    match a {
                        Opnd::Reg(r) => match &fr!().regs[*r as usize] {
                            Val::Agg(x) => x[i].clone(),
                            _ => Val::Undef,
                        },
                        _ => Val::Undef,
                    }
                }
                Inst::InsertElem(ty, a, v, i) => {
                    let mut base = self.ev(&fr!(), a, ty);
                    if let Val::Undef = base {
                        base = self.zero_like(ty, true);
                    }
                    let it = self.evt(&fr!(), i, &Ty::Int(64));
                    let i = self.tm.as_const(it).ok_or("symbolic vector index")? as u32;
                    let v = self.ev(&fr!(), v, ty.field(0));
                    insert(&base, &[i], v)
                }
                Inst::Shuffle(ty, a, b, m) => {
                    let va = self.ev(&fr!(), a, ty);
                    let vb = self.ev(&fr!(), b, ty);
                    let n = if let Ty::Vec(_, n) = ty { *n as i64 } else { 0 };
                    let mut o = vec![];
                    for &i in m {
                        let v = if i < 0 {
                            Val::Undef
                        } else if i < n {
                            if let Val::Agg(x) = &va {
                                x[i as usize].clone()
                            } else {
                                Val::Undef
                            }
                        } else if let Val::Agg(x) = &vb {
                            x[(i - n) as usize].clone()
                        } else {
                            Val::Undef
                        };
                        o.push(v);
                    }
                    Val::Agg(Rc::new(o))
                }
                Inst::Freeze(ty, a) => {
                    let v = self.ev(&fr!(), a, ty);
                    match v {
                        Val::Undef => self.zero_like(ty, false),
                        v => v,
                    }
                }
                Inst::AtomicRmw(op, ty, p, v) => {
                    let pt = self.evt(&fr!(), p, &Ty::Ptr);
                    let vt = self.evt(&fr!(), v, ty);
                    let old = self.load(st, ty, pt)?;
                    let w = Self::width(ty);
                    let ot = self.as_t(&old, w);
                    let nt = match op.as_str() {
                        "xchg" => vt,
                        "add" => self.tm.add(ot, vt),
                        "sub" => self.tm.sub(ot, vt),
                        "or" => self.tm.or2(ot, vt),
                        "and" => self.tm.and2(ot, vt),
                        "xor" => self.tm.xor2(ot, vt),
                        _ => return Err(format!("atomicrmw {op}")),
                    };
                    self.store(st, ty, &Val::Bv(nt), pt)?;
                    old
                }
                Inst::CmpXchg(ty, p, c, n) => {
                    let pt = self.evt(&fr!(), p, &Ty::Ptr);
                    let ct = self.evt(&fr!(), c, ty);
                    let nt = self.evt(&fr!(), n, ty);
                    let old = self.load(st, ty, pt)?;
                    let w = Self::width(ty);
                    let ot = self.as_t(&old, w);
                    let e = self.tm.eq(ot, ct);
                    let nv = self.tm.ite(e, nt, ot);
                    self.store(st, ty, &Val::Bv(nv), pt)?;
                    Val::Agg(Rc::new(vec![Val::Bv(ot), Val::Bv(e)]))
                }
                Inst::Nop => Val::Undef,
                Inst::Unsupported(s) => return Err(self.loc(st, format!("unsupported instruction {s}"))),
            };
            if let Some(d) = dst {
                fr!().regs[*d as usize] = val;
            }
            fr!().idx += 1;
        }
    }
    fn loc(&self, st: &State, e: String) -> String {
        let mut s = e;
        for f in st.frames.iter().rev().take(6) {
            s.push_str(&format!("\n   at {} block {} inst {}", f.f.name, f.block, f.idx));
            if let Some((_, i)) = f.f.blocks[f.block as usize].insts.get(f.idx as usize) {
                let mut d = format!("{:?}", i);
                d.truncate(200);
                s.push_str(&format!(" {d}"));
            }
        }
        s
    }
    fn do_ret(&mut self, st: &mut State, rv: Val) -> Result<Step, String> {
        let fi = st.frames.len() - 1;
        for i in 0..st.frames[fi].nalloca as u64 {
            st.mem.remove(&(STACK_BASE + (fi as u64) * 4096 + i));
        }
        st.frames.pop();
        if st.frames.is_empty() {
            self.stats.paths += 1;
            self.max_nsym = self.max_nsym.max(st.nsym);
            if self.cfg.concrete.is_some() {
                let o: Vec<Cell> = st.out.clone();
                let mut b = vec![];
                for c in o {
                    let t = self.byte(c);
                    b.push(st.models.first().map(|m| m.eval(&self.tm, t)).unwrap_or(0) as u8);
                }
                self.outputs.push(b);
            }
            return Ok(Step::Done);
        }
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let (dst, inst) = &f.blocks[fr.block as usize].insts[fr.idx as usize];
        if let Some(d) = dst {
            fr.regs[*d as usize] = rv;
        }
        if let Inst::Call { normal: Some(n), .. } = inst {
            let n = *n;
            self.goto(st, n);
            return Ok(Step::Point);
        }
        fr.idx += 1;
        Ok(Step::Point)
    }
    fn sel(&mut self, c: T, a: &Val, b: &Val) -> Val {
        if let Some(v) = self.tm.as_const(c) {
            return if v == 1 { a.clone() } else { b.clone() };
        }
        self.merge_val(c, a, b)
    }
    fn binop(&mut self, op: BinOp, ty: &Ty, a: &Val, b: &Val) -> Result<Val, String> {
        if let Ty::Vec(el, n) = ty {
            let mut o = vec![];
            for i in 0..*n as usize {
                let x = if let Val::Agg(v) = a { v[i].clone() } else { Val::Undef };
                let y = if let Val::Agg(v) = b { v[i].clone() } else { Val::Undef };
                o.push(self.binop(op, el, &x, &y)?);
            }
            return Ok(Val::Agg(Rc::new(o)));
        }
        let w = Self::width(ty);
        let x = self.as_t(a, w);
        let y = self.as_t(b, w);
        let t = match op {
            BinOp::Add => self.tm.add(x, y),
            BinOp::Sub => match self.prods.get(&y) {
                // a - (a / d) * d == a % d, also for d == 0
                Some(&(a, d)) if a == x => self.tm.div(Op::URem, a, d),
                _ => self.tm.sub(x, y),
            },
            BinOp::Mul => {
                let r = self.tm.mul(x, y);
                for (q, d) in [(x, y), (y, x)] {
                    if let Some(&(a, e)) = self.quots.get(&q) {
                        if e == d {
                            self.prods.insert(r, (a, d));
                        }
                    }
                }
                r
            }
            BinOp::UDiv => {
                let r = self.tm.udiv_nz(x, y);
                if self.tm.as_const(r).is_none() {
                    self.quots.insert(r, (x, y));
                }
                r
            }
            BinOp::SDiv => self.tm.div(Op::SDiv, x, y),
            BinOp::URem => self.tm.div(Op::URem, x, y),
            BinOp::SRem => self.tm.div(Op::SRem, x, y),
            BinOp::Shl => self.tm.shift(Op::Shl, x, y),
            BinOp::LShr => self.tm.shift(Op::LShr, x, y),
            BinOp::AShr => self.tm.shift(Op::AShr, x, y),
            BinOp::And => self.tm.and2(x, y),
            BinOp::Or => self.tm.or2(x, y),
            BinOp::Xor => self.tm.xor2(x, y),
        };
        Ok(Val::Bv(t))
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> Result<Val, String> {
        if let Ty::Vec(el, n) = ty {
            let mut o = vec![];
            for i in 0..*n as usize {
                let x = if let Val::Agg(v) = a { v[i].clone() } else { Val::Undef };
                let y = if let Val::Agg(v) = b { v[i].clone() } else { Val::Undef };
                o.push(self.icmp(p, el, &x, &y)?);
            }
            return Ok(Val::Agg(Rc::new(o)));
        }
        let w = Self::width(ty);
        let x = self.as_t(a, w);
        let y = self.as_t(b, w);
        let tm = &mut self.tm;
        let t = match p {
            Pred::Eq => tm.eq(x, y),
            Pred::Ne => tm.ne(x, y),
            Pred::Ult => tm.ult(x, y),
            Pred::Ugt => tm.ult(y, x),
            Pred::Ule => tm.ule(x, y),
            Pred::Uge => tm.ule(y, x),
            Pred::Slt => tm.slt(x, y),
            Pred::Sgt => tm.slt(y, x),
            Pred::Sle => {
                let z = tm.slt(y, x);
                tm.not(z)
            }
            Pred::Sge => {
                let z = tm.slt(x, y);
                tm.not(z)
            }
        };
        Ok(Val::Bv(t))
    }
    fn cast(&mut self, op: CastOp, ty: &Ty, v: &Val, to: &Ty) -> Result<Val, String> {
        if let (CastOp::Bitcast, Ty::Vec(el, n)) = (op, ty) {
            if let Val::Agg(x) = v {
                let ew = Self::width(el);
                let mut parts = vec![];
                for i in (0..*n as usize).rev() {
                    parts.push(self.as_t(&x[i], ew));
                }
                let t = self.tm.concat(&parts);
                if let Ty::Vec(..) = to {
                    return Err("vector to vector bitcast".into());
                }
                return Ok(Val::Bv(t));
            }
            return Ok(Val::Undef);
        }
        if let (CastOp::Bitcast, Ty::Vec(el, n)) = (op, to) {
            let ew = Self::width(el);
            let t = self.as_t(v, ew * *n as u16);
            let mut o = vec![];
            for i in 0..*n as u16 {
                o.push(Val::Bv(self.tm.extract(t, (i + 1) * ew - 1, i * ew)));
            }
            return Ok(Val::Agg(Rc::new(o)));
        }
        if let (Ty::Vec(el, n), Ty::Vec(el2, _)) = (ty, to) {
            let mut o = vec![];
            for i in 0..*n as usize {
                let x = if let Val::Agg(v) = v { v[i].clone() } else { Val::Undef };
                o.push(self.cast(op, el, &x, el2)?);
            }
            return Ok(Val::Agg(Rc::new(o)));
        }
        if let Val::Undef = v {
            return Ok(match op {
                CastOp::Zext | CastOp::Sext => Val::Bv(self.tm.c(Self::width(to), 0)),
                _ => Val::Undef,
            });
        }
        let t = self.as_t(v, Self::width(ty));
        let w = Self::width(to);
        let tw = self.tm.w(t);
        Ok(Val::Bv(match op {
            CastOp::Trunc => self.tm.extract(t, w - 1, 0),
            CastOp::Zext => self.tm.zext(t, w),
            CastOp::Sext => self.tm.sext(t, w),
            CastOp::Bitcast => t,
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if w < tw {
                    self.tm.extract(t, w - 1, 0)
                } else {
                    self.tm.zext(t, w)
                }
            }
        }))
    }
    fn minmax(&mut self, i: &Intr, x: T, y: T) -> T {
        let tm = &mut self.tm;
        match i {
            Intr::UMax => {
                let c = tm.ult(x, y);
                tm.ite(c, y, x)
            }
            Intr::UMin => {
                let c = tm.ult(x, y);
                tm.ite(c, x, y)
            }
            Intr::SMax => {
                let c = tm.slt(x, y);
                tm.ite(c, y, x)
            }
            _ => {
                let c = tm.slt(x, y);
                tm.ite(c, x, y)
            }
        }
    }
    fn intrinsic(&mut self, st: &mut State, i: &Intr, g: u32, ret: &Ty, args: &[(Ty, Opnd)], av: &[Val]) -> Result<Option<Val>, String> {
        let rw = Self::width(ret);
        macro_rules! arg {
            ($n:expr) => {{
                let w = Self::width(&args[$n].0);
                self.as_t(&av[$n], w)
            }};
        }
        let bv = |t: T| Ok(Some(Val::Bv(t)));
        let none: Result<Option<Val>, String> = Ok(Some(Val::Undef));
        if st.nomerge != 0 {
            let sizes: &[usize] = match i {
                Intr::Malloc => &[0],
                Intr::Calloc => &[0, 1],
                Intr::Realloc => &[1],
                Intr::Memcpy | Intr::Memset | Intr::Bcmp | Intr::Memcmp => &[2],
                _ => &[],
            };
            for &k in sizes {
                let n = arg!(k);
                if self.tm.as_const(n).is_none() && self.pin(st, n)? {
                    return Ok(None);
                }
            }
        }
        match i {
            Intr::Nop => none,
            Intr::Malloc => {
                let n = arg!(0);
                let n = self.size_bound(st, n)?;
                if n > 1 << 26 {
                    return Err(format!("allocation of {n} bytes"));
                }
                let a = self.alloc(st, n);
                bv(self.tm.c(64, a as u128))
            }
            Intr::Calloc => {
                let (x, y) = (arg!(0), arg!(1));
                let n = self.tm.mul(x, y);
                let n = self.size_bound(st, n)?;
                if n > 1 << 26 {
                    return Err(format!("allocation of {n} bytes"));
                }
                let a = self.alloc(st, n);
                let z = Cell { t: self.tm.c(8, 0), i: 0 };
                let (slot, _) = Self::split(a);
                st.mem.insert(slot, Rc::new(Obj { cells: vec![z; n] }));
                bv(self.tm.c(64, a as u128))
            }
            Intr::Memalign => {
                let p = arg!(0);
                let n = arg!(2);
                let n = self.size_bound(st, n)?;
                let a = self.alloc(st, n);
                let t = self.tm.c(64, a as u128);
                self.store(st, &Ty::Ptr, &Val::Bv(t), p)?;
                bv(self.tm.c(32, 0))
            }
            Intr::Realloc => {
                let p = arg!(0);
                let n = arg!(1);
                let nb = self.size_bound(st, n)?;
                if nb > 1 << 26 {
                    return Err(format!("allocation of {nb} bytes"));
                }
                let old = self.remaining(st, p);
                let k = old.min(nb);
                let cells = self.read_span(st, p, k)?;
                let a = self.alloc(st, nb.max(k));
                let (slot, _) = Self::split(a);
                let o = self.obj_mut(st, slot)?;
                o.cells[..k].copy_from_slice(&cells);
                if let Some(c) = self.tm.as_const(p) {
                    let (s, _) = Self::split(c as u64);
                    st.mem.remove(&s);
                }
                bv(self.tm.c(64, a as u128))
            }
            Intr::Free => {
                let p = arg!(0);
                if let Some(c) = self.tm.as_const(p) {
                    let (s, off) = Self::split(c as u64);
                    if s >= HEAP_BASE && off == 0 {
                        st.mem.remove(&s);
                    }
                }
                none
            }
            Intr::Memcpy => {
                let (d, s, n) = (arg!(0), arg!(1), arg!(2));
                self.memcpy(st, d, s, n)?;
                if *ret == Ty::Ptr {
                    return bv(d);
                }
                none
            }
            Intr::Memset => {
                let (d, v, n) = (arg!(0), arg!(1), arg!(2));
                let v = if self.tm.w(v) > 8 { self.tm.extract(v, 7, 0) } else { v };
                if let Some(c) = self.tm.as_const(n) {
                    if c > 0 {
                        let cells = vec![Cell { t: v, i: 0 }; c as usize];
                        self.write_span(st, d, &cells)?;
                    }
                } else {
                    let nb = self.size_bound(st, n)?;
                    let rd = self.remaining(st, d);
                    let nm = nb.min(rd);
                    if nm < nb {
                        let c = self.tm.c(64, nm as u128);
                        let bad = self.tm.ult(c, n);
                        let (f, _) = self.feasible(st, bad)?;
                        if f {
                            return Err("symbolic memset may overrun".into());
                        }
                    }
                    for j in 0..nm {
                        let cj = self.tm.c(64, j as u128);
                        let g = self.tm.ult(cj, n);
                        let a = self.tm.addc(d, j as u128);
                        self.store_cells_if(st, a, &[Cell { t: v, i: 0 }], g)?;
                    }
                }
                none
            }
            Intr::Bcmp | Intr::Memcmp => {
                let (p, q, n) = (arg!(0), arg!(1), arg!(2));
                let sym = self.tm.as_const(n).is_none();
                let mut nm = self.size_bound(st, n)?;
                if sym {
                    let (a, b) = (self.remaining(st, p), self.remaining(st, q));
                    let m = a.min(b);
                    if m < nm {
                        let c = self.tm.c(64, m as u128);
                        let bad = self.tm.ult(c, n);
                        let (f, _) = self.feasible(st, bad)?;
                        if f {
                            return Err("symbolic memcmp may overrun".into());
                        }
                        nm = m;
                    }
                }
                if nm == 0 {
                    return bv(self.tm.c(rw, 0));
                }
                if !sym && matches!(i, Intr::Bcmp) {
                    let a = self.read_span(st, p, nm)?;
                    let b = self.read_span(st, q, nm)?;
                    let e = self.cells_eq(&a, &b);
                    let z = self.tm.c(rw, 0);
                    let o = self.tm.c(rw, 1);
                    return bv(self.tm.ite(e, z, o));
                }
                let mut r = self.tm.c(rw, 0);
                let m1 = self.tm.c(rw, mask(rw));
                let p1 = self.tm.c(rw, 1);
                for j in (0..nm).rev() {
                    let a = self.tm.addc(p, j as u128);
                    let b = self.tm.addc(q, j as u128);
                    let cj = self.tm.c(64, j as u128);
                    let gd = self.tm.ult(cj, n);
                    let (x, y) = match (self.load_cells(st, a, 1), self.load_cells(st, b, 1)) {
                        (Ok(x), Ok(y)) => (x[0], y[0]),
                        (Err(e), _) | (_, Err(e)) => {
                            let (f, _) = self.feasible(st, gd)?;
                            if f {
                                return Err(e);
                            }
                            continue;
                        }
                    };
                    let (x, y) = (self.byte(x), self.byte(y));
                    let e = self.tm.eq(x, y);
                    let l = self.tm.ult(x, y);
                    let d = if matches!(i, Intr::Bcmp) { p1 } else { self.tm.ite(l, m1, p1) };
                    let v = self.tm.ite(e, r, d);
                    r = self.tm.ite(gd, v, r);
                }
                bv(r)
            }
            Intr::Strlen => {
                let p = arg!(0);
                let mut n = 0u64;
                loop {
                    let a = self.tm.addc(p, n as u128);
                    let c = self.load_cells(st, a, 1)?;
                    let b = self.byte(c[0]);
                    match self.tm.as_const(b) {
                        Some(0) => break,
                        Some(_) => n += 1,
                        None => return Err("strlen of symbolic".into()),
                    }
                }
                bv(self.tm.c(64, n as u128))
            }
            Intr::LifeStart | Intr::LifeEnd => {
                let p = av.len() - 1;
                let p = arg!(p);
                if let Some(c) = self.tm.as_const(p) {
                    let (slot, off) = Self::split(c as u64);
                    if off == 0 && slot >= STACK_BASE && slot < HEAP_BASE {
                        if let Some(o) = st.mem.get(&slot) {
                            let n = o.cells.len();
                            if o.cells.iter().any(|c| *c != UCELL) {
                                st.mem.insert(slot, Rc::new(Obj { cells: vec![UCELL; n] }));
                            }
                        }
                    }
                }
                none
            }
            Intr::FormatInner => {
                // an empty String { cap: 0, ptr: 1, len: 0 }: message texts are not part of any property
                self.stubs.insert("alloc::fmt::format (error message text)".into());
                let p = arg!(0);
                for (o, v) in [(0u128, 0u128), (8, 1), (16, 0)] {
                    let a = self.tm.addc(p, o);
                    let c = self.tm.c(64, v);
                    self.store(st, &Ty::Int(64), &Val::Bv(c), a)?;
                }
                none
            }
            Intr::IntFmt => {
                self.stubs.insert("integer Display/Debug formatting".into());
                bv(self.tm.c(rw, 0))
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let (x, y) = (arg!(0), arg!(1));
                bv(self.minmax(i, x, y))
            }
            Intr::UsubSat => {
                let (x, y) = (arg!(0), arg!(1));
                let c = self.tm.ult(x, y);
                let z = self.tm.c(rw, 0);
                let d = self.tm.sub(x, y);
                bv(self.tm.ite(c, z, d))
            }
            Intr::UaddSat => {
                let (x, y) = (arg!(0), arg!(1));
                let s = self.tm.add(x, y);
                let c = self.tm.ult(s, x);
                let z = self.tm.c(rw, mask(rw));
                bv(self.tm.ite(c, z, s))
            }
            Intr::Abs => {
                let x = arg!(0);
                let z = self.tm.c(rw, 0);
                let n = self.tm.sub(z, x);
                let s = self.tm.slt(x, z);
                bv(self.tm.ite(s, n, x))
            }
            Intr::Bswap => {
                let x = arg!(0);
                bv(self.tm.bswap(x))
            }
            Intr::Bitrev => {
                let x = arg!(0);
                bv(self.tm.bitrev(x))
            }
            Intr::Ctlz => {
                let x = arg!(0);
                let r = self.tm.ctlz(x);
                if st.nomerge == 2 {
                    return self.fork_values(st, r, false);
                }
                bv(r)
            }
            Intr::Cttz => {
                let x = arg!(0);
                let r = self.tm.cttz(x);
                if st.nomerge == 2 {
                    return self.fork_values(st, r, false);
                }
                bv(r)
            }
            Intr::Ctpop => {
                let x = arg!(0);
                bv(self.tm.ctpop(x))
            }
            Intr::Fshl => {
                let (x, y, z) = (arg!(0), arg!(1), arg!(2));
                bv(self.tm.fshl(x, y, z))
            }
            Intr::Fshr => {
                let (x, y, z) = (arg!(0), arg!(1), arg!(2));
                bv(self.tm.fshr(x, y, z))
            }
            Intr::AddOv(s) | Intr::SubOv(s) | Intr::MulOv(s) => {
                let (x, y) = (arg!(0), arg!(1));
                let w = self.tm.w(x);
                let tm = &mut self.tm;
                let (r, o) = match i {
                    Intr::AddOv(_) => {
                        let r = tm.add(x, y);
                        let o = if *s {
                            let z = tm.c(w, 0);
                            let a = tm.slt(r, x);
                            let b = tm.slt(y, z);
                            tm.xor2(a, b)
                        } else {
                            // carry out of a wider addition when the operands are known to be small
                            if tm.n[x as usize].hi.checked_add(tm.n[y as usize].hi).map_or(false, |h| h <= mask(w)) {
                                tm.c(1, 0)
                            } else {
                                tm.ult(r, x)
                            }
                        };
                        (r, o)
                    }
                    Intr::SubOv(_) => {
                        let r = tm.sub(x, y);
                        let o = if *s {
                            let z = tm.c(w, 0);
                            let a = tm.slt(x, r);
                            let b = tm.slt(y, z);
                            // overflow iff (y>=0 and r > x) or (y<0 and r < x)
                            let nb = tm.not(b);
                            let p = tm.and2(nb, a);
                            let c = tm.slt(r, x);
                            let q = tm.and2(b, c);
                            tm.or2(p, q)
                        } else {
                            tm.ult(x, y)
                        };
                        (r, o)
                    }
                    _ => {
                        let r = tm.mul(x, y);
                        let o = if *s {
                            if w > 64 {
                                return self.smul_wide(st, x, y, r, w);
                            }
                            let (a, b) = (tm.sext(x, 2 * w), tm.sext(y, 2 * w));
                            let p = tm.mul(a, b);
                            let rr = tm.sext(r, 2 * w);
                            tm.ne(p, rr)
                        } else {
                            umul_ov(tm, x, y, r, w)?
                        };
                        (r, o)
                    }
                };
                Ok(Some(Val::Agg(Rc::new(vec![Val::Bv(r), Val::Bv(o)]))))
            }
            Intr::Ucmp | Intr::Scmp => {
                let (x, y) = (arg!(0), arg!(1));
                let tm = &mut self.tm;
                let l = if matches!(i, Intr::Ucmp) { tm.ult(x, y) } else { tm.slt(x, y) };
                let e = tm.eq(x, y);
                let m1 = tm.c(rw, mask(rw));
                let z = tm.c(rw, 0);
                let o = tm.c(rw, 1);
                let r = tm.ite(e, z, o);
                bv(tm.ite(l, m1, r))
            }
            Intr::IsConst => bv(self.tm.c(1, 0)),
            Intr::TlAddr | Intr::Expect => {
                let x = arg!(0);
                bv(x)
            }
            Intr::LoadRel => Err("load.relative".into()),
            Intr::SymBytes => {
                let (p, n) = (arg!(0), arg!(1));
                let n = self.tm.as_const(n).ok_or("sym_bytes length must be concrete")? as u32;
                let mut cells = Vec::with_capacity(n as usize);
                for j in 0..n {
                    let idx = st.nsym + j;
                    let t = if let Some(c) = &self.cfg.concrete {
                        let v = c.get(idx as usize).cloned().unwrap_or(0);
                        self.tm.c(8, v as u128)
                    } else {
                        self.tm.var(idx, 8)
                    };
                    cells.push(Cell { t, i: 0 });
                }
                st.nsym += n;
                self.max_nsym = self.max_nsym.max(st.nsym);
                if n > 0 {
                    self.write_span(st, p, &cells)?;
                }
                none
            }
            Intr::SymAssume => {
                let c = arg!(0);
                let (f, m) = self.feasible(st, c)?;
                if !f {
                    self.stats.paths += 1;
                    return Ok(None);
                }
                self.constrain(st, c, m);
                none
            }
            Intr::SymCheck => {
                let c = arg!(0);
                let id = arg!(1);
                let id = self.tm.as_const(id).ok_or("check id")? as i64;
                self.prove(st, c, "check", id)?;
                none
            }
            Intr::SymCheckEq => {
                let (p, q, n, id) = (arg!(0), arg!(1), arg!(2), arg!(3));
                let n = self.tm.as_const(n).ok_or("check_eq length")? as usize;
                let id = self.tm.as_const(id).ok_or("check id")? as i64;
                if n == 0 {
                    self.stats.checks += 1;
                    *self.checked_ids.entry(id).or_default() += 1;
                    return none;
                }
                let a = self.read_span(st, p, n)?;
                let b = self.read_span(st, q, n)?;
                let e = self.cells_eq(&a, &b);
                self.prove(st, e, "check_eq", id)?;
                none
            }
            Intr::SymPanicOk => {
                st.panic_ok = arg!(0);
                none
            }
            Intr::SymReach => {
                let id = arg!(0);
                let id = self.tm.as_const(id).ok_or("reach id")? as i64;
                if !st.models.is_empty() {
                    *self.reached.entry(id).or_default() += 1;
                } else {
                    let t = self.tm.c(1, 1);
                    let roots = st.pc.clone();
                    let _ = t;
                    let (r, m) = self.sat(&roots);
                    if r == Res::Sat {
                        *self.reached.entry(id).or_default() += 1;
                        let m = self.mk_model(st, m);
                        st.models.push(m);
                    }
                }
                none
            }
            Intr::SymNoMerge => {
                let c = arg!(0);
                let c = self.tm.as_const(c).ok_or("sym_nomerge mode")? as u8;
                self.asked_join = self.asked_join.max(c);
                st.nomerge = self.cfg.force_join.unwrap_or(c);
                none
            }
            Intr::SymSplit => {
                // like concretize, and the paths stay apart for good
                let x = arg!(0);
                self.fork_values(st, x, true)
            }
            Intr::SymConcretize => {
                let x = arg!(0);
                let _ = g;
                self.fork_values(st, x, false)
            }
            Intr::SymOut => {
                let (p, n) = (arg!(0), arg!(1));
                if self.cfg.concrete.is_some() {
                    let n = self.tm.as_const(n).ok_or("sym_out length")? as usize;
                    if n > 0 {
                        let c = self.read_span(st, p, n)?;
                        st.out.extend_from_slice(&c);
                    }
                }
                none
            }
            Intr::Trap | Intr::None => unreachable!(),
        }
    }
    /// fork over every feasible value of x, which is the result of the current instruction
    /// replace a term by another in everything the state holds
    fn subst_term(&mut self, t: T, from: T, to: T, memo: &mut FxMap<T, T>) -> T {
        if t == UNDEF || self.tm.as_const(t).is_some() {
            return t;
        }
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        memo.insert(from, to);
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            // children are older terms: what is older than `from` cannot contain it
            if x < from {
                memo.insert(x, x);
                stack.pop();
                continue;
            }
            let mut ch = vec![];
            self.tm.children(x, &mut ch);
            let mut ready = true;
            for &y in ch.iter() {
                if !memo.contains_key(&y) {
                    stack.push(y);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let nc: Vec<T> = ch.iter().map(|y| memo[y]).collect();
            let r = if nc[..] == ch[..] { x } else { self.tm.rebuild(x, &nc) };
            memo.insert(x, r);
        }
        memo[&t]
    }
    fn subst_val(&mut self, v: &Val, from: T, to: T, memo: &mut FxMap<T, T>) -> Val {
        match v {
            Val::Bv(t) => Val::Bv(self.subst_term(*t, from, to, memo)),
            Val::Agg(a) => {
                let n: Vec<Val> = a.iter().map(|x| self.subst_val(x, from, to, memo)).collect();
                Val::Agg(Rc::new(n))
            }
            Val::Undef => Val::Undef,
        }
    }
    fn subst_state(&mut self, st: &mut State, from: T, to: T) {
        let mut memo: FxMap<T, T> = FxMap::default();
        for fi in 0..st.frames.len() {
            for r in 0..st.frames[fi].regs.len() {
                let v = st.frames[fi].regs[r].clone();
                match v {
                    Val::Undef => {}
                    Val::Bv(t) if t == UNDEF || self.tm.as_const(t).is_some() => {}
                    v => {
                        let n = self.subst_val(&v, from, to, &mut memo);
                        st.frames[fi].regs[r] = n;
                    }
                }
            }
        }
        let slots: Vec<u64> = st.mem.keys().cloned().collect();
        for s in slots {
            let o = st.mem[&s].clone();
            let mut cells: Option<Vec<Cell>> = None;
            let mut last = (UNDEF, UNDEF);
            for (i, c) in o.cells.iter().enumerate() {
                if c.t == UNDEF {
                    continue;
                }
                if last.0 != c.t {
                    last = (c.t, self.subst_term(c.t, from, to, &mut memo));
                }
                if last.1 != c.t {
                    cells.get_or_insert_with(|| o.cells.clone())[i].t = last.1;
                }
            }
            if let Some(cells) = cells {
                st.mem.insert(s, Rc::new(Obj { cells }));
            }
        }
        let pc = st.pc.clone();
        let mut npc = vec![];
        for p in pc {
            let n = self.subst_term(p, from, to, &mut memo);
            if !self.tm.is_true(n) {
                npc.push(n);
            }
        }
        st.pc = npc;
    }
    /// fork over the values of a size, each state with the value in place of the symbolic size,
    /// about to execute the same instruction; false if there are too many
    fn pin(&mut self, st: &mut State, n: T) -> Result<bool, String> {
        // the smallest term that determines the size
        let mut x = n;
        loop {
            let k = self.tm.key(x);
            let next = match k.op {
                Op::Lin if k.args.len() == 1 && k.cs[1] == 1 => k.args[0],
                Op::Concat => {
                    let mut ch = vec![];
            self.tm.children(x, &mut ch);
                    let nz: Vec<T> = ch.iter().cloned().filter(|&c| self.tm.as_const(c).is_none()).collect();
                    if nz.len() != 1 {
                        break;
                    }
                    nz[0]
                }
                _ => break,
            };
            x = next;
        }
        let w = self.tm.w(x);
        let mut rest = st.clone();
        let mut vals = vec![];
        loop {
            let m = match rest.models.first() {
                Some(m) => m.clone(),
                None => {
                    let roots = rest.pc.clone();
                    let (r, m) = self.sat(&roots);
                    match r {
                        Res::Unsat => break,
                        Res::Unknown => return Err("size: no answer".into()),
                        Res::Sat => self.mk_model(&rest, m),
                    }
                }
            };
            let v = m.eval(&self.tm, x);
            let c = self.tm.c(w, v);
            let e = self.tm.eq(x, c);
            vals.push((c, e, m));
            if vals.len() > 70 {
                return Ok(false);
            }
            let ne = self.tm.not(e);
            self.constrain(&mut rest, ne, None);
            if self.tm.is_true(e) {
                break;
            }
        }
        for (c, e, m) in vals {
            let mut s = st.clone();
            self.subst_state(&mut s, x, c);
            self.constrain(&mut s, e, Some(m));
            self.enqueue_nomerge(s);
        }
        self.stats.forks += 1;
        Ok(true)
    }
    fn fork_values(&mut self, st: &mut State, x: T, tag: bool) -> Result<Option<Val>, String> {
                if self.tm.as_const(x).is_some() {
                    return Ok(Some(Val::Bv(x)));
                }
                // fork over every feasible value
                let w = self.tm.w(x);
                let fi = st.frames.len() - 1;
                let fr = &st.frames[fi];
                let dst = fr.f.blocks[fr.block as usize].insts[fr.idx as usize].0;
                let mut rest = st.clone();
                let mut count = 0;
                loop {
                    let one = self.tm.c(1, 1);
                    let m = match rest.models.first() {
                        Some(m) => m.clone(),
                        None => {
                            let roots = rest.pc.clone();
                            let (r, m) = self.sat(&roots);
                            match r {
                                Res::Unsat => break,
                                Res::Unknown => return Err("concretize: no answer".into()),
                                Res::Sat => {
                                    let m = self.mk_model(&rest, m);
                                    rest.models.push(m.clone());
                                    m
                                }
                            }
                        }
                    };
                    let _ = one;
                    let v = m.eval(&self.tm, x);
                    let c = self.tm.c(w, v);
                    let e = self.tm.eq(x, c);
                    let mut s = rest.clone();
                    self.constrain(&mut s, e, Some(m));
                    if let Some(d) = dst {
                        s.frames[fi].regs[d as usize] = Val::Bv(c);
                    }
                    if tag {
                        s.tags.push(v as u64);
                    }
                    s.frames[fi].idx += 1;
                                        // keep the values apart: distinct keys are not available, so these states only
                    // merge again at the next common point
                    self.enqueue_nomerge(s);
                    let ne = self.tm.not(e);
                    self.constrain(&mut rest, ne, None);
                    if self.tm.is_true(e) {
                        break;
                    }
                    count += 1;
                    if count > 4096 {
                        return Err("concretize: too many values".into());
                    }
                }
                self.stats.forks += 1;
                Ok(None)
            }
    fn enqueue_nomerge(&mut self, st: State) {
        let key = self.key(&st);
        self.nwork += 1;
        self.work.entry(key).or_default().push(st);
    }
    fn cells_eq(&mut self, a: &[Cell], b: &[Cell]) -> T {
        let n = a.len();
        let mut es = vec![];
        let mut i = 0;
        while i < n {
            if a[i] == b[i] {
                i += 1;
                continue;
            }
            let mut len = self.whole(a, i).max(self.whole(b, i)).max(1);
            if i + len > n {
                len = 1;
            }
            let x = self.assemble(&a[i..i + len]);
            let y = self.assemble(&b[i..i + len]);
            let z = self.tm.c(8 * len as u16, 0);
            let e = self.tm.eq(x.unwrap_or(z), y.unwrap_or(z));
            es.push(e);
            i += len;
        }
        if es.is_empty() {
            return self.tm.c(1, 1);
        }
        self.tm.and(&es, 1)
    }
}

impl Engine {
    /// signed multiplication with overflow of more than 64 bits
    fn smul_wide(&mut self, st: &mut State, x: T, y: T, r: T, w: u16) -> Result<Option<Val>, String> {
        let tm = &mut self.tm;
        let small = |tm: &mut Terms, v: T| {
            let l = tm.extract(v, w / 2 - 1, 0);
            let s = tm.sext(l, w);
            tm.eq(s, v)
        };
        let (sx, sy) = (small(tm, x), small(tm, y));
        let both = tm.and2(sx, sy);
        let big = tm.not(both);
        let mut o = tm.c(1, 0);
        if self.feasible(st, big)?.0 {
            let tm = &mut self.tm;
            let z = tm.c(w, 0);
            let (nx, ny) = (tm.slt(x, z), tm.slt(y, z));
            let (mx, my) = (tm.sub(z, x), tm.sub(z, y));
            let (ax, ay) = (tm.ite(nx, mx, x), tm.ite(ny, my, y));
            let p = tm.mul(ax, ay);
            let wrap = umul_ov(tm, ax, ay, p, w)?;
            let neg = tm.xor2(nx, ny);
            // the magnitude may reach 2^(w-1) when the product is negative, and stays below otherwise
            let half = tm.c(w, 1u128 << (w - 1));
            let over = tm.ult(half, p);
            let at = tm.eq(p, half);
            let pos = tm.not(neg);
            let atp = tm.and2(at, pos);
            let out = tm.or2(over, atp);
            let any = tm.or2(wrap, out);
            o = tm.and2(big, any);
        }
        Ok(Some(Val::Agg(Rc::new(vec![Val::Bv(r), Val::Bv(o)]))))
    }
}

fn umul_ov(tm: &mut Terms, x: T, y: T, r: T, w: u16) -> Result<T, String> {
    let (hx, hy) = (tm.n[x as usize].hi, tm.n[y as usize].hi);
    if let Some(p) = hx.checked_mul(hy) {
        if p <= mask(w) {
            return Ok(tm.c(1, 0));
        }
    }
    if w <= 64 {
        let (a, b) = (tm.zext(x, 2 * w), tm.zext(y, 2 * w));
        let p = tm.mul(a, b);
        let h = tm.extract(p, 2 * w - 1, w);
        let z = tm.c(w, 0);
        return Ok(tm.ne(h, z));
    }
    // x != 0 && r / x != y
    let z = tm.c(w, 0);
    let nz = tm.ne(x, z);
    let q = tm.div(Op::UDiv, r, x);
    let ne = tm.ne(q, y);
    Ok(tm.and2(nz, ne))
}

fn insert(v: &Val, idx: &[u32], x: Val) -> Val {
    if idx.is_empty() {
        return x;
    }
    match v {
        Val::Agg(a) => {
            let mut b = (**a).clone();
            b[idx[0] as usize] = insert(&a[idx[0] as usize], &idx[1..], x);
            Val::Agg(Rc::new(b))
        }
        _ => panic!("insertvalue into scalar"),
    }
}

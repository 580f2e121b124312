//! Symbolic executor: depth-first over program paths, states are cloned at forks.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}
use Val::*;

/// Why the current path stops.
pub enum Stop {
    Done,            // harness returned
    Pruned,          // assumption false
    Bug(String),     // property violated (panic, assertion, trap)
    Engine(String),  // outside what the engine models: inconclusive
}
type R<T> = Result<T, Stop>;
fn eng<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Engine(s.into()))
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<CFunc>,
    base: usize,
    blk: u32,
    ip: u32,
    sp: u64,
    dst: Option<u32>,
    normal: Option<u32>,
}

pub struct CFunc {
    pub f: Func,
    // per block: list of (pred, assignments)
    phis: Vec<Vec<(u32, Vec<(u32, Op)>)>>,
    hook: Hook,
    tracked: bool,
}

#[derive(Clone)]
pub enum LogVal {
    C(u64),
    S(E),
    Bytes(Vec<(u8, E)>),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    mem: Mem,
    heap: u64,
    sp: u64,
    pc: Vec<E>,
    known: HashMap<E, u128>,
    /// values which constraints over this byte alone leave possible
    dom: HashMap<u32, [u64; 4]>,
    model: Model,
    names: BTreeMap<String, u32>, // per-path occurrence counters
    order: Vec<(u32, String)>,    // variables created on this path
    pub log: Vec<(String, LogVal)>,
    covers: BTreeSet<String>,
    steps: u64,
    depth: u32,
    tick: u64,
    keys: u32,
    tls: BTreeMap<u32, u64>,
    limits: [(u64, u64); 0],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Hook {
    None,
    Nop,
    PanicFmt,
    Panic,
    IntFmt,
    RandomKeys,
    HashOne,
    SipWrite,
    Ext,
}

pub struct Violation {
    pub what: String,
    pub trace: Vec<String>,
    pub model: Vec<(String, u128)>,
    pub log: Vec<String>,
}
pub struct Sample {
    pub model: Vec<(String, u128)>,
    pub log: Vec<String>,
}

pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub insts: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub max_steps: u64,
    pub concretizations: u64,
    pub max_syms: usize,
    pub tabled: u64,
}

pub struct Exec {
    pub m: Module,
    fns: Vec<Option<Rc<CFunc>>>,
    pub ar: Arena,
    pub sol: Solver,
    tables: HashMap<E, [u64; 4]>,
    pub work: Vec<State>,
    pub params: Vec<u64>,
    pub st: Stats,
    pub covers: BTreeMap<String, u64>,
    pub used: HashSet<u32>,
    pub assumes: BTreeSet<String>,
    pub samples: Vec<Sample>,
    pub sample_every: u64,
    pub max_samples: usize,
    pub max_steps: u64,
    pub max_paths: u64,
    pub deadline: std::time::Instant,
    pub verbose: bool,
    var_ix: HashMap<(String, u16), E>,
    aslots: Vec<(u64, Val)>,
    zero_addr: u64,
    pub track: String,
}

#[inline]
fn m64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx(v: u64, w: u16) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl Exec {
    pub fn new(m: Module, sol: Solver) -> Exec {
        let n = m.fns.len();
        Exec {
            m,
            fns: (0..n).map(|_| None).collect(),
            ar: Arena::new(),
            sol,
            tables: HashMap::new(),
            work: vec![],
            params: vec![],
            st: Stats { tabled: 0,
                paths: 0,
                pruned: 0,
                forks: 0,
                insts: 0,
                asserts: 0,
                asserts_solver: 0,
                max_steps: 0,
                concretizations: 0,
                max_syms: 0,
            },
            covers: BTreeMap::new(),
            used: HashSet::new(),
            assumes: BTreeSet::new(),
            samples: vec![],
            sample_every: 1,
            max_samples: 20,
            max_steps: 60_000_000,
            max_paths: u64::MAX,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            verbose: false,
            var_ix: HashMap::new(),
            aslots: vec![],
            zero_addr: 0,
            track: "tchannel_rs".into(),
        }
    }

    // ------------------------------------------------------------ set-up
    fn cv_store(&mut self, mem: &mut Mem, addr: u64, t: &Ty, v: &CV) {
        match v {
            CV::Int(x, w) => {
                let n = ((*w as usize) + 7) / 8;
                if *x != 0 {
                    mem.write_conc(addr, *x, n);
                }
            }
            CV::Agg(vs) => {
                if let Ty::Vec(_, et) = t {
                    let s = et.size();
                    for (i, x) in vs.iter().enumerate() {
                        self.cv_store(mem, addr + s * i as u64, et, x);
                    }
                    return;
                }
                for (i, x) in vs.iter().enumerate() {
                    let ft = t.field(i).clone();
                    let off = t.field_off(i);
                    self.cv_store(mem, addr + off, &ft, x);
                }
            }
        }
    }
    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let mut mem = Mem::default();
        let zero = (self.m.globals_end + 63) / 64 * 64;
        self.zero_addr = zero;
        mem.grow(zero + 64);
        mem.grow(STACK_BASE + (4 << 20));
        mem.grow(HEAP_BASE + 4096);
        for gi in 0..self.m.globals.len() {
            if let Some(cv) = self.m.global_init(gi)? {
                let (a, t) = (self.m.globals[gi].addr, self.m.globals[gi].ty.clone());
                self.cv_store(&mut mem, a, &t, &cv);
            }
        }
        let id = *self.m.fn_ix.get(entry).ok_or_else(|| format!("no entry function {}", entry))?;
        let cf = match self.func(id) {
            Ok(f) => f,
            Err(Stop::Engine(e)) => return Err(e),
            Err(_) => return Err("entry".into()),
        };
        let nregs = cf.f.nregs as usize;
        let st = State {
            frames: vec![Frame { f: cf, base: 0, blk: 0, ip: 0, sp: STACK_BASE, dst: None, normal: None }],
            regs: vec![C(0); nregs],
            mem,
            heap: HEAP_BASE + 64,
            sp: STACK_BASE,
            pc: vec![],
            known: HashMap::new(),
            dom: HashMap::new(),
            model: Model::default(),
            names: BTreeMap::new(),
            order: vec![],
            log: vec![],
            covers: BTreeSet::new(),
            steps: 0,
            depth: 0,
            tick: 1_000_000_000_000,
            keys: 0,
            tls: BTreeMap::new(),
            limits: [],
        };
        Ok(st)
    }

    fn func(&mut self, id: u32) -> R<Rc<CFunc>> {
        if let Some(f) = &self.fns[id as usize] {
            return Ok(f.clone());
        }
        let name = self.m.fns[id as usize].name.clone();
        let has_body = self.m.fns[id as usize].body.is_some();
        let hook = hook_of(&name, has_body);
        let f = if has_body && matches!(hook, Hook::None | Hook::IntFmt) {
            match self.m.parse_fn(id) {
                Ok(f) => f,
                Err(e) => return eng(format!("IR parse: {}", e)),
            }
        } else {
            Func { id, name: name.clone(), params: vec![], nregs: 0, blocks: vec![], ninsts: 0 }
        };
        let mut phis = vec![];
        for b in &f.blocks {
            let mut by: Vec<(u32, Vec<(u32, Op)>)> = vec![];
            for p in &b.phis {
                for (pr, op) in &p.inc {
                    match by.iter_mut().find(|x| x.0 == *pr) {
                        Some(x) => {
                            if !x.1.iter().any(|y| y.0 == p.dst) {
                                x.1.push((p.dst, op.clone()))
                            }
                        }
                        None => by.push((*pr, vec![(p.dst, op.clone())])),
                    }
                }
            }
            phis.push(by);
        }
        let hook = if !has_body && hook == Hook::None { Hook::Ext } else { hook };
        let tracked = name.contains(&self.track);
        let cf = Rc::new(CFunc { f, phis, hook, tracked });
        self.fns[id as usize] = Some(cf.clone());
        Ok(cf)
    }

    // ------------------------------------------------------------ values
    pub fn to_e(&mut self, v: &Val, w: u16) -> E {
        match v {
            C(x) => self.ar.konst(*x as u128, w),
            W(x) => self.ar.konst(**x, w),
            S(e) => *e,
            A(xs) => {
                // vector: concatenate elements
                let n = xs.len() as u16;
                let ew = w / n;
                let mut acc: Option<E> = None;
                for x in xs.iter() {
                    let e = self.to_e(x, ew);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.ar.concat(e, a),
                    });
                }
                acc.unwrap()
            }
        }
    }
    pub fn from_e(&mut self, e: E) -> Val {
        match self.ar.as_const(e) {
            Some(v) => {
                if self.ar.w(e) <= 64 {
                    C(v as u64)
                } else {
                    W(Rc::new(v))
                }
            }
            None => S(e),
        }
    }
    fn from_bits(&mut self, e: E, t: &Ty) -> Val {
        match t {
            Ty::Vec(n, et) => {
                let ew = et.bits();
                let mut v = vec![];
                for i in 0..*n {
                    let x = self.ar.extract(e, i as u16 * ew, ew);
                    v.push(self.from_e(x));
                }
                A(Rc::new(v))
            }
            _ => self.from_e(e),
        }
    }
    fn conc128(v: &Val) -> Option<u128> {
        match v {
            C(x) => Some(*x as u128),
            W(x) => Some(**x),
            _ => None,
        }
    }
    fn cv_val(v: &CV) -> Val {
        match v {
            CV::Int(x, w) => {
                if *w <= 64 {
                    C(*x as u64)
                } else {
                    W(Rc::new(*x))
                }
            }
            CV::Agg(vs) => A(Rc::new(vs.iter().map(Self::cv_val).collect())),
        }
    }
    #[inline]
    fn op(&self, st: &State, base: usize, o: &Op) -> Val {
        match o {
            Op::Reg(r) => st.regs[base + *r as usize].clone(),
            Op::C(v, _) => C(*v),
            Op::Wide(v, _) => W(Rc::new(*v)),
            Op::Agg(vs) => A(Rc::new(vs.iter().map(Self::cv_val).collect())),
        }
    }

    // ------------------------------------------------------------ path condition
    fn slice(&mut self, pc: &[E], seed: E) -> Vec<E> {
        let mut vars: HashSet<u32> = self.ar.vars(seed).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let pv: Vec<Rc<Vec<u32>>> = pc.iter().map(|e| self.ar.vars(*e)).collect();
        let mut out = vec![seed];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if used[i] {
                    continue;
                }
                if pv[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    out.push(pc[i]);
                    vars.extend(pv[i].iter());
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// is pc && c satisfiable; the model extends st.model
    fn sat(&mut self, st: &State, c: E) -> R<Option<Model>> {
        match self.ar.as_const(c) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(st.model.clone())),
            None => {}
        }
        if self.ar.eval(c, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        if let Some(r) = self.table_sat(st, c) {
            self.st.tabled += 1;
            return Ok(r);
        }
        self.solve(st, c)
    }
    fn solve(&mut self, st: &State, c: E) -> R<Option<Model>> {
        let q = self.slice(&st.pc, c);
        match self.sol.check(&mut self.ar, &q, &st.model) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown(r) => eng(format!("solver gave no answer: {}", r)),
        }
    }
    /// Truth table of a condition over one byte.
    fn table(&mut self, v: u32, c: E) -> [u64; 4] {
        if let Some(t) = self.tables.get(&c) {
            return *t;
        }
        let mut t = [0u64; 4];
        let w = self.ar.var_width[v as usize];
        let mut m = Model::default();
        for x in 0..1u128 << w {
            m.set(v, x);
            if self.ar.eval(c, &m) == 1 {
                t[x as usize / 64] |= 1 << (x % 64);
            }
        }
        self.tables.insert(c, t);
        t
    }
    fn single(&mut self, c: E) -> Option<u32> {
        let v = self.ar.vars(c);
        if v.len() == 1 && self.ar.var_width[v[0] as usize] == 8 {
            Some(v[0])
        } else {
            None
        }
    }
    /// Decides feasibility when, bytes with a single possible value aside, only one byte matters.
    fn table_sat(&mut self, st: &State, c: E) -> Option<Option<Model>> {
        let fixed = |v: u32| st.dom.get(&v).map(|d| d.iter().map(|x| x.count_ones()).sum::<u32>() == 1).unwrap_or(false);
        let cv = self.ar.vars(c);
        let mut free: Vec<u32> = cv.iter().copied().filter(|v| !fixed(*v)).collect();
        if free.len() > 1 || free.iter().any(|v| self.ar.var_width[*v as usize] != 8) {
            return None;
        }
        if free.is_empty() {
            // the model has the only possible values, and it does not satisfy the condition
            return Some(None);
        }
        let v = free.pop().unwrap();
        let mut d = st.dom.get(&v).copied().unwrap_or([u64::MAX; 4]);
        let mut multi = vec![];
        if cv.len() == 1 {
            let t = self.table(v, c);
            for i in 0..4 {
                d[i] &= t[i];
            }
        } else {
            multi.push(c);
        }
        for e in st.pc.iter() {
            let ev = self.ar.vars(*e);
            if ev.len() > 1 && ev.contains(&v) {
                if ev.iter().any(|x| *x != v && !fixed(*x)) {
                    return None;
                }
                multi.push(*e);
            }
        }
        let mut m = st.model.clone();
        for x in 0..256usize {
            if d[x / 64] >> (x % 64) & 1 == 0 {
                continue;
            }
            m.set(v, x as u128);
            if multi.iter().all(|e| self.ar.eval(*e, &m) == 1) {
                return Some(Some(m));
            }
        }
        Some(None)
    }
    fn learn(&mut self, st: &mut State, c: E) {
        if self.ar.as_const(c).is_some() || st.known.get(&c) == Some(&1) {
            return;
        }
        st.known.insert(c, 1);
        let n = self.ar.node(c);
        match n.k {
            K::And if n.w == 1 => {
                self.learn(st, n.a);
                self.learn(st, n.b);
                return;
            }
            K::Eq => {
                if let Some(v) = self.ar.as_const(n.b) {
                    st.known.insert(n.a, v);
                } else if let Some(v) = self.ar.as_const(n.a) {
                    st.known.insert(n.b, v);
                }
            }
            K::Xor if n.w == 1 && self.ar.as_const(n.b) == Some(1) => {
                st.known.insert(n.a, 0);
                // not (a or b)
                let a = self.ar.node(n.a);
                if a.k == K::Or && a.w == 1 {
                    let x = self.ar.not1(a.a);
                    let y = self.ar.not1(a.b);
                    self.learn(st, x);
                    self.learn(st, y);
                    return;
                }
            }
            _ => {}
        }
        if let Some(v) = self.single(c) {
            let t = self.table(v, c);
            let d = st.dom.entry(v).or_insert([u64::MAX; 4]);
            for i in 0..4 {
                d[i] &= t[i];
            }
        }
        st.pc.push(c);
    }
    fn push_fork(&mut self, st: State) {
        self.st.forks += 1;
        self.work.push(st);
    }
    /// Decide a 1-bit value; may fork (the other side re-executes the current instruction).
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.ar.as_const(c) {
            return Ok(v == 1);
        }
        if let Some(v) = st.known.get(&c) {
            return Ok(*v == 1);
        }
        let nc = self.ar.not1(c);
        if st.known.get(&nc) == Some(&1) {
            return Ok(false);
        }
        let here = self.ar.eval(c, &st.model) == 1;
        let (mine, other) = if here { (c, nc) } else { (nc, c) };
        if let Some(m) = self.sat(st, other)? {
            let mut o = st.clone();
            o.model = m;
            self.learn(&mut o, other);
            self.push_fork(o);
            self.learn(st, mine);
        } else {
            st.known.insert(c, here as u128);
        }
        Ok(here)
    }
    /// Fork over every feasible value of `e`.
    fn conc(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(v) = self.ar.as_const(e) {
            return Ok(v);
        }
        if let Some(v) = st.known.get(&e) {
            return Ok(*v);
        }
        self.st.concretizations += 1;
        let w = self.ar.w(e);
        let v = self.ar.eval(e, &st.model);
        let k = self.ar.konst(v, w);
        let eq = self.ar.bin(K::Eq, e, k);
        let ne = self.ar.not1(eq);
        if let Some(m) = self.sat(st, ne)? {
            let mut o = st.clone();
            o.model = m;
            self.learn(&mut o, ne);
            self.push_fork(o);
            self.learn(st, eq);
        }
        st.known.insert(e, v);
        Ok(v)
    }
    fn cval(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            C(x) => Ok(*x),
            S(e) => Ok(self.conc(st, *e)? as u64),
            _ => eng("wide value used as scalar"),
        }
    }

    /// An allocation of a symbolic size gets a concrete size which is not smaller.
    fn csize(&mut self, st: &mut State, v: &Val) -> R<u64> {
        let e = match v {
            S(e) => *e,
            v => return self.cval(st, v),
        };
        if let Some(x) = self.ar.as_const(e) {
            return Ok(x as u64);
        }
        if let Some(v) = st.known.get(&e) {
            return Ok(*v as u64);
        }
        let w = self.ar.w(e);
        for k in [6u32, 10, 14, 17, 20, 22] {
            let b = self.ar.konst(1 << k, w);
            let c = self.ar.bin(K::Ult, b, e);
            if self.sat(st, c)?.is_none() {
                self.assumes.insert("an allocation of a symbolic size is as large as its bound".into());
                return Ok(1 << k);
            }
        }
        self.cval(st, v)
    }

    // ------------------------------------------------------------ memory
    fn check(&self, st: &State, a: u64, n: u64) -> R<()> {
        if st.mem.ok(a, n) {
            Ok(())
        } else {
            Err(Stop::Bug(format!("invalid memory access at {:#x} (+{})", a, n)))
        }
    }
    fn load(&mut self, st: &State, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) => {
                let n = ((*w as usize) + 7) / 8;
                self.check(st, a, n as u64)?;
                if let Some(v) = st.mem.read_conc(a, n) {
                    return Ok(if *w <= 64 { C(v as u64 & m64(*w)) } else { W(Rc::new(v & mask(*w))) });
                }
                let e = st.mem.read_expr(&mut self.ar, a, n);
                let e = self.ar.extract(e, 0, *w);
                Ok(self.from_e(e))
            }
            Ty::Ptr | Ty::Double => self.load(st, a, &Ty::Int(64)),
            Ty::Float => self.load(st, a, &Ty::Int(32)),
            Ty::Vec(n, et) => {
                if et.bits() % 8 != 0 {
                    let e = self.load(st, a, &Ty::Int(t.bits()))?;
                    let x = self.to_e(&e, t.bits());
                    return Ok(self.from_bits(x, t));
                }
                let s = et.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(st, a + i * s, et)?);
                }
                Ok(A(Rc::new(v)))
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut v = vec![];
                for i in 0..t.nfields() {
                    let ft = t.field(i).clone();
                    v.push(self.load(st, a + t.field_off(i), &ft)?);
                }
                Ok(A(Rc::new(v)))
            }
            _ => eng(format!("load of {:?}", t)),
        }
    }
    fn store(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Int(w) => {
                let n = ((*w as usize) + 7) / 8;
                self.check(st, a, n as u64)?;
                match v {
                    C(x) => st.mem.write_conc(a, (*x & m64(*w)) as u128, n),
                    W(x) => st.mem.write_conc(a, **x & mask(*w), n),
                    S(e) => st.mem.write_expr(&mut self.ar, a, *e, n),
                    A(_) => return eng("store of aggregate as int"),
                }
                Ok(())
            }
            Ty::Ptr | Ty::Double => self.store(st, a, &Ty::Int(64), v),
            Ty::Float => self.store(st, a, &Ty::Int(32), v),
            Ty::Vec(n, et) => {
                if et.bits() % 8 != 0 {
                    let e = self.to_e(v, t.bits());
                    let x = self.from_e(e);
                    return self.store(st, a, &Ty::Int(t.bits()), &x);
                }
                if let A(xs) = v {
                    let s = et.size();
                    for i in 0..*n {
                        self.store(st, a + i * s, et, &xs[i as usize])?;
                    }
                    Ok(())
                } else {
                    eng("vector store")
                }
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                if let A(xs) = v {
                    for i in 0..t.nfields() {
                        let ft = t.field(i).clone();
                        self.store(st, a + t.field_off(i), &ft, &xs[i])?;
                    }
                    Ok(())
                } else {
                    eng("aggregate store")
                }
            }
            _ => eng(format!("store of {:?}", t)),
        }
    }
    /// Load through a symbolic address of the form const + f(x) with a small range of x: if-then-else over the table.
    fn load_table(&mut self, st: &State, ae: E, t: &Ty) -> R<Option<Val>> {
        let w = match t {
            Ty::Int(w) => *w,
            _ => return Ok(None),
        };
        let vars = self.ar.vars(ae);
        if vars.len() != 1 {
            return Ok(None);
        }
        // find the narrow sub-expression the address depends on
        let mut x = ae;
        let mut guard = 0;
        loop {
            guard += 1;
            if guard > 20 {
                return Ok(None);
            }
            let n = self.ar.node(x);
            if n.w <= 8 {
                break;
            }
            if self.ar.umax(x) < 256 && n.k != K::ZExt {
                break;
            }
            match n.k {
                K::Add | K::Mul | K::Shl | K::Sub if self.ar.as_const(n.b).is_some() => x = n.a,
                K::Add | K::Sub if self.ar.as_const(n.a).is_some() => x = n.b,
                K::ZExt | K::SExt => x = n.a,
                _ => return Ok(None),
            }
        }
        let xw = self.ar.w(x);
        let cnt = self.ar.umax(x).min(255) as u64 + 1;
        // evaluate the address as a function of x
        fn ev(ar: &Arena, e: E, x: E, v: u128) -> Option<u128> {
            if e == x {
                return Some(v);
            }
            let n = ar.node(e);
            match n.k {
                K::Const => Some(n.v),
                K::ZExt => ev(ar, n.a, x, v),
                K::SExt => Some(sext128(ev(ar, n.a, x, v)?, ar.w(n.a)) as u128 & mask(n.w)),
                K::Add | K::Sub | K::Mul | K::Shl => {
                    let a = ev(ar, n.a, x, v)?;
                    let b = ev(ar, n.b, x, v)?;
                    Some(apply(n.k, n.w, n.w, a, b))
                }
                _ => None,
            }
        }
        let nb = ((w as usize) + 7) / 8;
        let mut vals: Vec<Option<u128>> = vec![];
        for i in 0..cnt {
            let a = match ev(&self.ar, ae, x, i as u128) {
                Some(a) => a as u64,
                None => return Ok(None),
            };
            if !st.mem.ok(a, nb as u64) {
                vals.push(None);
                continue;
            }
            match st.mem.read_conc(a, nb) {
                Some(v) => vals.push(Some(v & mask(w))),
                None => return Ok(None),
            }
        }
        // all feasible x must be in range: ask the solver
        let last = match vals.iter().position(|v| v.is_none()) {
            None => cnt,
            Some(p) => p as u64,
        };
        if last == 0 {
            return Ok(None);
        }
        if last < (1u64 << xw.min(16)) || xw > 8 {
            let k = self.ar.konst(last as u128 - 1, xw);
            let out = self.ar.bin(K::Ult, k, x);
            if self.sat(st, out)?.is_some() {
                return Ok(None);
            }
        }
        // runs of equal values
        let mut e: Option<E> = None;
        let mut i = last as i64 - 1;
        while i >= 0 {
            let v = vals[i as usize];
            let mut j = i;
            while j > 0 && vals[j as usize - 1] == v {
                j -= 1;
            }
            let c = self.ar.konst(v.unwrap(), w);
            e = Some(match e {
                None => c,
                Some(rest) => {
                    let hi = self.ar.konst(i as u128, xw);
                    let cond = self.ar.bin(K::Ule, x, hi);
                    self.ar.ite(cond, c, rest)
                }
            });
            i = j - 1;
        }
        let e = e.unwrap();
        Ok(Some(self.from_e(e)))
    }

    fn alloc(&mut self, st: &mut State, n: u64, al: u64) -> u64 {
        let al = al.max(16);
        let mut a = st.heap + 16;
        a = (a + al - 1) / al * al;
        let end = a + n + 8;
        st.mem.grow(end);
        st.mem.write_conc(a - 8, n as u128, 8);
        st.heap = end;
        a
    }

    // ------------------------------------------------------------ symbolic inputs
    fn fresh(&mut self, st: &mut State, name: &str, w: u16) -> E {
        let c = st.names.entry(name.to_string()).or_insert(0);
        let full = format!("{}#{}", name, c);
        *c += 1;
        let e = match self.var_ix.get(&(full.clone(), w)) {
            Some(e) => *e,
            None => {
                let e = self.ar.new_var(&full, w);
                self.var_ix.insert((full.clone(), w), e);
                e
            }
        };
        st.order.push((self.ar.node(e).a, full));
        if st.order.len() > self.st.max_syms {
            self.st.max_syms = st.order.len();
        }
        e
    }
    fn str_arg(&self, st: &State, p: &Val, n: &Val) -> R<String> {
        match (p, n) {
            (C(p), C(n)) => match st.mem.bytes_conc(*p, *n) {
                Some(b) => Ok(String::from_utf8_lossy(&b).into_owned()),
                None => Ok("?".into()),
            },
            _ => Ok("?".into()),
        }
    }

    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| format!("{}", f.f.f.name)).collect()
    }
    pub fn model_of(&mut self, st: &State) -> Vec<(String, u128)> {
        st.order.iter().map(|(v, n)| (n.clone(), st.model.get(*v) & mask(self.ar.var_width[*v as usize]))).collect()
    }
    pub fn render_log(&mut self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for (t, v) in &st.log {
            let s = match v {
                LogVal::C(x) => format!("{}", x),
                LogVal::S(e) => format!("{}", self.ar.eval(*e, &st.model)),
                LogVal::Bytes(b) => {
                    let mut s = String::from("x");
                    for (x, e) in b {
                        let y = if *e != 0 { self.ar.eval(*e, &st.model) as u8 } else { *x };
                        s.push_str(&format!("{:02x}", y));
                    }
                    s
                }
            };
            out.push(format!("{}={}", t, s));
        }
        out
    }

    // ------------------------------------------------------------ main loop
    /// Explore every path. Ok(None) = all paths completed without a violation.
    pub fn explore(&mut self, first: State) -> Result<Option<Violation>, String> {
        self.work.push(first);
        while let Some(mut st) = self.work.pop() {
            if std::time::Instant::now() > self.deadline {
                return Err(format!("time limit reached after {} paths, {} pending", self.st.paths, self.work.len() + 1));
            }
            let r = self.run(&mut st);
            self.st.max_steps = self.st.max_steps.max(st.steps);
            match r {
                Stop::Done => {
                    self.st.paths += 1;
                    for c in &st.covers {
                        *self.covers.entry(c.clone()).or_insert(0) += 1;
                    }
                    if self.samples.len() < self.max_samples && self.st.paths % self.sample_every == 0 {
                        let model = self.model_of(&st);
                        let log = self.render_log(&st);
                        self.samples.push(Sample { model, log });
                        if self.samples.len() == self.max_samples {
                            // thin out: keep every other one, sample half as often
                            let mut k = 0;
                            self.samples.retain(|_| {
                                k += 1;
                                k % 2 == 1
                            });
                            self.sample_every *= 2;
                        }
                    }
                    if self.st.paths >= self.max_paths {
                        return Err(format!("path limit {} reached", self.max_paths));
                    }
                    if self.verbose && self.st.paths % 500 == 0 {
                        eprintln!(
                            "paths {} pruned {} pending {} insts {} queries {} (cached {}) solver {:.1}s",
                            self.st.paths,
                            self.st.pruned,
                            self.work.len(),
                            self.st.insts,
                            self.sol.queries,
                            self.sol.cached,
                            self.sol.time_ms / 1000.0
                        );
                    }
                }
                Stop::Pruned => {
                    self.st.pruned += 1;
                }
                Stop::Bug(what) => {
                    let trace = self.backtrace(&st);
                    let model = self.model_of(&st);
                    let log = self.render_log(&st);
                    return Ok(Some(Violation { what, trace, model, log }));
                }
                Stop::Engine(e) => {
                    let bt = self.backtrace(&st);
                    return Err(format!("{}\n  in {}", e, bt.join("\n     ")));
                }
            }
        }
        Ok(None)
    }

    fn run(&mut self, st: &mut State) -> Stop {
        loop {
            let fr = st.frames.last().unwrap();
            let f = fr.f.clone();
            let base = fr.base;
            match self.run_frame(st, &f, base) {
                Ok(()) => {
                    if st.frames.is_empty() {
                        return Stop::Done;
                    }
                }
                Err(s) => return s,
            }
        }
    }

    fn jump(&mut self, st: &mut State, f: &CFunc, base: usize, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        fr.blk = to;
        fr.ip = 0;
        let ph = &f.phis[to as usize];
        if !ph.is_empty() {
            for (p, asg) in ph {
                if *p == from {
                    if asg.len() == 1 {
                        let v = self.op(st, base, &asg[0].1);
                        st.regs[base + asg[0].0 as usize] = v;
                    } else {
                        let vals: Vec<Val> = asg.iter().map(|(_, o)| self.op(st, base, o)).collect();
                        for ((d, _), v) in asg.iter().zip(vals) {
                            st.regs[base + *d as usize] = v;
                        }
                    }
                    break;
                }
            }
        }
    }

    /// Runs instructions of the top frame until a call/return changes frames.
    fn run_frame(&mut self, st: &mut State, f: &Rc<CFunc>, base: usize) -> R<()> {
        loop {
            let fr = st.frames.last().unwrap();
            let (blk, ip) = (fr.blk as usize, fr.ip as usize);
            let ins = &f.f.blocks[blk].insts[ip];
            st.steps += 1;
            self.st.insts += 1;
            if self.st.insts & 0xffff == 0 {
                if st.steps > self.max_steps {
                    // a candidate: the replay decides whether it ends
                    return Err(Stop::Bug(format!("no end within {} instructions", self.max_steps)));
                }
                if std::time::Instant::now() > self.deadline {
                    return eng("time limit reached inside a path");
                }
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    st.regs[base + *$d as usize] = v;
                }};
            }
            match ins {
                I::Bin(k, t, a, b, d) => {
                    let x = self.op(st, base, a);
                    let y = self.op(st, base, b);
                    let v = self.bin(st, *k, t, &x, &y)?;
                    set!(d, v);
                }
                I::ICmp(p, t, a, b, d) => {
                    let x = self.op(st, base, a);
                    let y = self.op(st, base, b);
                    let v = self.icmp(*p, t, &x, &y)?;
                    set!(d, v);
                }
                I::Cast(k, t, t2, a, d) => {
                    let x = self.op(st, base, a);
                    let v = self.cast(st, *k, t, t2, &x)?;
                    set!(d, v);
                }
                I::Select(ct, c, t, a, b, d) => {
                    let c = self.op(st, base, c);
                    if let Ty::Vec(..) = ct {
                        let (x, y) = (self.op(st, base, a), self.op(st, base, b));
                        let et = t.field(0).clone();
                        if let (A(cs), A(xs), A(ys)) = (&c, &x, &y) {
                            let mut v = vec![];
                            for i in 0..cs.len() {
                                v.push(self.select(st, &cs[i], &et, &xs[i], &ys[i])?);
                            }
                            set!(d, A(Rc::new(v)));
                        } else {
                            return eng("vector select");
                        }
                    } else {
                        match &c {
                            C(v) => {
                                let r = if *v & 1 == 1 { self.op(st, base, a) } else { self.op(st, base, b) };
                                set!(d, r);
                            }
                            _ => {
                                let (x, y) = (self.op(st, base, a), self.op(st, base, b));
                                let v = self.select(st, &c, t, &x, &y)?;
                                set!(d, v);
                            }
                        }
                    }
                }
                I::Load(t, a, d) => {
                    let p = self.op(st, base, a);
                    let v = match &p {
                        C(a) => self.load(st, *a, t)?,
                        S(e) => match if st.known.contains_key(e) { None } else { self.load_table(st, *e, t)? } {
                            Some(v) => v,
                            None => {
                                let a = self.conc(st, *e)? as u64;
                                self.load(st, a, t)?
                            }
                        },
                        _ => return eng("load address"),
                    };
                    set!(d, v);
                }
                I::Store(t, v, a) => {
                    let p = self.op(st, base, a);
                    let x = self.op(st, base, v);
                    let a = self.cval(st, &p)?;
                    self.store(st, a, t, &x)?;
                }
                I::Gep(b, off, dynv, d) => {
                    let p = self.op(st, base, b);
                    if let A(ps) = &p {
                        let _ = ps;
                        return eng("vector gep");
                    }
                    let mut c = *off;
                    let mut se: Option<E> = None;
                    match &p {
                        C(x) => c = c.wrapping_add(*x),
                        S(e) => se = Some(*e),
                        _ => return eng("gep base"),
                    }
                    for (o, w, sc) in dynv {
                        let iv = self.op(st, base, o);
                        match &iv {
                            C(x) => c = c.wrapping_add((sx(*x, *w) as u64).wrapping_mul(*sc)),
                            S(e) => {
                                let x = if *w < 64 { self.ar.sext(*e, 64) } else { *e };
                                let k = self.ar.konst(*sc as u128, 64);
                                let x = self.ar.bin(K::Mul, x, k);
                                se = Some(match se {
                                    None => x,
                                    Some(y) => self.ar.bin(K::Add, y, x),
                                });
                            }
                            _ => return eng("gep index"),
                        }
                    }
                    let v = match se {
                        None => C(c),
                        Some(e) => {
                            let k = self.ar.konst(c as u128, 64);
                            let r = self.ar.bin(K::Add, e, k);
                            self.from_e(r)
                        }
                    };
                    set!(d, v);
                }
                I::Alloca(n, al, d) => {
                    let a = (st.sp + al - 1) / al * al;
                    st.sp = a + (*n).max(1);
                    if st.sp > STACK_BASE + (4 << 20) - 4096 {
                        return Err(Stop::Bug("stack overflow".into()));
                    }
                    set!(d, C(a));
                }
                I::Br(t) => {
                    self.jump(st, f, base, *t);
                    continue;
                }
                I::CondBr(c, t, e) => {
                    let v = self.op(st, base, c);
                    let b = match &v {
                        C(x) => *x & 1 == 1,
                        S(x) => self.branch(st, *x)?,
                        _ => return eng("branch condition"),
                    };
                    self.jump(st, f, base, if b { *t } else { *e });
                    continue;
                }
                I::Switch(w, v, cases, def) => {
                    let v = self.op(st, base, v);
                    let t = match &v {
                        C(x) => {
                            let mut t = *def;
                            for (k, l) in cases {
                                if *k as u64 == *x {
                                    t = *l;
                                    break;
                                }
                            }
                            t
                        }
                        S(e) => self.switch(st, *e, *w, cases, *def)?,
                        _ => return eng("wide switch"),
                    };
                    self.jump(st, f, base, t);
                    continue;
                }
                I::Ret(v) => {
                    let v = v.as_ref().map(|o| self.op(st, base, o));
                    return self.ret(st, v);
                }
                I::Unreachable => {
                    return Err(Stop::Bug("unreachable code reached".into()));
                }
                I::Extract(a, ix, d) => {
                    let mut v = self.op(st, base, a);
                    for i in ix {
                        v = match &v {
                            A(xs) => xs[*i as usize].clone(),
                            _ => return eng("extractvalue"),
                        };
                    }
                    set!(d, v);
                }
                I::Insert(t, a, v, ix, d) => {
                    let agg = self.op(st, base, a);
                    let x = self.op(st, base, v);
                    let r = insert(&agg, t, ix, x)?;
                    set!(d, r);
                }
                I::ExtractElem(a, i, d) => {
                    let v = self.op(st, base, a);
                    let i = self.op(st, base, i);
                    let i = self.cval(st, &i)?;
                    match &v {
                        A(xs) => set!(d, xs[i as usize].clone()),
                        _ => return eng("extractelement"),
                    }
                }
                I::InsertElem(a, v, i, d) => {
                    let agg = self.op(st, base, a);
                    let x = self.op(st, base, v);
                    let i = self.op(st, base, i);
                    let i = self.cval(st, &i)?;
                    match &agg {
                        A(xs) => {
                            let mut n = (**xs).clone();
                            n[i as usize] = x;
                            set!(d, A(Rc::new(n)));
                        }
                        _ => return eng("insertelement"),
                    }
                }
                I::Shuffle(a, b, mk, d) => {
                    let (x, y) = (self.op(st, base, a), self.op(st, base, b));
                    if let (A(xs), A(ys)) = (&x, &y) {
                        let n = xs.len();
                        let v = mk
                            .iter()
                            .map(|i| {
                                let i = *i as usize;
                                if i < n {
                                    xs[i].clone()
                                } else {
                                    ys.get(i - n).cloned().unwrap_or(C(0))
                                }
                            })
                            .collect();
                        set!(d, A(Rc::new(v)));
                    } else {
                        return eng("shuffle");
                    }
                }
                I::Rmw(k, w, a, v, d) => {
                    let p = self.op(st, base, a);
                    let a = self.cval(st, &p)?;
                    let x = self.op(st, base, v);
                    let t = Ty::Int(*w);
                    let old = self.load(st, a, &t)?;
                    let nv = match k {
                        RmwK::Xchg => x,
                        RmwK::Add => self.bin(st, BK::Add, &t, &old, &x)?,
                        RmwK::Sub => self.bin(st, BK::Sub, &t, &old, &x)?,
                        RmwK::And => self.bin(st, BK::And, &t, &old, &x)?,
                        RmwK::Or => self.bin(st, BK::Or, &t, &old, &x)?,
                        RmwK::Xor => self.bin(st, BK::Xor, &t, &old, &x)?,
                        RmwK::UMax | RmwK::UMin | RmwK::Max | RmwK::Min => {
                            let p = match k {
                                RmwK::UMax => Pred::Ugt,
                                RmwK::UMin => Pred::Ult,
                                RmwK::Max => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            let c = self.icmp(p, &t, &old, &x)?;
                            self.select(st, &c, &t, &old, &x)?
                        }
                        RmwK::Nand => return eng("atomic nand"),
                    };
                    self.store(st, a, &t, &nv)?;
                    set!(d, old);
                }
                I::CmpXchg(w, a, c, n, d) => {
                    let p = self.op(st, base, a);
                    let a = self.cval(st, &p)?;
                    let t = Ty::Int(*w);
                    let old = self.load(st, a, &t)?;
                    let c = self.op(st, base, c);
                    let eq = self.icmp(Pred::Eq, &t, &old, &c)?;
                    let ok = match &eq {
                        C(x) => *x == 1,
                        S(e) => self.branch(st, *e)?,
                        _ => return eng("cmpxchg"),
                    };
                    if ok {
                        let n = self.op(st, base, n);
                        self.store(st, a, &t, &n)?;
                    }
                    set!(d, A(Rc::new(vec![old, C(ok as u64)])));
                }
                I::Nop => {}
                I::Move(a, d) => {
                    let v = self.op(st, base, a);
                    set!(d, v);
                }
                I::FCmp(p, t, a, b, d) => {
                    let (x, y) = (self.op(st, base, a), self.op(st, base, b));
                    let (x, y) = (self.cval(st, &x)?, self.cval(st, &y)?);
                    let (x, y) = (fl(x, t), fl(y, t));
                    let r = match p.as_str() {
                        "oeq" => x == y,
                        "one" => x != y && !x.is_nan() && !y.is_nan(),
                        "une" => x != y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "ult" => !(x >= y),
                        "ule" => !(x > y),
                        "ugt" => !(x <= y),
                        "uge" => !(x < y),
                        "ueq" => x == y || x.is_nan() || y.is_nan(),
                        "ord" => !x.is_nan() && !y.is_nan(),
                        "uno" => x.is_nan() || y.is_nan(),
                        _ => return eng("fcmp"),
                    };
                    set!(d, C(r as u64));
                }
                I::FNeg(t, a, d) => {
                    let x = self.op(st, base, a);
                    let x = self.cval(st, &x)?;
                    set!(d, C(fu(-fl(x, t), t)));
                }
                I::Call { callee, args, ret, dst, normal } => {
                    let id = match callee {
                        Callee::Fn(i) => *i,
                        Callee::Ptr(o) => {
                            let p = self.op(st, base, o);
                            let p = self.cval(st, &p)?;
                            if p < FN_BASE || p >= FN_BASE + 16 * self.m.fns.len() as u64 || p % 16 != 0 {
                                return Err(Stop::Bug(format!("call through a bad pointer {:#x}", p)));
                            }
                            ((p - FN_BASE) / 16) as u32
                        }
                        Callee::Asm(s) => {
                            let v = self.asm(st, s, ret)?;
                            self.finish_call(st, f, base, *dst, *normal, v);
                            continue;
                        }
                    };
                    let cf = self.func(id)?;
                    match cf.hook {
                        Hook::None | Hook::IntFmt => {
                            let mut vals: Vec<Val> = args.iter().map(|(_, o)| self.op(st, base, o)).collect();
                            if cf.hook == Hook::IntFmt {
                                // text of a symbolic integer is not modelled: rendered as 0
                                if let C(a) = &vals[0] {
                                    if st.mem.ok(*a, 8) && st.mem.read_conc(*a, 8).is_none() && int_fmt_sym(st, *a, &cf.f.name) {
                                        self.assumes.insert("decimal/hex text of a symbolic integer rendered as 0".into());
                                        vals[0] = C(self.zero_addr);
                                    }
                                }
                            }
                            if st.frames.len() > 2000 {
                                return Err(Stop::Bug("call depth over 2000 frames".into()));
                            }
                            self.used.insert(id);
                            let nb = base + f.f.nregs as usize;
                            let need = nb + cf.f.nregs as usize;
                            if st.regs.len() < need {
                                st.regs.resize(need, C(0));
                            }
                            for (p, v) in cf.f.params.iter().zip(vals) {
                                st.regs[nb + *p as usize] = v;
                            }
                            let sp = st.sp;
                            st.frames.push(Frame { f: cf, base: nb, blk: 0, ip: 0, sp, dst: *dst, normal: *normal });
                            return Ok(());
                        }
                        _ => {
                            let vals: Vec<(Ty, Val)> = args.iter().map(|(t, o)| (t.clone(), self.op(st, base, o))).collect();
                            let v = self.external(st, &cf, &vals, ret)?;
                            self.finish_call(st, f, base, *dst, *normal, v);
                            continue;
                        }
                    }
                }
                I::LandingPad => return eng("landing pad reached"),
                I::VaArg => return eng("va_arg"),
            }
            st.frames.last_mut().unwrap().ip += 1;
        }
    }

    fn finish_call(&mut self, st: &mut State, f: &CFunc, base: usize, dst: Option<u32>, normal: Option<u32>, v: Option<Val>) {
        if let Some(d) = dst {
            st.regs[base + d as usize] = v.unwrap_or(C(0));
        }
        match normal {
            Some(b) => self.jump(st, f, base, b),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.sp = fr.sp;
        st.regs.truncate(fr.base);
        if st.frames.is_empty() {
            return Ok(());
        }
        let caller = st.frames.last().unwrap();
        let f = caller.f.clone();
        let base = caller.base;
        self.finish_call(st, &f, base, fr.dst, fr.normal, v);
        Ok(())
    }

    fn switch(&mut self, st: &mut State, e: E, w: u16, cases: &[(u128, u32)], def: u32) -> R<u32> {
        if let Some(v) = st.known.get(&e) {
            return Ok(cases.iter().find(|c| c.0 == *v).map(|c| c.1).unwrap_or(def));
        }
        // group by target
        let mut groups: Vec<(u32, E)> = vec![];
        let mut any: Option<E> = None;
        for (k, l) in cases {
            let kc = self.ar.konst(*k, w);
            let eq = self.ar.bin(K::Eq, e, kc);
            any = Some(match any {
                None => eq,
                Some(a) => self.ar.bin(K::Or, a, eq),
            });
            match groups.iter_mut().find(|g| g.0 == *l) {
                Some(g) => {
                    let x = g.1;
                    g.1 = self.ar.bin(K::Or, x, eq)
                }
                None => groups.push((*l, eq)),
            }
        }
        let dc = match any {
            None => return Ok(def),
            Some(a) => self.ar.not1(a),
        };
        match groups.iter_mut().find(|g| g.0 == def) {
            Some(g) => {
                let x = g.1;
                g.1 = self.ar.bin(K::Or, x, dc)
            }
            None => groups.push((def, dc)),
        }
        let mut here = None;
        for (l, c) in &groups {
            if self.ar.eval(*c, &st.model) == 1 {
                here = Some((*l, *c));
                break;
            }
        }
        let (hl, hc) = match here {
            Some(x) => x,
            None => return eng("switch: no group"),
        };
        let mut forked = false;
        for (l, c) in groups {
            if l == hl {
                continue;
            }
            if st.known.get(&c) == Some(&0) {
                continue;
            }
            if let Some(m) = self.sat(st, c)? {
                let mut o = st.clone();
                o.model = m;
                self.learn(&mut o, c);
                // the other side jumps directly
                let fr = o.frames.last().unwrap();
                let (f, base) = (fr.f.clone(), fr.base);
                self.jump(&mut o, &f, base, l);
                self.push_fork(o);
                forked = true;
            }
        }
        if forked {
            self.learn(st, hc);
        }
        Ok(hl)
    }

    fn select(&mut self, st: &mut State, c: &Val, t: &Ty, x: &Val, y: &Val) -> R<Val> {
        match c {
            C(v) => Ok(if *v & 1 == 1 { x.clone() } else { y.clone() }),
            S(e) => {
                if let Some(v) = st.known.get(e) {
                    return Ok(if *v == 1 { x.clone() } else { y.clone() });
                }
                let scalar = matches!(t, Ty::Int(_));
                if scalar {
                    let w = t.bits();
                    let (a, b) = (self.to_e(x, w), self.to_e(y, w));
                    let r = self.ar.ite(*e, a, b);
                    return Ok(self.from_e(r));
                }
                if let (C(a), C(b)) = (x, y) {
                    if a == b {
                        return Ok(x.clone());
                    }
                }
                let b = self.branch(st, *e)?;
                Ok(if b { x.clone() } else { y.clone() })
            }
            _ => eng("select condition"),
        }
    }

    fn bin(&mut self, st: &mut State, k: BK, t: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let Ty::Vec(_, et) = t {
            if let (A(xs), A(ys)) = (x, y) {
                let mut v = Vec::with_capacity(xs.len());
                for i in 0..xs.len() {
                    v.push(self.bin(st, k, et, &xs[i], &ys[i])?);
                }
                return Ok(A(Rc::new(v)));
            }
            return eng("vector op");
        }
        match k {
            BK::FAdd | BK::FSub | BK::FMul | BK::FDiv | BK::FRem => {
                let (a, b) = (self.cval(st, x)?, self.cval(st, y)?);
                let (a, b) = (fl(a, t), fl(b, t));
                let r = match k {
                    BK::FAdd => a + b,
                    BK::FSub => a - b,
                    BK::FMul => a * b,
                    BK::FDiv => a / b,
                    _ => a % b,
                };
                return Ok(C(fu(r, t)));
            }
            _ => {}
        }
        let w = t.bits();
        if let (C(a), C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let r = match k {
                BK::Add => a.wrapping_add(b),
                BK::Sub => a.wrapping_sub(b),
                BK::Mul => a.wrapping_mul(b),
                BK::And => a & b,
                BK::Or => a | b,
                BK::Xor => a ^ b,
                BK::Shl => {
                    if b >= w as u64 {
                        0
                    } else {
                        a << b
                    }
                }
                BK::LShr => {
                    if b >= w as u64 {
                        0
                    } else {
                        a >> b
                    }
                }
                BK::AShr => {
                    let s = sx(a, w);
                    (s >> b.min(63)) as u64
                }
                BK::UDiv | BK::URem | BK::SDiv | BK::SRem => {
                    if b == 0 {
                        return Err(Stop::Bug("division by zero".into()));
                    }
                    match k {
                        BK::UDiv => a / b,
                        BK::URem => a % b,
                        BK::SDiv => sx(a, w).wrapping_div(sx(b, w)) as u64,
                        _ => sx(a, w).wrapping_rem(sx(b, w)) as u64,
                    }
                }
                _ => unreachable!(),
            };
            return Ok(C(r & m64(w)));
        }
        let kk = match k {
            BK::Add => K::Add,
            BK::Sub => K::Sub,
            BK::Mul => K::Mul,
            BK::And => K::And,
            BK::Or => K::Or,
            BK::Xor => K::Xor,
            BK::Shl => K::Shl,
            BK::LShr => K::LShr,
            BK::AShr => K::AShr,
            BK::UDiv => K::UDiv,
            BK::URem => K::URem,
            BK::SDiv => K::SDiv,
            BK::SRem => K::SRem,
            _ => unreachable!(),
        };
        if let (Some(a), Some(b)) = (Self::conc128(x), Self::conc128(y)) {
            let r = apply(kk, w, w, a, b);
            return Ok(if w <= 64 { C(r as u64) } else { W(Rc::new(r)) });
        }
        let (a, b) = (self.to_e(x, w), self.to_e(y, w));
        let r = self.ar.bin(kk, a, b);
        Ok(self.from_e(r))
    }

    fn icmp(&mut self, p: Pred, t: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let Ty::Vec(_, et) = t {
            if let (A(xs), A(ys)) = (x, y) {
                let mut v = Vec::with_capacity(xs.len());
                for i in 0..xs.len() {
                    v.push(self.icmp(p, et, &xs[i], &ys[i])?);
                }
                return Ok(A(Rc::new(v)));
            }
            return eng("vector icmp");
        }
        let w = t.bits();
        if let (C(a), C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let r = match p {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Sgt => sx(a, w) > sx(b, w),
                Pred::Sge => sx(a, w) >= sx(b, w),
                Pred::Slt => sx(a, w) < sx(b, w),
                Pred::Sle => sx(a, w) <= sx(b, w),
            };
            return Ok(C(r as u64));
        }
        let (a, b) = (self.to_e(x, w), self.to_e(y, w));
        let (k, a, b, neg) = match p {
            Pred::Eq => (K::Eq, a, b, false),
            Pred::Ne => (K::Eq, a, b, true),
            Pred::Ugt => (K::Ult, b, a, false),
            Pred::Uge => (K::Ule, b, a, false),
            Pred::Ult => (K::Ult, a, b, false),
            Pred::Ule => (K::Ule, a, b, false),
            Pred::Sgt => (K::Slt, b, a, false),
            Pred::Sge => (K::Sle, b, a, false),
            Pred::Slt => (K::Slt, a, b, false),
            Pred::Sle => (K::Sle, a, b, false),
        };
        let mut r = self.ar.bin(k, a, b);
        if neg {
            r = self.ar.not1(r);
        }
        Ok(self.from_e(r))
    }

    fn cast(&mut self, st: &mut State, k: CK, t: &Ty, t2: &Ty, x: &Val) -> R<Val> {
        match (t, t2) {
            (Ty::Vec(_, a), Ty::Vec(_, b)) if k != CK::BitCast => {
                if let A(xs) = x {
                    let mut v = vec![];
                    for e in xs.iter() {
                        v.push(self.cast(st, k, a, b, e)?);
                    }
                    return Ok(A(Rc::new(v)));
                }
                return eng("vector cast");
            }
            _ => {}
        }
        match k {
            CK::UIToFP | CK::SIToFP | CK::FPToUI | CK::FPToSI | CK::FPExt | CK::FPTrunc => {
                let v = self.cval(st, x)?;
                return Ok(C(match k {
                    CK::UIToFP => fu(v as f64, t2),
                    CK::SIToFP => fu(sx(v, t.bits()) as f64, t2),
                    CK::FPToUI => fl(v, t) as u64 & m64(t2.bits()),
                    CK::FPToSI => fl(v, t) as i64 as u64 & m64(t2.bits()),
                    _ => fu(fl(v, t), t2),
                }));
            }
            CK::BitCast => {
                if matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..)) {
                    let e = self.to_e(x, t.bits());
                    return Ok(self.from_bits(e, t2));
                }
                return Ok(x.clone());
            }
            _ => {}
        }
        let (w, w2) = (t.bits(), t2.bits());
        let k = match k {
            CK::PtrToInt | CK::IntToPtr => {
                if w2 < w {
                    CK::Trunc
                } else {
                    CK::ZExt
                }
            }
            k => k,
        };
        match x {
            C(v) if w2 <= 64 => Ok(C(match k {
                CK::Trunc | CK::ZExt => *v & m64(w2),
                _ => sx(*v, w) as u64 & m64(w2),
            })),
            _ => {
                let e = self.to_e(x, w);
                let r = match k {
                    CK::Trunc => self.ar.extract(e, 0, w2),
                    CK::ZExt => self.ar.zext(e, w2),
                    _ => self.ar.sext(e, w2),
                };
                Ok(self.from_e(r))
            }
        }
    }

    fn asm(&mut self, _st: &mut State, s: &str, ret: &Ty) -> R<Option<Val>> {
        if s.starts_with('|') || s.trim_matches('|').is_empty() || s.starts_with("~") {
            return Ok(None); // compiler barrier
        }
        if s.contains("cpuid") || s.contains("xgetbv") {
            return Ok(Some(zero_of(ret)));
        }
        eng(format!("inline asm {}", s))
    }

    fn assert_val(&mut self, st: &mut State, v: &Val, msg: &str) -> R<()> {
        self.st.asserts += 1;
        match v {
            C(x) => {
                if *x & 1 == 1 {
                    Ok(())
                } else {
                    Err(Stop::Bug(msg.to_string()))
                }
            }
            S(e) => {
                let e = if self.ar.w(*e) == 1 { *e } else { self.ar.extract(*e, 0, 1) };
                if let Some(v) = self.ar.as_const(e) {
                    return if v == 1 { Ok(()) } else { Err(Stop::Bug(msg.into())) };
                }
                if st.known.get(&e) == Some(&1) {
                    return Ok(());
                }
                self.st.asserts_solver += 1;
                let ne = self.ar.not1(e);
                let r = if self.ar.eval(ne, &st.model) == 1 { Some(st.model.clone()) } else { self.solve(st, ne)? };
                if let Some(m) = r {
                    st.model = m;
                    return Err(Stop::Bug(msg.into()));
                }
                st.known.insert(e, 1);
                Ok(())
            }
            _ => eng("assert"),
        }
    }
    fn assume_val(&mut self, st: &mut State, v: &Val) -> R<()> {
        match v {
            C(x) => {
                if *x & 1 == 1 {
                    Ok(())
                } else {
                    Err(Stop::Pruned)
                }
            }
            S(e) => {
                let e = if self.ar.w(*e) == 1 { *e } else { self.ar.extract(*e, 0, 1) };
                match self.sat(st, e)? {
                    None => Err(Stop::Pruned),
                    Some(m) => {
                        st.model = m;
                        self.learn(st, e);
                        Ok(())
                    }
                }
            }
            _ => eng("assume"),
        }
    }

    fn memcmp(&mut self, st: &mut State, a: u64, b: u64, n: u64, eq_only: bool) -> R<Val> {
        if n == 0 {
            return Ok(C(0));
        }
        self.check(st, a, n)?;
        self.check(st, b, n)?;
        // concrete prefix
        if eq_only {
            let mut acc: Option<E> = None;
            for k in 0..n {
                let (x, xe) = st.mem.byte(a + k);
                let (y, ye) = st.mem.byte(b + k);
                if xe == 0 && ye == 0 {
                    if x != y {
                        return Ok(C(1));
                    }
                    continue;
                }
                let xe = if xe != 0 { xe } else { self.ar.konst(x as u128, 8) };
                let ye = if ye != 0 { ye } else { self.ar.konst(y as u128, 8) };
                let e = self.ar.bin(K::Eq, xe, ye);
                acc = Some(match acc {
                    None => e,
                    Some(z) => self.ar.bin(K::And, z, e),
                });
            }
            return match acc {
                None => Ok(C(0)),
                Some(e) => {
                    let ne = self.ar.not1(e);
                    let r = self.ar.zext(ne, 32);
                    Ok(self.from_e(r))
                }
            };
        }
        let mut r = self.ar.konst(0, 32);
        let one = self.ar.konst(1, 32);
        let neg = self.ar.konst(0xffff_ffff, 32);
        for k in (0..n).rev() {
            let (x, xe) = st.mem.byte(a + k);
            let (y, ye) = st.mem.byte(b + k);
            let xe = if xe != 0 { xe } else { self.ar.konst(x as u128, 8) };
            let ye = if ye != 0 { ye } else { self.ar.konst(y as u128, 8) };
            let lt = self.ar.bin(K::Ult, xe, ye);
            let gt = self.ar.bin(K::Ult, ye, xe);
            let i = self.ar.ite(gt, one, r);
            r = self.ar.ite(lt, neg, i);
        }
        Ok(self.from_e(r))
    }

    fn panic_loc(&self, st: &State, p: &Val) -> String {
        if let C(a) = p {
            if st.mem.ok(*a, 24) {
                if let (Some(fp), Some(fl), Some(ln)) =
                    (st.mem.read_conc(*a, 8), st.mem.read_conc(*a + 8, 8), st.mem.read_conc(*a + 16, 4))
                {
                    if let Some(b) = st.mem.bytes_conc(fp as u64, fl as u64) {
                        return format!("{}:{}", String::from_utf8_lossy(&b), ln);
                    }
                }
            }
        }
        "?".into()
    }

    fn external(&mut self, st: &mut State, cf: &Rc<CFunc>, a: &[(Ty, Val)], ret: &Ty) -> R<Option<Val>> {
        let name: &str = &cf.f.name;
        match cf.hook {
            Hook::Nop => return Ok(if *ret == Ty::Void { None } else { Some(zero_of(ret)) }),
            Hook::PanicFmt => {
                let loc = self.panic_loc(st, &a[a.len() - 1].1);
                let mut msg = String::new();
                if a.len() >= 3 {
                    if let (C(p), C(t)) = (&a[0].1, &a[1].1) {
                        if t & 1 == 1 {
                            if let Some(b) = st.mem.bytes_conc(*p, t >> 1) {
                                msg = String::from_utf8_lossy(&b).into_owned();
                            }
                        }
                    }
                }
                return Err(Stop::Bug(format!("panic at {}: {}", loc, msg)));
            }
            Hook::Panic => {
                let mut loc = String::new();
                for (t, v) in a.iter().rev() {
                    if *t == Ty::Ptr {
                        loc = self.panic_loc(st, v);
                        if loc != "?" {
                            break;
                        }
                    }
                }
                return Err(Stop::Bug(format!("panic ({}) at {}", name, loc)));
            }
            Hook::HashOne => {
                self.assumes.insert("std HashMap is trusted: its hash function ignores the key (all keys collide)".into());
                let p = self.cval(st, &a[0].1)?;
                let mut k = [0u64; 2];
                for i in 0..2 {
                    for j in (0..8).rev() {
                        let (c, e) = st.mem.byte(p + i as u64 * 8 + j);
                        if e != 0 {
                            return eng("symbolic hash seed");
                        }
                        k[i] = k[i] << 8 | c as u64;
                    }
                }
                return Ok(Some(C(sip13_empty(k[0], k[1]) as _)));
            }
            Hook::SipWrite => {
                self.assumes.insert("std HashMap is trusted: its hash function ignores the key (all keys collide)".into());
                return Ok(None);
            }
            Hook::RandomKeys => {
                // fixed hash seeds
                return Ok(Some(A(Rc::new(vec![C(0x0123_4567_89ab_cdef), C(0x0f1e_2d3c_4b5a_6978)]))));
            }
            _ => {}
        }
        if let Some(r) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, r, a, ret);
        }
        let v = |i: usize| -> &Val { &a[i].1 };
        match name {
            "vk_sym" => {
                let w = self.cval(st, v(0))? as u16;
                let n = self.str_arg(st, v(1), v(2))?;
                let e = self.fresh(st, &n, w);
                let e = self.ar.zext(e, 64);
                Ok(Some(self.from_e(e)))
            }
            "vk_choose" => {
                let n = self.cval(st, v(0))?;
                if n == 0 {
                    return eng("vk_choose(0)");
                }
                let nm = self.str_arg(st, v(1), v(2))?;
                if n == 1 {
                    return Ok(Some(C(0)));
                }
                let w = 64 - (n - 1).leading_zeros() as u16;
                let e = self.fresh(st, &nm, w);
                if n != 1 << w {
                    let k = self.ar.konst(n as u128, w);
                    let c = self.ar.bin(K::Ult, e, k);
                    let vv = self.from_e(c);
                    self.assume_val(st, &vv)?;
                }
                let e = self.ar.zext(e, ret.bits());
                Ok(Some(self.from_e(e)))
            }
            "vk_assume" => {
                self.assume_val(st, v(0))?;
                Ok(None)
            }
            "vk_assert" => {
                let msg = self.str_arg(st, v(1), v(2))?;
                self.assert_val(st, v(0), &format!("assertion: {}", msg))?;
                Ok(None)
            }
            "vk_log" => {
                let t = self.str_arg(st, v(0), v(1))?;
                let x = match v(2) {
                    C(x) => LogVal::C(*x),
                    S(e) => LogVal::S(*e),
                    _ => return eng("log"),
                };
                if self.verbose {
                    eprintln!("log {} {}", t, match &x { LogVal::C(x) => format!("{}", x), LogVal::S(e) => format!("sym({})", self.ar.eval(*e, &st.model)), _ => String::new() });
                }
                st.log.push((t, x));
                Ok(None)
            }
            "vk_logb" => {
                let t = self.str_arg(st, v(0), v(1))?;
                let p = self.cval(st, v(2))?;
                let n = self.cval(st, v(3))?;
                self.check(st, p, n)?;
                let b: Vec<(u8, E)> = (0..n).map(|k| st.mem.byte(p + k)).collect();
                if self.verbose {
                    let s: String = b.iter().map(|(x, e)| if *e != 0 { '?' } else { *x as char }).collect();
                    eprintln!("log {} {}", t, s);
                }
                st.log.push((t, LogVal::Bytes(b)));
                Ok(None)
            }
            "vk_u64" => { let e = self.fresh(st, "u64", 64); Ok(Some(S(e))) }
            "vk_cover" => {
                let t = self.str_arg(st, v(0), v(1))?;
                st.covers.insert(t);
                Ok(None)
            }
            "vk_conc" => {
                let x = self.cval(st, v(0))?;
                Ok(Some(C(x)))
            }
            "vk_param" => {
                let i = self.cval(st, v(0))? as usize;
                Ok(Some(C(self.params.get(i).copied().unwrap_or(0))))
            }
            "vk_stop" => Err(Stop::Pruned),
            "vk_clock" => {
                let t = self.cval(st, v(0))?;
                st.tick = st.tick.max(t);
                Ok(None)
            }
            "vk_is_sym" => Ok(Some(C(1))),
            "malloc" => {
                let n = self.csize(st, v(0))?;
                self.alloc_checked(st, n, 16)
            }
            "calloc" => {
                let n = self.cval(st, v(0))?.wrapping_mul(self.cval(st, v(1))?);
                self.alloc_checked(st, n, 16)
            }
            "posix_memalign" => {
                let al = self.cval(st, v(1))?;
                let n = self.cval(st, v(2))?;
                let p = self.alloc_checked(st, n, al)?.unwrap();
                let out = self.cval(st, v(0))?;
                self.store(st, out, &Ty::Ptr, &p)?;
                Ok(Some(C(0)))
            }
            "aligned_alloc" => {
                let al = self.cval(st, v(0))?;
                let n = self.cval(st, v(1))?;
                self.alloc_checked(st, n, al)
            }
            "realloc" => {
                let p = self.cval(st, v(0))?;
                let n = self.csize(st, v(1))?;
                if p == 0 {
                    return self.alloc_checked(st, n, 16);
                }
                let old = st.mem.read_conc(p - 8, 8).unwrap() as u64;
                let q = self.alloc_checked(st, n, 16)?.unwrap();
                if let C(q) = q {
                    st.mem.copy(q, p, old.min(n));
                }
                Ok(Some(q))
            }
            "free" => Ok(None),
            "memcmp" => {
                let n = self.cval(st, v(2))?;
                let (p, q) = (self.cval(st, v(0))?, self.cval(st, v(1))?);
                Ok(Some(self.memcmp(st, p, q, n, false)?))
            }
            "bcmp" => {
                let n = self.cval(st, v(2))?;
                let (p, q) = (self.cval(st, v(0))?, self.cval(st, v(1))?);
                Ok(Some(self.memcmp(st, p, q, n, true)?))
            }
            "strlen" => {
                let p = self.cval(st, v(0))?;
                let mut n = 0;
                while st.mem.ok(p + n, 1) && st.mem.byte(p + n) != (0, 0) {
                    n += 1;
                }
                Ok(Some(C(n)))
            }
            "memchr" | "memrchr" => eng(name.to_string()),
            "getenv" => Ok(Some(C(0))),
            "abort" => Err(Stop::Bug("abort() called".into())),
            "clock_gettime" => {
                st.tick += 1;
                let p = self.cval(st, v(1))?;
                st.mem.write_conc(p, (st.tick / 1_000_000_000) as u128, 8);
                st.mem.write_conc(p + 8, (st.tick % 1_000_000_000) as u128, 8);
                self.assumes.insert("clock_gettime returns the time the model has passed, increasing by 1 ns".into());
                Ok(Some(C(0)))
            }
            "getrandom" => {
                let p = self.cval(st, v(0))?;
                let n = self.cval(st, v(1))?;
                for k in 0..n {
                    st.mem.set_byte(p + k, (k as u8).wrapping_mul(37) ^ 0x5a, 0);
                }
                self.assumes.insert("getrandom returns fixed bytes (hash seeds)".into());
                Ok(Some(C(n)))
            }
            "pthread_key_create" => {
                st.keys += 1;
                let p = self.cval(st, v(0))?;
                st.mem.write_conc(p, st.keys as u128, 4);
                Ok(Some(C(0)))
            }
            "pthread_setspecific" => {
                let k = self.cval(st, v(0))? as u32;
                let x = self.cval(st, v(1))?;
                st.tls.insert(k, x);
                Ok(Some(C(0)))
            }
            "pthread_getspecific" => {
                let k = self.cval(st, v(0))? as u32;
                Ok(Some(C(st.tls.get(&k).copied().unwrap_or(0))))
            }
            "pthread_key_delete" => Ok(Some(C(0))),
            "__cxa_thread_atexit_impl" => Ok(Some(C(0))),
            "gettid" | "getpid" | "pthread_self" => Ok(Some(C(4242))),
            "sched_yield" => Ok(Some(C(0))),
            "sched_getaffinity" => Ok(Some(C(u32::MAX as u64))),
            "sysconf" => Ok(Some(C(2))),
            "__errno_location" => Ok(Some(C(self.zero_addr + 32))),
            "write" | "writev" => {
                // stderr/stdout text is dropped
                let n = if name == "write" { self.cval(st, v(2))? } else { 0 };
                Ok(Some(C(n)))
            }
            "syscall" => {
                let nr = self.cval(st, v(0))?;
                if nr == 202 {
                    // futex: wake = 0 woken; wait = deadlock
                    let opn = self.cval(st, v(2))? & 0x7f;
                    if opn == 1 || opn == 10 {
                        return Ok(Some(C(0)));
                    }
                    return Err(Stop::Bug("blocking futex wait (deadlock on a blocking lock)".into()));
                }
                eng(format!("syscall {}", nr))
            }
            "_Unwind_Backtrace" => Ok(Some(C(0))),
            _ => eng(format!("external function {}", name)),
        }
    }
    fn alloc_checked(&mut self, st: &mut State, n: u64, al: u64) -> R<Option<Val>> {
        if n > 64 << 20 {
            return Err(Stop::Bug(format!("allocation of {} bytes", n)));
        }
        Ok(Some(C(self.alloc(st, n, al))))
    }

    fn intrinsic(&mut self, st: &mut State, r: &str, a: &[(Ty, Val)], ret: &Ty) -> R<Option<Val>> {
        // strip the type suffix: first component(s)
        let is = |p: &str| r == p || (r.starts_with(p) && r.as_bytes().get(p.len()) == Some(&b'.'));
        if is("memcpy") || is("memmove") || is("memcpy.inline") {
            let n = self.cval(st, &a[2].1)?;
            let d = self.cval(st, &a[0].1)?;
            let s = self.cval(st, &a[1].1)?;
            if n > 0 {
                self.check(st, d, n)?;
                self.check(st, s, n)?;
                st.mem.copy(d, s, n);
            }
            return Ok(None);
        }
        if is("memset") || is("memset.inline") {
            let n = self.cval(st, &a[2].1)?;
            let d = self.cval(st, &a[0].1)?;
            if n > 0 {
                self.check(st, d, n)?;
                match &a[1].1 {
                    C(v) => st.mem.fill(d, *v as u8, 0, n),
                    S(e) => st.mem.fill(d, 0, *e, n),
                    _ => return eng("memset"),
                }
            }
            return Ok(None);
        }
        for p in ["lifetime", "dbg", "experimental", "prefetch", "var.annotation", "donothing", "fake", "x86.sse2.pause", "invariant"] {
            if is(p) || r.starts_with(p) {
                return Ok(if *ret == Ty::Void { None } else { Some(zero_of(ret)) });
            }
        }
        if is("assume") {
            return Ok(None);
        }
        if is("threadlocal.address") || is("expect") || is("ssa.copy") || is("launder.invariant.group") || is("strip.invariant.group") {
            return Ok(Some(a[0].1.clone()));
        }
        if is("trap") || is("ubsantrap") || is("debugtrap") {
            return Err(Stop::Bug("trap".into()));
        }
        if is("is.constant") {
            return Ok(Some(C(0)));
        }
        if is("objectsize") {
            return Ok(Some(C(u64::MAX)));
        }
        if is("stacksave") {
            return Ok(Some(C(st.sp)));
        }
        if is("stackrestore") {
            return Ok(None);
        }
        if is("ptrmask") {
            return Ok(Some(self.bin(st, BK::And, &Ty::Int(64), &a[0].1, &a[1].1)?));
        }
        if is("vector.reduce.or") || is("vector.reduce.and") || is("vector.reduce.add") || is("vector.reduce.umax") || is("vector.reduce.xor") {
            if let (Ty::Vec(_, et), A(xs)) = (&a[0].0, &a[0].1) {
                let k = if r.contains(".or.") {
                    BK::Or
                } else if r.contains(".and.") {
                    BK::And
                } else if r.contains(".add.") {
                    BK::Add
                } else if r.contains(".xor.") {
                    BK::Xor
                } else {
                    return eng(format!("intrinsic {}", r));
                };
                let mut acc = xs[0].clone();
                for x in &xs[1..] {
                    acc = self.bin(st, k, et, &acc, x)?;
                }
                return Ok(Some(acc));
            }
        }
        let t = a.first().map(|x| x.0.clone()).unwrap_or(Ty::Int(64));
        if let Ty::Vec(_, et) = &t {
            // element-wise
            let n = t.nfields();
            let rt = match ret {
                Ty::Vec(_, e) => (**e).clone(),
                _ => return eng(format!("vector intrinsic {}", r)),
            };
            let mut out = vec![];
            for i in 0..n {
                let args: Vec<(Ty, Val)> = a
                    .iter()
                    .map(|(t, v)| match (t, v) {
                        (Ty::Vec(..), A(xs)) => ((**et).clone(), xs[i].clone()),
                        _ => (t.clone(), v.clone()),
                    })
                    .collect();
                out.push(self.intrinsic(st, r, &args, &rt)?.unwrap());
            }
            return Ok(Some(A(Rc::new(out))));
        }
        let w = match &t {
            Ty::Int(_) | Ty::Ptr => t.bits(),
            _ => 64,
        };
        let it = Ty::Int(w);
        // overflow arithmetic
        if let Some(p) = r.find(".with.overflow") {
            let opn = &r[..p];
            let (x, y) = (&a[0].1, &a[1].1);
            let k = match &opn[1..] {
                "add" => BK::Add,
                "sub" => BK::Sub,
                "mul" => BK::Mul,
                _ => return eng(format!("intrinsic {}", r)),
            };
            let signed = opn.starts_with('s');
            let res = self.bin(st, k, &it, x, y)?;
            let ov = match (opn, x, y) {
                (_, C(p), C(q)) => {
                    let (fx, fy) = if signed { (sx(*p, w) as i128, sx(*q, w) as i128) } else { (*p as i128, *q as i128) };
                    let full = match k {
                        BK::Add => Some(fx + fy),
                        BK::Sub => Some(fx - fy),
                        _ => {
                            if signed {
                                fx.checked_mul(fy)
                            } else {
                                (fx as u128).checked_mul(fy as u128).and_then(|z| i128::try_from(z).ok())
                            }
                        }
                    };
                    let ok = match full {
                        None => false,
                        Some(f) => {
                            if signed {
                                f >= -(1i128 << (w - 1)) && f < (1i128 << (w - 1))
                            } else {
                                f >= 0 && f <= mask(w) as i128
                            }
                        }
                    };
                    C(!ok as u64)
                }
                ("uadd", _, _) => self.icmp(Pred::Ult, &it, &res, x)?,
                ("usub", _, _) => self.icmp(Pred::Ult, &it, x, y)?,
                _ => {
                    let w2 = w * 2;
                    if w2 > 128 {
                        return eng(format!("symbolic {}", r));
                    }
                    let (a0, b0) = (self.to_e(x, w), self.to_e(y, w));
                    let (p, q) = if signed {
                        (self.ar.sext(a0, w2), self.ar.sext(b0, w2))
                    } else {
                        (self.ar.zext(a0, w2), self.ar.zext(b0, w2))
                    };
                    let kk = match k {
                        BK::Add => K::Add,
                        BK::Sub => K::Sub,
                        _ => K::Mul,
                    };
                    let full = self.ar.bin(kk, p, q);
                    let low = self.ar.extract(full, 0, w);
                    let back = if signed { self.ar.sext(low, w2) } else { self.ar.zext(low, w2) };
                    let e = self.ar.bin(K::Eq, full, back);
                    let ne = self.ar.not1(e);
                    self.from_e(ne)
                }
            };
            return Ok(Some(A(Rc::new(vec![res, ov]))));
        }
        if is("umax") || is("umin") || is("smax") || is("smin") {
            let p = match &r[..4] {
                "umax" => Pred::Ugt,
                "umin" => Pred::Ult,
                "smax" => Pred::Sgt,
                _ => Pred::Slt,
            };
            let c = self.icmp(p, &it, &a[0].1, &a[1].1)?;
            return Ok(Some(self.select(st, &c, &it, &a[0].1, &a[1].1)?));
        }
        if is("uadd.sat") {
            let s = self.bin(st, BK::Add, &it, &a[0].1, &a[1].1)?;
            let c = self.icmp(Pred::Ult, &it, &s, &a[0].1)?;
            return Ok(Some(self.select(st, &c, &it, &C(m64(w)), &s)?));
        }
        if is("sadd.sat") || is("ssub.sat") {
            let n = format!("{}.with.overflow.i{}", &r[..4], w);
            if let Some(A(v)) = self.intrinsic(st, &n, a, ret)? {
                let neg = self.icmp(Pred::Slt, &it, &a[0].1, &C(0))?;
                let lim = self.select(st, &neg, &it, &C(1 << (w - 1)), &C(m64(w - 1)))?;
                return Ok(Some(self.select(st, &v[1], &it, &lim, &v[0])?));
            }
            return eng("sadd.sat");
        }
        if is("usub.sat") {
            let s = self.bin(st, BK::Sub, &it, &a[0].1, &a[1].1)?;
            let c = self.icmp(Pred::Ult, &it, &a[0].1, &a[1].1)?;
            return Ok(Some(self.select(st, &c, &it, &C(0), &s)?));
        }
        if is("ucmp") || is("scmp") {
            let (lt, gt) = if r.starts_with('u') { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let l = self.icmp(lt, &it, &a[0].1, &a[1].1)?;
            let g = self.icmp(gt, &it, &a[0].1, &a[1].1)?;
            let rw = ret.bits();
            let rt = Ty::Int(rw);
            let x = self.select(st, &g, &rt, &C(1), &C(0))?;
            return Ok(Some(self.select(st, &l, &rt, &C(m64(rw)), &x)?));
        }
        if is("abs") {
            let n = self.bin(st, BK::Sub, &it, &C(0), &a[0].1)?;
            let c = self.icmp(Pred::Slt, &it, &a[0].1, &C(0))?;
            return Ok(Some(self.select(st, &c, &it, &n, &a[0].1)?));
        }
        if is("bswap") {
            let x = &a[0].1;
            if let C(v) = x {
                return Ok(Some(C(v.swap_bytes() >> (64 - w))));
            }
            let e = self.to_e(x, w);
            let n = w / 8;
            let mut acc: Option<E> = None;
            for i in 0..n {
                // least significant result byte = most significant source byte
                let b = self.ar.extract(e, (n - 1 - i) * 8, 8);
                acc = Some(match acc {
                    None => b,
                    Some(z) => self.ar.concat(b, z),
                });
            }
            return Ok(Some(self.from_e(acc.unwrap())));
        }
        if is("bitreverse") {
            let e = self.to_e(&a[0].1, w);
            let mut acc: Option<E> = None;
            for i in 0..w {
                let b = self.ar.extract(e, w - 1 - i, 1);
                acc = Some(match acc {
                    None => b,
                    Some(z) => self.ar.concat(b, z),
                });
            }
            return Ok(Some(self.from_e(acc.unwrap())));
        }
        if is("fshl") || is("fshr") {
            let s = self.cval(st, &a[2].1)? % w as u64;
            let (h, l) = (self.to_e(&a[0].1, w), self.to_e(&a[1].1, w));
            let left = is("fshl");
            if s == 0 {
                return Ok(Some(if left { a[0].1.clone() } else { a[1].1.clone() }));
            }
            let (ls, rs) = if left { (s, w as u64 - s) } else { (w as u64 - s, s) };
            let (k1, k2) = (self.ar.konst(ls as u128, w), self.ar.konst(rs as u128, w));
            let x = self.ar.bin(K::Shl, h, k1);
            let y = self.ar.bin(K::LShr, l, k2);
            let z = self.ar.bin(K::Or, x, y);
            return Ok(Some(self.from_e(z)));
        }
        if is("fabs") {
            let m = m64(w - 1);
            return Ok(Some(match &a[0].1 {
                C(v) => C(v & m),
                x => {
                    let e = self.to_e(x, w);
                    let k = self.ar.konst(m as u128, w);
                    let e = self.ar.bin(K::And, e, k);
                    self.from_e(e)
                }
            }));
        }
        if is("ctpop") || is("ctlz") || is("cttz") {
            match Self::conc128(&a[0].1) {
                Some(v) => {
                    let n = if is("ctpop") {
                        v.count_ones()
                    } else if is("ctlz") {
                        if v == 0 {
                            w as u32
                        } else {
                            v.leading_zeros() - (128 - w as u32)
                        }
                    } else if v == 0 {
                        w as u32
                    } else {
                        v.trailing_zeros()
                    };
                    return Ok(Some(C(n as u64)));
                }
                None => {
                    let e = self.to_e(&a[0].1, w);
                    let mut acc = if is("ctpop") { self.ar.konst(0, w) } else { self.ar.konst(w as u128, w) };
                    let order: Vec<u16> = if is("ctlz") { (0..w).collect() } else { (0..w).rev().collect() };
                    for i in order {
                        let b = self.ar.extract(e, i, 1);
                        if is("ctpop") {
                            let z = self.ar.zext(b, w);
                            acc = self.ar.bin(K::Add, acc, z);
                        } else {
                            let n = if is("ctlz") { w - 1 - i } else { i };
                            let k = self.ar.konst(n as u128, w);
                            acc = self.ar.ite(b, k, acc);
                        }
                    }
                    return Ok(Some(self.from_e(acc)));
                }
            }
        }
        eng(format!("intrinsic llvm.{}", r))
    }
}

fn insert(agg: &Val, t: &Ty, ix: &[u32], x: Val) -> R<Val> {
    if ix.is_empty() {
        return Ok(x);
    }
    let mut v = match agg {
        A(xs) => (**xs).clone(),
        _ => match zero_of(t) {
            A(xs) => (*xs).clone(),
            _ => return eng("insertvalue"),
        },
    };
    let i = ix[0] as usize;
    v[i] = insert(&v[i], t.field(i), &ix[1..], x)?;
    Ok(A(Rc::new(v)))
}
fn zero_of(t: &Ty) -> Val {
    match t {
        Ty::Int(w) if *w > 64 => W(Rc::new(0)),
        Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => A(Rc::new((0..t.nfields()).map(|i| zero_of(t.field(i))).collect())),
        _ => C(0),
    }
}
fn fl(v: u64, t: &Ty) -> f64 {
    match t {
        Ty::Float => f32::from_bits(v as u32) as f64,
        _ => f64::from_bits(v),
    }
}
fn fu(v: f64, t: &Ty) -> u64 {
    match t {
        Ty::Float => (v as f32).to_bits() as u64,
        _ => v.to_bits(),
    }
}
fn int_fmt_sym(st: &State, a: u64, name: &str) -> bool {
    // number of bytes of the formatted integer from the mangled type letter of the impl
    let n = match () {
        _ if name.contains("fmt3numh") => 1,
        _ => 8,
    };
    (0..n).any(|k| st.mem.byte(a + k).1 != 0)
}
/// SipHash-1-3 of an empty message.
fn sip13_empty(k0: u64, k1: u64) -> u64 {
    let mut v = [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573];
    fn round(v: &mut [u64; 4]) {
        v[0] = v[0].wrapping_add(v[1]);
        v[2] = v[2].wrapping_add(v[3]);
        v[1] = v[1].rotate_left(13) ^ v[0];
        v[3] = v[3].rotate_left(16) ^ v[2];
        v[0] = v[0].rotate_left(32);
        v[2] = v[2].wrapping_add(v[1]);
        v[0] = v[0].wrapping_add(v[3]);
        v[1] = v[1].rotate_left(17) ^ v[2];
        v[3] = v[3].rotate_left(21) ^ v[0];
        v[2] = v[2].rotate_left(32);
    }
    round(&mut v);
    v[2] ^= 0xff;
    round(&mut v);
    round(&mut v);
    round(&mut v);
    v[0] ^ v[1] ^ v[2] ^ v[3]
}
fn hook_of(name: &str, has_body: bool) -> Hook {
    if name.contains("4core9panicking") {
        if name.ends_with("9panic_fmt") {
            return Hook::PanicFmt;
        }
        if name.ends_with("19panic_cannot_unwind") || name.ends_with("panic_in_cleanup") || name.contains("panic_nounwind") {
            return Hook::Panic;
        }
    }
    if name.contains("rust_panic") || name.contains("rust_begin_unwind") || name.contains("handle_alloc_error") || name.contains("__rust_foreign_exception") {
        return Hook::Panic;
    }
    if has_body && name.contains("3sys6random") && name.contains("hashmap_random_keys") {
        return Hook::RandomKeys;
    }
    if has_body && name.contains("RandomState") && name.contains("BuildHasher8hash_one") {
        return Hook::HashOne;
    }
    if has_body && name.contains("4hash3sip") && name.contains("6Hasher5write") {
        return Hook::SipWrite;
    }
    if name.contains("core3fmt3num") || name.contains("4core3fmt3num") {
        return Hook::IntFmt;
    }
    if name.contains("3std2io5stdio6__print") || name.contains("3std2io5stdio7__eprint") {
        return Hook::Nop;
    }
    Hook::None
}

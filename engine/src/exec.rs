//! Symbolic interpreter: forks at branches the path condition does not decide.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug)]
pub enum V {
    C(u64),
    S(E),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<u32>, // per byte: expression id or 0; empty when all bytes are concrete
}
impl Obj {
    fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: vec![] }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub fidx: u32,
    pub pc: u32,
    pub base: u32,
    pub dst: u32, // absolute register index for the results, or MAX
    pub ret: &'static [u16],
}

pub struct Model {
    pub vals: Vec<u64>,
    memo: RefCell<HashMap<E, u128, Fx>>,
}

const CHUNK: usize = 64;
type Chunk = Rc<[Option<Rc<Obj>>; CHUNK]>;

#[derive(Clone)]
pub struct State {
    pub regs: Vec<V>,
    pub frames: Vec<Frame>,
    heap: Vec<Chunk>,
    nheap: u32,
    stk: Vec<Option<Rc<Obj>>>,
    gmut: Rc<HashMap<u32, Rc<Obj>>>,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub inputs: Vec<E>,
    tokens: Vec<E>,
    pub steps: u64,
    base_steps: u64,
    reached: Vec<u32>,
    fpdirty: bool,
    errno: u32,
    keys: Vec<u64>,
    forks: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub site: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, u64)>,
}

pub enum End {
    Done,
    Assume,
    Viol(Violation),
    Incomplete(String),
}
/// Why an instruction could not be completed normally.
enum Stop {
    End(End),
    Retry, // re-execute the instruction (operands were concretised)
}
type R<T> = Result<T, Stop>;

pub const HEAP0: u64 = 0x10000;
pub const FRAME0: u64 = 0x2000_0000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Nat {
    None,
    Redirect(u32), // harness function that replaces this one
    PathEnd,
    SymVar(u16),
    SymAssume,
    SymAssert,
    SymClose,
    SymConcretize,
    SymReach,
    SymParam,
    SymToken,
    SymTokenVal,
    SymEngine,
    SymFail,
    SymPlain,
    Malloc,
    Calloc,
    Realloc,
    Free,
    RustAlloc,
    RustAllocZ,
    RustDealloc,
    RustRealloc,
    Memalign,
    MemCmp,
    BCmp,
    StrLen,
    MemChr,
    MemRChr,
    Write,
    Writev,
    Errno,
    Exit,
    Abort,
    PanicFmt,
    PanicOther,
    HandleAlloc,
    Zero,
    NullPtr,
    MinusOne,
    RandKeys,
    Syscall,
    GetSpecific,
    SetSpecific,
    KeyCreate,
    FmtFloat(u16),
    FmtInt(u16, bool),
    ItoaFmt(u16, bool),
    RyuFmt,
    UnwindBt,
}

#[derive(Clone, Copy, Debug)]
enum Intr {
    Nop,
    Memcpy,
    Memset,
    Ovf(u8, bool, u16), // 0 add 1 sub 2 mul, signed
    MinMax(u8, u16),
    Sat(u8, u16),
    Bswap(u16),
    Cttz(u16),
    Ctlz(u16),
    Ctpop(u16),
    Fshl(u16),
    Fshr(u16),
    Abs(u16),
    Trap,
    ReduceAdd(u16),
    LoadRel,
    Id,
    ZeroRet,
    FRound(u32, u16),
    FToISat(bool, u16),
    Unknown,
}

pub struct Config {
    pub jobs: usize,
    pub deadline: Instant,
    pub max_steps: u64,
    pub max_depth: usize,
    pub stack_bytes: u64,
    pub params: HashMap<String, u64>,
    pub verbose: bool,
    pub max_viol: usize,
    pub max_paths: u64,
}

#[derive(Default, Clone)]
pub struct Results {
    pub done: u64,
    pub samples: Vec<Vec<(String, u64)>>,
    pub paths: u64,
    pub assumed: u64,
    pub incomplete: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub viol_seen: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub checks: u64,
    pub proved: u64,
    pub steps: u64,
    pub forks: u64,
    pub maxforks: u64,
    pub float_undecided: u64,
    pub funcs: HashSet<String>,
    pub stats: Stats,
    pub vars: u64,
}

pub struct Exec {
    pub m: &'static Module,
    pub x: Ctx,
    pub s: Solver,
    pub cfg: Config,
    nat: Vec<Nat>,
    intr: Vec<Intr>,
    pub work: VecDeque<State>,
    pub bfs: bool,
    pub res: Results,
    executed: Vec<bool>,
    gobj: Vec<Option<Rc<Obj>>>,
    vars: HashMap<(u32, String, u16, u64, u64), E>,
    labels: Vec<String>,
    labelmap: HashMap<String, u32>,
    sub_fmt_f64: Option<u32>,
    sub_fmt_u64: Option<u32>,
    pub prof: HashMap<String, u64>,
    unknown_mem: u64,
    forkloads: bool,
    qcache: HashMap<Vec<E>, Option<Option<Rc<Vec<u64>>>>>,
    fmemo: Vec<Option<&'static Func>>,
    timed_out: bool,
}

fn strip(n: &str) -> String {
    // drop the trailing 17h<16 hex>E of legacy mangling
    if n.starts_with("_ZN") && n.len() > 20 && n.ends_with('E') {
        let k = n.len() - 20;
        if &n[k..k + 3] == "17h" {
            return n[..k].to_string();
        }
    }
    n.to_string()
}

pub fn demangle(n: &str) -> String {
    let s = strip(n);
    if !s.starts_with("_ZN") {
        return s;
    }
    let b = s.as_bytes();
    let mut i = 3;
    let mut out: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut k = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            k = k * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + k > b.len() {
            break;
        }
        out.push(s[i..i + k].to_string());
        i += k;
    }
    let mut r = out.join("::");
    for (a, c) in [
        ("$LT$", "<"),
        ("$GT$", ">"),
        ("$u20$", " "),
        ("$RF$", "&"),
        ("$BP$", "*"),
        ("$C$", ","),
        ("$u7b$", "{"),
        ("$u7d$", "}"),
        ("$u5b$", "["),
        ("$u5d$", "]"),
        ("$LP$", "("),
        ("$RP$", ")"),
        ("..", "::"),
    ] {
        r = r.replace(a, c);
    }
    r.trim_start_matches('_').to_string()
}

impl Exec {
    pub fn new(m: &'static Module, cfg: Config, timeout_ms: u32) -> Exec {
        let forkloads = cfg.params.get("forkloads") == Some(&1);
        let hash0 = cfg.params.get("hash0") == Some(&1);
        let nat = m
            .funcs
            .iter()
            .map(|f| if hash0 && f.name.starts_with("_ZN4core4hash11BuildHasher8hash_one") { Nat::Zero } else { classify(m, &f.name) })
            .collect();
        let ng = m.globals.len();
        let nf = m.funcs.len();
        Exec {
            m,
            x: Ctx::new(),
            s: Solver::new(timeout_ms),
            cfg,
            nat,
            intr: vec![],
            work: VecDeque::new(),
            bfs: false,
            res: Results::default(),
            executed: vec![false; nf],
            gobj: vec![None; ng],
            vars: HashMap::new(),
            labels: vec![],
            labelmap: HashMap::new(),
            sub_fmt_f64: m.fmap.get("twsym_sub_fmt_f64").copied(),
            sub_fmt_u64: m.fmap.get("twsym_sub_fmt_u64").copied(),
            prof: HashMap::new(),
            unknown_mem: 0,
            forkloads,
            qcache: Default::default(),
            fmemo: vec![None; nf],
            timed_out: false,
        }
    }
    fn func(&mut self, f: u32) -> Option<&'static Func> {
        if let Some(p) = self.fmemo[f as usize] {
            return Some(p);
        }
        let r = self.m.func(f)?;
        // the module (and its compiled functions) lives for the whole process
        let p: &'static Func = unsafe { &*(&*r as *const Func) };
        std::mem::forget(r);
        self.fmemo[f as usize] = Some(p);
        Some(p)
    }

    pub fn start(&mut self, entry: &str) {
        let f = *self.m.fmap.get(entry).unwrap_or_else(|| panic!("no harness function {}", entry));
        let func = self.func(f).expect("harness function body");
        let mut st = State {
            regs: vec![V::C(0); func.nslots as usize],
            frames: vec![],
            heap: vec![],
            nheap: 0,
            stk: vec![],
            gmut: Rc::new(HashMap::new()),
            pc: vec![],
            model: Rc::new(Model { vals: vec![], memo: Default::default() }),
            inputs: vec![],
            tokens: vec![],
            steps: 0,
            base_steps: 0,
            reached: vec![],
            fpdirty: false,
            errno: 0,
            keys: vec![],
            forks: 0,
        };
        st.frames.push(Frame { f: func, fidx: f, pc: 0, base: 0, dst: u32::MAX, ret: &[] });
        st.stk.push(if func.frame > 0 { Some(Rc::new(Obj::new(func.frame as usize))) } else { None });
        self.work.push_back(st);
    }
    pub fn next(&mut self) -> Option<State> {
        if self.bfs {
            self.work.pop_front()
        } else {
            self.work.pop_back()
        }
    }
    pub fn over(&mut self) -> bool {
        if !self.timed_out && Instant::now() > self.cfg.deadline {
            self.timed_out = true;
        }
        self.timed_out
    }
    pub fn incomplete(&mut self, why: &str) {
        *self.res.incomplete.entry(why.to_string()).or_insert(0) += 1;
    }

    /// Run one state to the end of its path.
    pub fn run(&mut self, mut st: State) {
        let end = self.run_loop(&mut st);
        self.res.steps += st.steps - st.base_steps;
        self.res.paths += 1;
        self.res.forks += st.forks as u64;
        self.res.maxforks = self.res.maxforks.max(st.pc.len() as u64);
        match end {
            End::Done => {
                for l in &st.reached {
                    *self.res.reach.entry(self.labels[*l as usize].clone()).or_insert(0) += 1;
                }
                self.res.done += 1;
                if self.res.done.is_power_of_two() && self.res.samples.len() < 12 && !st.fpdirty {
                    let v = self.inputs(&st, &st.model);
                    self.res.samples.push(v);
                }
            }
            End::Assume => self.res.assumed += 1,
            End::Viol(v) => {
                if st.fpdirty {
                    self.incomplete("violation under uninterpreted float model");
                }
                self.violation(v)
            }
            End::Incomplete(w) => {
                if self.cfg.verbose {
                    eprintln!("[incomplete] {} in {:?}", w, self.stack(&st).iter().take(6).collect::<Vec<_>>());
                }
                self.incomplete(&w)
            }
        }
    }
    fn violation(&mut self, v: Violation) {
        let key = format!("{}|{}|{}", v.kind, v.msg, v.site);
        let n = self.res.viol_seen.entry(key).or_insert(0);
        *n += 1;
        if *n <= self.cfg.max_viol as u64 {
            if self.cfg.verbose {
                eprintln!("[violation] {} {} at {}\n   {:?}\n   {:?}", v.kind, v.msg, v.site, v.stack.iter().take(12).collect::<Vec<_>>(), v.inputs);
            }
            self.res.violations.push(v);
        }
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(60).map(|f| demangle(&self.m.funcs[f.fidx as usize].name)).collect()
    }
    fn inputs(&self, st: &State, m: &Model) -> Vec<(String, u64)> {
        st.inputs
            .iter()
            .map(|e| {
                let n = self.x.nodes[*e as usize];
                let vi = &self.x.vars[n.a as usize];
                (vi.name.clone(), m.vals.get(n.a as usize).copied().unwrap_or(vi.lo))
            })
            .collect()
    }
    fn mkviol(&self, st: &State, kind: &str, msg: &str, site: &str) -> Violation {
        Violation { kind: kind.into(), msg: msg.into(), site: site.into(), stack: self.stack(st), inputs: self.inputs(st, &st.model) }
    }

    // ---- values -------------------------------------------------------------
    #[inline]
    pub fn e(&mut self, v: V, w: u16) -> E {
        match v {
            V::C(k) => self.x.konst(k as u128, w),
            V::S(e) => e,
        }
    }
    #[inline]
    fn v(&self, e: E) -> V {
        if self.x.w(e) <= 64 {
            if let Some(k) = self.x.is_const(e) {
                return V::C(k as u64);
            }
        }
        V::S(e)
    }
    #[inline]
    fn get(&mut self, st: &State, base: u32, o: Opn, _w: u16) -> V {
        match o {
            Opn::R(s) => st.regs[(base + s) as usize],
            Opn::I(k) => V::C(k),
            Opn::B(i) => {
                // copies between registers do not know the width
                let (k, w) = self.m.bigs.borrow()[i as usize];
                V::S(self.x.konst(k, w))
            }
        }
    }
    fn konstof(&self, v: V) -> Option<u128> {
        match v {
            V::C(k) => Some(k as u128),
            V::S(e) => self.x.is_const(e),
        }
    }
    fn mk(&self, k: u128, w: u16, x: &mut Ctx) -> V {
        if w <= 64 {
            V::C(k as u64)
        } else {
            V::S(x.konst(k, w))
        }
    }
    fn bin(&mut self, op: Op, w: u16, a: V, b: V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let m = mask(w) as u64;
                return V::C(match op {
                    Op::Add => x.wrapping_add(y) & m,
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Mul => x.wrapping_mul(y) & m,
                    Op::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            (x << y) & m
                        }
                    }
                    Op::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    _ => fold(op, w, w, x as u128, y as u128, 0) as u64,
                });
            }
        }
        let (ea, eb) = (self.e(a, w), self.e(b, w));
        let r = self.x.bin(op, ea, eb);
        self.v(r)
    }
    fn sub(&mut self, w: u16, a: V, b: V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(x.wrapping_sub(y) & mask(w) as u64);
        }
        let (ea, eb) = (self.e(a, w), self.e(b, w));
        let r = self.x.sub(ea, eb);
        self.v(r)
    }
    fn icmp(&mut self, p: Pred, w: u16, a: V, b: V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let s = 64 - w as u32;
            let (sx, sy) = (((x << s) as i64) >> s, ((y << s) as i64) >> s);
            return V::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            } as u64);
        }
        let (ea, eb) = (self.e(a, w), self.e(b, w));
        let x = &mut self.x;
        let r = match p {
            Pred::Eq => x.eq(ea, eb),
            Pred::Ne => {
                let t = x.eq(ea, eb);
                x.not1(t)
            }
            Pred::Ult => x.ult(ea, eb),
            Pred::Ugt => x.ult(eb, ea),
            Pred::Ule => {
                let t = x.ult(eb, ea);
                x.not1(t)
            }
            Pred::Uge => {
                let t = x.ult(ea, eb);
                x.not1(t)
            }
            Pred::Slt => x.bin(Op::Slt, ea, eb),
            Pred::Sgt => x.bin(Op::Slt, eb, ea),
            Pred::Sle => {
                let t = x.bin(Op::Slt, eb, ea);
                x.not1(t)
            }
            Pred::Sge => {
                let t = x.bin(Op::Slt, ea, eb);
                x.not1(t)
            }
        };
        self.v(r)
    }
    fn fcmp(&mut self, k: u8, w: u16, a: V, b: V) -> V {
        let (a, b) = (self.e(a, w), self.e(b, w));
        let x = &mut self.x;
        let r = match k {
            0 => x.konst(0, 1),
            15 => x.konst(1, 1),
            1 | 8 | 6 | 13 | 7 | 14 | 2..=5 | 9..=12 => {
                let uno = x.bin(Op::FUno, a, b);
                let oeq = x.bin(Op::FOeq, a, b);
                let olt = x.bin(Op::FOlt, a, b);
                let ogt = x.bin(Op::FOlt, b, a);
                match k {
                    1 => oeq,
                    2 => ogt,
                    3 => {
                        let (p, q) = (x.not1(olt), x.not1(uno));
                        x.bin(Op::And, p, q)
                    }
                    4 => olt,
                    5 => {
                        let (p, q) = (x.not1(ogt), x.not1(uno));
                        x.bin(Op::And, p, q)
                    }
                    6 => x.bin(Op::Or, olt, ogt),
                    7 => x.not1(uno),
                    8 => x.bin(Op::Or, uno, oeq),
                    9 => x.bin(Op::Or, uno, ogt),
                    10 => x.not1(olt),
                    11 => x.bin(Op::Or, uno, olt),
                    12 => x.not1(ogt),
                    13 => x.not1(oeq),
                    _ => uno,
                }
            }
            _ => unreachable!(),
        };
        self.v(r)
    }
    fn cast(&mut self, c: CastOp, fw: u16, tw: u16, a: V) -> V {
        if let V::C(k) = a {
            if fw <= 64 && tw <= 64 {
                return V::C(match c {
                    CastOp::Trunc => k & mask(tw) as u64,
                    CastOp::ZExt => k,
                    CastOp::SExt => (sext(k as u128, fw) as u64) & mask(tw) as u64,
                    CastOp::Un(op) => fold(op, tw, fw, k as u128, 0, 0) as u64,
                });
            }
        }
        let e = self.e(a, fw);
        let r = match c {
            CastOp::Trunc => self.x.extract(e, 0, tw),
            CastOp::ZExt => self.x.zext(e, tw),
            CastOp::SExt => self.x.sext(e, tw),
            CastOp::Un(op) => self.x.un(op, e, tw, 0),
        };
        self.v(r)
    }
    fn repack(&mut self, fw: u16, tw: u16, els: &[V]) -> Vec<V> {
        let total = fw as usize * els.len();
        let n = total / tw as usize;
        if els.iter().all(|v| matches!(v, V::C(_))) {
            // concrete: go through bits
            let mut bits: Vec<u8> = vec![];
            for v in els {
                if let V::C(k) = v {
                    for i in 0..fw {
                        bits.push(((k >> i) & 1) as u8);
                    }
                }
            }
            let mut out = vec![];
            for i in 0..n {
                let mut k = 0u128;
                for j in 0..tw as usize {
                    k |= (bits[i * tw as usize + j] as u128) << j;
                }
                let v = if tw <= 64 { V::C(k as u64) } else { V::S(self.x.konst(k, tw)) };
                out.push(v);
            }
            return out;
        }
        let mut out = vec![];
        for i in 0..n {
            let (mut lo, hi) = (i * tw as usize, (i + 1) * tw as usize);
            let mut acc: Option<E> = None;
            while lo < hi {
                let k = lo / fw as usize;
                let o = lo % fw as usize;
                let take = (fw as usize - o).min(hi - lo);
                let e = self.e(els[k], fw);
                let p = self.x.extract(e, o as u16, take as u16);
                acc = Some(match acc {
                    None => p,
                    Some(a) => self.x.concat(p, a),
                });
                lo += take;
            }
            let e = acc.unwrap();
            out.push(self.v(e));
        }
        out
    }

    // ---- path condition -----------------------------------------------------
    fn eval(&self, st: &State, e: E) -> u128 {
        self.x.eval(e, &st.model.vals, &mut st.model.memo.borrow_mut())
    }
    fn known(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(k) = self.x.is_const(c) {
            return Some(k == 1);
        }
        if st.pc.contains(&c) {
            return Some(true);
        }
        let n = self.x.not1(c);
        if st.pc.contains(&n) {
            return Some(false);
        }
        None
    }
    fn newmodel(&self, vals: Vec<u64>) -> Rc<Model> {
        Rc::new(Model { vals, memo: Default::default() })
    }
    /// Is pc and c satisfiable? None: unknown. Only the part of pc that shares variables with c
    /// (transitively) is given to the solver; the rest keeps the values of the state's model.
    fn sat(&mut self, st: &State, c: E) -> Option<Option<Rc<Model>>> {
        let mut set: Vec<u64> = (*self.x.varset(c)).clone();
        let mut todo: Vec<(E, Rc<Vec<u64>>)> = st.pc.iter().map(|p| (*p, self.x.varset(*p))).collect();
        let mut inset = vec![false; todo.len()];
        let fp = st.fpdirty;
        loop {
            let mut more = false;
            for (i, (_, v)) in todo.iter().enumerate() {
                if !inset[i] && (fp || v.iter().zip(set.iter()).any(|(a, b)| a & b != 0)) {
                    inset[i] = true;
                    if set.len() < v.len() {
                        set.resize(v.len(), 0);
                    }
                    for (a, b) in set.iter_mut().zip(v.iter()) {
                        if *b & !*a != 0 {
                            *a |= *b;
                            more = true;
                        }
                    }
                }
            }
            if !more {
                break;
            }
        }
        let slice: Vec<E> = todo.drain(..).enumerate().filter(|(i, _)| inset[*i]).map(|(_, x)| x.0).collect();
        let mut key = slice.clone();
        key.sort();
        key.push(c);
        let vals = match self.qcache.get(&key) {
            Some(r) => {
                self.s.stats.cached += 1;
                r.clone()
            }
            None => {
                let r = match self.s.check(&self.x, &slice, c) {
                    Res::Sat(v) => Some(Some(Rc::new(v))),
                    Res::Unsat => Some(None),
                    Res::Unknown => None,
                };
                if self.qcache.len() > 400_000 {
                    self.qcache.clear();
                }
                self.qcache.insert(key, r.clone());
                r
            }
        };
        match vals {
            None => None,
            Some(None) => Some(None),
            Some(Some(v)) => {
                let mut m = st.model.vals.clone();
                while m.len() < v.len() {
                    let k = m.len();
                    m.push(self.x.vars[k].lo);
                }
                for i in 0..v.len() {
                    if set.get(i / 64).map_or(false, |w| w >> (i % 64) & 1 == 1) {
                        m[i] = v[i];
                    }
                }
                Some(Some(self.newmodel(m)))
            }
        }
    }
    fn fp_check(&self, st: &mut State, c: E) {
        if self.x.has_fp(c) || st.fpdirty {
            let bad = st.pc.iter().any(|e| self.eval(st, *e) != 1);
            st.fpdirty = bad;
        }
    }
    fn note_fork(&mut self, st: &State) {
        if self.cfg.verbose {
            let n = demangle(&self.m.funcs[st.frames.last().unwrap().fidx as usize].name);
            *self.prof.entry(n).or_insert(0) += 1;
        }
    }
    /// Decide a branch; the other side (if feasible) is queued after `other` adjusted it.
    fn decide(&mut self, st: &mut State, c: E, other: impl FnOnce(&mut State, bool)) -> R<bool> {
        if let Some(k) = self.known(st, c) {
            return Ok(k);
        }
        let mv = self.eval(st, c) == 1;
        let nc = self.x.not1(c);
        let (tk, ot) = if mv { (c, nc) } else { (nc, c) };
        match self.sat(st, ot) {
            Some(None) => {}
            Some(Some(m)) => {
                self.note_fork(st);
                if std::env::var_os("TWSYM_FORKQ").is_some() {
                    eprintln!("[fork {}] {}", demangle(&self.m.funcs[st.frames.last().unwrap().fidx as usize].name), self.x.show(c, 8));
                }
                let mut o = st.clone();
                o.base_steps = o.steps;
                o.forks = 1;
                o.pc.push(ot);
                o.model = m;
                self.fp_check(&mut o, ot);
                other(&mut o, !mv);
                self.work.push_back(o);
                st.pc.push(tk);
            }
            None => {
                self.incomplete("solver gave no answer on a branch");
                st.pc.push(tk);
            }
        }
        Ok(mv)
    }
    /// Make a value concrete; other values are explored by re-executing the instruction.
    fn conc(&mut self, st: &mut State, v: V) -> R<u64> {
        let e = match v {
            V::C(k) => return Ok(k),
            V::S(e) => e,
        };
        if let Some(k) = self.x.is_const(e) {
            return Ok(k as u64);
        }
        let k = self.eval(st, e);
        let w = self.x.w(e);
        let ke = self.x.konst(k, w);
        let c = self.x.eq(e, ke);
        self.decide(st, c, |_, _| {})?;
        Ok(k as u64)
    }
    fn conc_op(&mut self, st: &mut State, base: u32, o: Opn, w: u16) -> R<u64> {
        let v = self.get(st, base, o, w);
        let k = self.conc(st, v)?;
        if let (Opn::R(s), V::S(_)) = (o, v) {
            st.regs[(base + s) as usize] = V::C(k);
        }
        Ok(k)
    }

    // ---- memory -------------------------------------------------------------
    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        if size > 1 << 30 {
            return 0;
        }
        let id = st.nheap as usize;
        st.nheap += 1;
        if id / CHUNK >= st.heap.len() {
            st.heap.push(Rc::new(std::array::from_fn(|_| None)));
        }
        Rc::make_mut(&mut st.heap[id / CHUNK])[id % CHUNK] = Some(Rc::new(Obj::new(size as usize)));
        (HEAP0 + id as u64) << 32
    }
    fn memerr(&self, st: &State, what: &str, addr: u64) -> Stop {
        Stop::End(End::Viol(self.mkviol(st, "memory", &format!("{} at {:#x}", what, addr), &self.site(st))))
    }
    fn site(&self, st: &State) -> String {
        // innermost function of the code under test
        for f in st.frames.iter().rev() {
            let n = demangle(&self.m.funcs[f.fidx as usize].name);
            if n.contains("twiggy") {
                return n;
            }
        }
        st.frames.last().map(|f| demangle(&self.m.funcs[f.fidx as usize].name)).unwrap_or_default()
    }
    fn gobj(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = &self.gobj[g as usize] {
            return o.clone();
        }
        let d = self.m.global_data(g);
        let o = Rc::new(Obj { data: (*d).clone(), sym: vec![] });
        self.gobj[g as usize] = Some(o.clone());
        o
    }
    fn obj<'a>(&'a mut self, st: &'a State, addr: u64) -> Option<(&'a Obj, usize)> {
        let id = addr >> 32;
        if id >= FRAME0 && id < FUNC_BASE {
            let o = st.stk.get((id - FRAME0) as usize)?.as_ref()?;
            return Some((o, addr as u32 as usize));
        }
        if id >= HEAP0 && id < FRAME0 {
            let k = (id - HEAP0) as usize;
            let o = st.heap.get(k / CHUNK)?[k % CHUNK].as_ref()?;
            return Some((o, addr as u32 as usize));
        }
        if id == GLOBAL_BASE >> 32 {
            let g = self.m.global_at(addr)?;
            let off = (addr - self.m.globals[g as usize].addr) as usize;
            if let Some(o) = st.gmut.get(&g) {
                return Some((o, off));
            }
            if self.gobj[g as usize].is_none() {
                self.gobj(g);
            }
            return Some((self.gobj[g as usize].as_ref().unwrap(), off));
        }
        None
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64) -> Option<(&'a mut Obj, usize)> {
        let id = addr >> 32;
        if id >= FRAME0 && id < FUNC_BASE {
            let o = st.stk.get_mut((id - FRAME0) as usize)?.as_mut()?;
            return Some((Rc::make_mut(o), addr as u32 as usize));
        }
        if id >= HEAP0 && id < FRAME0 {
            let k = (id - HEAP0) as usize;
            let c = st.heap.get_mut(k / CHUNK)?;
            c[k % CHUNK].as_ref()?;
            let o = Rc::make_mut(c)[k % CHUNK].as_mut()?;
            return Some((Rc::make_mut(o), addr as u32 as usize));
        }
        if id == GLOBAL_BASE >> 32 {
            let g = self.m.global_at(addr)?;
            if self.m.globals[g as usize].constant {
                return None;
            }
            let off = (addr - self.m.globals[g as usize].addr) as usize;
            if !st.gmut.contains_key(&g) {
                let o = self.gobj(g);
                Rc::make_mut(&mut st.gmut).insert(g, o);
            }
            let o = Rc::make_mut(&mut st.gmut).get_mut(&g).unwrap();
            return Some((Rc::make_mut(o), off));
        }
        None
    }
    fn load(&mut self, st: &State, addr: u64, w: u16) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let (v, parts) = match self.obj(st, addr) {
            Some((o, off)) if off + n <= o.data.len() => {
                if o.sym.is_empty() || o.sym[off..off + n].iter().all(|s| *s == 0) {
                    let mut b = [0u8; 16];
                    b[..n.min(16)].copy_from_slice(&o.data[off..off + n.min(16)]);
                    (u128::from_le_bytes(b), None)
                } else {
                    (0, Some((off..off + n).map(|k| if o.sym[k] != 0 { (o.sym[k], true) } else { (o.data[k] as u32, false) }).collect::<Vec<_>>()))
                }
            }
            _ => return Err(self.memerr(st, "invalid read", addr)),
        };
        match parts {
            None => {
                let v = v & mask(w);
                if w <= 64 {
                    Ok(V::C(v as u64))
                } else {
                    Ok(V::S(self.x.konst(v, w)))
                }
            }
            Some(p) => {
                let mut acc: Option<E> = None;
                for (k, s) in p {
                    let b = if s { k } else { self.x.konst(k as u128, 8) };
                    acc = Some(match acc {
                        None => b,
                        Some(a) => self.x.concat(b, a),
                    });
                }
                let mut e = acc.unwrap();
                if w % 8 != 0 {
                    e = self.x.extract(e, 0, w);
                }
                Ok(self.v(e))
            }
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, v: V, w: u16) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        // make the byte expressions first
        let k = self.konstof(v);
        let bytes: Vec<E> = if k.is_none() {
            let mut e = self.e(v, w);
            if w % 8 != 0 {
                e = self.x.zext(e, n as u16 * 8);
            }
            (0..n).map(|i| self.x.extract(e, i as u16 * 8, 8)).collect()
        } else {
            vec![]
        };
        let bc: Vec<Option<u8>> = bytes.iter().map(|b| self.x.is_const(*b).map(|k| k as u8)).collect();
        match self.obj_mut(st, addr) {
            Some((o, off)) if off + n <= o.data.len() => {
                if let Some(k) = k {
                    o.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                    if !o.sym.is_empty() {
                        for s in &mut o.sym[off..off + n] {
                            *s = 0;
                        }
                    }
                } else {
                    if o.sym.is_empty() {
                        o.sym = vec![0; o.data.len()];
                    }
                    for i in 0..n {
                        match bc[i] {
                            Some(b) => {
                                o.data[off + i] = b;
                                o.sym[off + i] = 0;
                            }
                            None => o.sym[off + i] = bytes[i],
                        }
                    }
                }
                Ok(())
            }
            _ => Err(self.memerr(st, "invalid write", addr)),
        }
    }
    fn read_range(&mut self, st: &State, addr: u64, n: usize) -> R<(Vec<u8>, Vec<u32>)> {
        if n == 0 {
            return Ok((vec![], vec![]));
        }
        let r = match self.obj(st, addr) {
            Some((o, off)) if off + n <= o.data.len() => {
                let s = if o.sym.is_empty() { vec![] } else { o.sym[off..off + n].to_vec() };
                Some((o.data[off..off + n].to_vec(), s))
            }
            _ => None,
        };
        r.ok_or_else(|| self.memerr(st, "invalid read", addr))
    }
    fn write_range(&mut self, st: &mut State, addr: u64, d: &[u8], s: &[u32]) -> R<()> {
        let n = d.len();
        if n == 0 {
            return Ok(());
        }
        match self.obj_mut(st, addr) {
            Some((o, off)) if off + n <= o.data.len() => {
                o.data[off..off + n].copy_from_slice(d);
                let anysym = s.iter().any(|x| *x != 0);
                if anysym && o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                if !o.sym.is_empty() {
                    if s.is_empty() {
                        for x in &mut o.sym[off..off + n] {
                            *x = 0;
                        }
                    } else {
                        o.sym[off..off + n].copy_from_slice(s);
                    }
                }
                Ok(())
            }
            _ => Err(self.memerr(st, "invalid write", addr)),
        }
    }
    fn bytes(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<E>> {
        let (d, s) = self.read_range(st, addr, n)?;
        Ok((0..n).map(|i| if !s.is_empty() && s[i] != 0 { s[i] } else { self.x.konst(d[i] as u128, 8) }).collect())
    }
    fn cbytes(&mut self, st: &mut State, addr: u64, n: usize) -> R<Vec<u8>> {
        let b = self.bytes(st, addr, n)?;
        let mut out = vec![];
        for e in b {
            let v = self.v(e);
            out.push(self.conc(st, v)? as u8);
        }
        Ok(out)
    }
    /// Concrete text for messages (symbolic bytes shown as '?').
    fn text(&mut self, st: &State, addr: u64, n: u64) -> String {
        match self.read_range(st, addr, n.min(2000) as usize) {
            Ok((mut d, s)) => {
                for i in 0..s.len() {
                    if s[i] != 0 {
                        d[i] = b'?';
                    }
                }
                String::from_utf8_lossy(&d).to_string()
            }
            Err(_) => String::new(),
        }
    }
    /// Load through a symbolic address.
    fn load_sym(&mut self, st: &mut State, a: E, w: u16) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        let av = self.eval(st, a) as u64;
        let (base, size) = match self.obj(st, av) {
            Some((o, off)) => (av - off as u64, o.data.len() as u64),
            None => {
                let k = self.conc(st, V::S(a))?;
                return self.load(st, k, w);
            }
        };
        if size < n {
            let k = self.conc(st, V::S(a))?;
            return self.load(st, k, w);
        }
        let (mut lo, mut hi) = (base, base + size - n);
        let (il, ih) = (self.x.lo[a as usize], self.x.hi[a as usize]);
        if il < lo as u128 || ih > hi as u128 {
            // can it leave the object?
            let l = self.x.konst(lo as u128, 64);
            let h = self.x.konst(hi as u128, 64);
            let c1 = self.x.ult(a, l);
            let c2 = self.x.ult(h, a);
            let c = self.x.bin(Op::Or, c1, c2);
            match self.known(st, c) {
                Some(false) => {}
                Some(true) => {
                    let k = self.conc(st, V::S(a))?;
                    return self.load(st, k, w);
                }
                None => match self.sat(st, c) {
                    Some(None) => {}
                    Some(Some(_)) => {
                        // split: inside this object or not (re-executes outside)
                        let nc = self.x.not1(c);
                        self.decide(st, nc, |_, _| {})?;
                    }
                    None => {
                        let k = self.conc(st, V::S(a))?;
                        return self.load(st, k, w);
                    }
                },
            }
        }
        lo = (lo as u128).max(il) as u64;
        hi = (hi as u128).min(ih) as u64;
        // possible addresses form a residue class
        let lin = self.x.linear(a);
        let mut stride: u64 = 0;
        for (_, c) in &lin.0 {
            // only powers of two survive wrap-around
            let c = *c as u64;
            let p = c & c.wrapping_neg();
            stride = if stride == 0 { p } else { stride.min(p) };
        }
        let stride = stride.max(1);
        let rem = (lin.1 as u64) % stride;
        let first = lo + (rem + stride - lo % stride) % stride;
        if first > hi {
            return Err(Stop::End(End::Incomplete("empty address set".into())));
        }
        let cnt = (hi - first) / stride + 1;
        // parsing arbitrary bytes: positions in the input are told apart, tables are not
        if cnt > 4096 || (cnt > 4 && self.forkloads && base >> 32 != GLOBAL_BASE >> 32) {
            let k = self.conc(st, V::S(a))?;
            return self.load(st, k, w);
        }
        // runs of equal values
        let mut runs: Vec<(u64, E)> = vec![];
        let mut p = first;
        while p <= hi {
            let v = self.load(st, p, w)?;
            let e = self.e(v, w);
            if runs.last().map_or(true, |r| r.1 != e) {
                runs.push((p, e));
            }
            p += stride;
        }
        let r = self.mux(a, &runs);
        Ok(self.v(r))
    }
    fn mux(&mut self, a: E, runs: &[(u64, E)]) -> E {
        if runs.len() == 1 {
            return runs[0].1;
        }
        let mid = runs.len() / 2;
        let l = self.mux(a, &runs[..mid]);
        let h = self.mux(a, &runs[mid..]);
        let k = self.x.konst(runs[mid].0 as u128, 64);
        let c = self.x.ult(a, k);
        self.x.ite(c, l, h)
    }
    fn addr(&mut self, st: &mut State, base: u32, o: Opn) -> R<u64> {
        self.conc_op(st, base, o, 64)
    }

    // ---- main loop ------------------------------------------------------------
    fn run_loop(&mut self, st: &mut State) -> End {
        loop {
            match self.step_block(st) {
                Ok(Some(e)) => return e,
                Ok(None) => {}
                Err(Stop::Retry) => {}
                Err(Stop::End(e)) => return e,
            }
        }
    }
    fn jump(&mut self, st: &mut State, f: &'static Func, base: u32, e: u32) -> u32 {
        let ed = &f.edges[e as usize];
        let c = &ed.copies;
        match c.len() {
            0 => {}
            1 => {
                let v = self.get(st, base, c[0].1, 64);
                st.regs[(base + c[0].0) as usize] = v;
            }
            _ => {
                let mut tmp: [V; 16] = [V::C(0); 16];
                if c.len() <= 16 {
                    for (i, (_, o)) in c.iter().enumerate() {
                        tmp[i] = self.get(st, base, *o, 64);
                    }
                    for (i, (d, _)) in c.iter().enumerate() {
                        st.regs[(base + d) as usize] = tmp[i];
                    }
                } else {
                    let t: Vec<V> = c.iter().map(|(_, o)| self.get(st, base, *o, 64)).collect();
                    for (i, (d, _)) in c.iter().enumerate() {
                        st.regs[(base + d) as usize] = t[i];
                    }
                }
            }
        }
        ed.target
    }
    /// Execute until the frame changes; Ok(Some(end)) when the path is over.
    fn step_block(&mut self, st: &mut State) -> R<Option<End>> {
        let top = st.frames.len() - 1;
        let (f, base) = (st.frames[top].f, st.frames[top].base);
        let mut pc = st.frames[top].pc;
        let code = &f.code;
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.regs[(base + $d) as usize] = v;
            }};
        }
        macro_rules! get {
            ($o:expr, $w:expr) => {
                self.get(st, base, $o, $w)
            };
        }
        loop {
            st.steps += 1;
            if st.steps & 0xffff == 0 {
                if st.steps > self.cfg.max_steps {
                    return Ok(Some(End::Viol(self.mkviol(st, "hang", "no termination within the step limit", &self.site(st)))));
                }
                if self.over() {
                    return Ok(Some(End::Incomplete("time limit".into())));
                }
            }
            st.frames[top].pc = pc;
            match &code[pc as usize] {
                Inst::Bin(op, w, d, a, b) => {
                    let (a, b) = (get!(*a, *w), get!(*b, *w));
                    if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && self.konstof(b) == Some(0) {
                        return Ok(Some(End::Incomplete("division by zero (undefined)".into())));
                    }
                    set!(*d, self.bin(*op, *w, a, b))
                }
                Inst::BinV(op, w, d, a, b) => {
                    for i in 0..a.len() {
                        let (x, y) = (get!(a[i], *w), get!(b[i], *w));
                        set!(*d + i as u32, self.bin(*op, *w, x, y));
                    }
                }
                Inst::Sub(w, d, a, b) => {
                    let (a, b) = (get!(*a, *w), get!(*b, *w));
                    set!(*d, self.sub(*w, a, b))
                }
                Inst::SubV(w, d, a, b) => {
                    for i in 0..a.len() {
                        let (x, y) = (get!(a[i], *w), get!(b[i], *w));
                        set!(*d + i as u32, self.sub(*w, x, y));
                    }
                }
                Inst::ICmp(p, w, d, a, b) => {
                    let (a, b) = (get!(*a, *w), get!(*b, *w));
                    set!(*d, self.icmp(*p, *w, a, b))
                }
                Inst::ICmpV(p, w, d, a, b) => {
                    for i in 0..a.len() {
                        let (x, y) = (get!(a[i], *w), get!(b[i], *w));
                        set!(*d + i as u32, self.icmp(*p, *w, x, y));
                    }
                }
                Inst::FCmp(k, w, d, a, b) => {
                    let (a, b) = (get!(*a, *w), get!(*b, *w));
                    set!(*d, self.fcmp(*k, *w, a, b))
                }
                Inst::FNeg(w, d, a) => {
                    let a = get!(*a, *w);
                    let sign = V::C(1u64 << (*w - 1));
                    set!(*d, self.bin(Op::Xor, *w, a, sign))
                }
                Inst::Cast(c, fw, tw, d, a) => {
                    let a = get!(*a, *fw);
                    set!(*d, self.cast(*c, *fw, *tw, a))
                }
                Inst::CastV(c, fw, tw, d, a) => {
                    for i in 0..a.len() {
                        let x = get!(a[i], *fw);
                        set!(*d + i as u32, self.cast(*c, *fw, *tw, x));
                    }
                }
                Inst::Repack(fw, tw, d, a) => {
                    let v: Vec<V> = a.iter().map(|o| get!(*o, *fw)).collect();
                    for (i, x) in self.repack(*fw, *tw, &v).into_iter().enumerate() {
                        set!(*d + i as u32, x);
                    }
                }
                Inst::Gep(d, b, off, idx) => {
                    let mut acc = get!(*b, 64);
                    if *off != 0 {
                        acc = self.bin(Op::Add, 64, acc, V::C(*off as u64));
                    }
                    for (o, w, s) in idx.iter() {
                        let mut i = get!(*o, *w);
                        if *w < 64 {
                            i = self.cast(CastOp::SExt, *w, 64, i);
                        }
                        let t = self.bin(Op::Mul, 64, i, V::C(*s as u64));
                        acc = self.bin(Op::Add, 64, acc, t);
                    }
                    set!(*d, acc)
                }
                Inst::Load(d, p, w) => {
                    let v = match get!(*p, 64) {
                        V::C(a) => self.load(st, a, *w)?,
                        V::S(e) => self.load_sym(st, e, *w)?,
                    };
                    set!(*d, v)
                }
                Inst::LoadN(d, p, els) => {
                    let a = self.addr(st, base, *p)?;
                    for (i, el) in els.iter().enumerate() {
                        let v = self.load(st, a + el.off as u64, el.bits)?;
                        set!(*d + i as u32, v);
                    }
                }
                Inst::Store(p, v, w) => {
                    let a = self.addr(st, base, *p)?;
                    let v = get!(*v, *w);
                    self.store(st, a, v, *w)?;
                }
                Inst::StoreN(p, v, els) => {
                    let a = self.addr(st, base, *p)?;
                    for (i, el) in els.iter().enumerate() {
                        let x = get!(v[i], el.bits);
                        self.store(st, a + el.off as u64, x, el.bits)?;
                    }
                }
                Inst::Select(d, c, w, a, b) => {
                    let cv = get!(*c, 1);
                    let v = self.select(st, cv, *w, *a, *b, base)?;
                    set!(*d, v)
                }
                Inst::SelectN(d, c, ws, a, b) => {
                    let cv = get!(*c, 1);
                    let mut t = Vec::with_capacity(a.len());
                    for i in 0..a.len() {
                        t.push(self.select(st, cv, ws[i], a[i], b[i], base)?);
                    }
                    for (i, v) in t.into_iter().enumerate() {
                        set!(*d + i as u32, v);
                    }
                }
                Inst::SelectV(d, c, w, a, b) => {
                    let mut t = Vec::with_capacity(a.len());
                    for i in 0..a.len() {
                        let cv = get!(c[if c.len() == 1 { 0 } else { i }], 1);
                        t.push(self.select(st, cv, *w, a[i], b[i], base)?);
                    }
                    for (i, v) in t.into_iter().enumerate() {
                        set!(*d + i as u32, v);
                    }
                }
                Inst::Copy1(d, a) => {
                    let v = get!(*a, 64);
                    set!(*d, v)
                }
                Inst::CopyN(d, a) => {
                    let t: Vec<V> = a.iter().map(|o| get!(*o, 64)).collect();
                    for (i, v) in t.into_iter().enumerate() {
                        set!(*d + i as u32, v);
                    }
                }
                Inst::ExtElDyn(d, _w, a, i, iw) => {
                    let k = self.conc_op(st, base, *i, *iw)? as usize;
                    let v = get!(a[k.min(a.len() - 1)], 64);
                    set!(*d, v)
                }
                Inst::InsElDyn(d, _w, a, v, i, iw) => {
                    let k = self.conc_op(st, base, *i, *iw)? as usize;
                    let mut t: Vec<V> = a.iter().map(|o| get!(*o, 64)).collect();
                    let l = t.len();
                    t[k.min(l - 1)] = get!(*v, 64);
                    for (i, v) in t.into_iter().enumerate() {
                        set!(*d + i as u32, v);
                    }
                }
                Inst::FrameAddr(d, off) => {
                    set!(*d, V::C(((FRAME0 + top as u64) << 32) + *off as u64))
                }
                Inst::AllocaDyn(d, s, n) => {
                    let n = self.conc_op(st, base, *n, 64)?;
                    let a = self.alloc(st, s * n);
                    set!(*d, V::C(a))
                }
                Inst::Br(e) => {
                    pc = self.jump(st, f, base, *e);
                    continue;
                }
                Inst::CondBr(c, a, b) => {
                    let t = match get!(*c, 1) {
                        V::C(k) => k == 1,
                        V::S(e) => {
                            let (ea, eb) = (*a, *b);
                            let mut other: Option<(u32, u32)> = None;
                            let _ = &mut other;
                            let fr = f;
                            // the queued state re-executes the branch with the condition decided
                            let reg = *c;
                            let r = self.decide(st, e, |o, dir| {
                                if let Opn::R(s) = reg {
                                    o.regs[(base + s) as usize] = V::C(dir as u64);
                                }
                            })?;
                            let _ = (ea, eb, fr);
                            if let Opn::R(s) = *c {
                                st.regs[(base + s) as usize] = V::C(r as u64);
                            }
                            r
                        }
                    };
                    pc = self.jump(st, f, base, if t { *a } else { *b });
                    continue;
                }
                Inst::Switch(w, v, cases, def) => {
                    let e = match get!(*v, *w) {
                        V::C(k) => match cases.binary_search_by(|c| c.0.cmp(&k)) {
                            Ok(i) => cases[i].1,
                            Err(_) => *def,
                        },
                        V::S(x) => {
                            let k = self.eval(st, x) as u64;
                            let edge = match cases.binary_search_by(|c| c.0.cmp(&k)) {
                                Ok(i) => cases[i].1,
                                Err(_) => *def,
                            };
                            let mut c = self.x.konst(0, 1);
                            if edge == *def {
                                for (k, e) in cases.iter() {
                                    if *e != *def {
                                        let ke = self.x.konst(*k as u128, *w);
                                        let t = self.x.eq(x, ke);
                                        c = self.x.bin(Op::Or, c, t);
                                    }
                                }
                                c = self.x.not1(c);
                            } else {
                                for (k, e) in cases.iter() {
                                    if *e == edge {
                                        let ke = self.x.konst(*k as u128, *w);
                                        let t = self.x.eq(x, ke);
                                        c = self.x.bin(Op::Or, c, t);
                                    }
                                }
                            }
                            self.decide(st, c, |_, _| {})?;
                            edge
                        }
                    };
                    pc = self.jump(st, f, base, e);
                    continue;
                }
                Inst::Ret(v) => {
                    let fr = st.frames[top].clone();
                    let vals: [V; 4];
                    if v.len() <= 4 {
                        let mut t = [V::C(0); 4];
                        for (i, o) in v.iter().enumerate() {
                            t[i] = get!(*o, fr.ret.get(i).copied().unwrap_or(64));
                        }
                        vals = t;
                        st.regs.truncate(base as usize);
                        if fr.dst != u32::MAX {
                            for i in 0..v.len() {
                                st.regs[fr.dst as usize + i] = vals[i];
                            }
                        }
                    } else {
                        let t: Vec<V> = v.iter().enumerate().map(|(i, o)| get!(*o, fr.ret.get(i).copied().unwrap_or(64))).collect();
                        st.regs.truncate(base as usize);
                        if fr.dst != u32::MAX {
                            for (i, x) in t.into_iter().enumerate() {
                                st.regs[fr.dst as usize + i] = x;
                            }
                        }
                    }
                    st.frames.pop();
                    st.stk.pop();
                    if st.frames.is_empty() {
                        return Ok(Some(End::Done));
                    }
                    return Ok(None);
                }
                Inst::Unreachable => {
                    return Ok(Some(End::Viol(self.mkviol(st, "unreachable", "reached unreachable code", &self.site(st)))));
                }
                Inst::Rmw(k, w, d, p, v) => {
                    let a = self.addr(st, base, *p)?;
                    let v = get!(*v, *w);
                    let old = self.load(st, a, *w)?;
                    let new = match *k {
                        0 => v,
                        1 => self.bin(Op::Add, *w, old, v),
                        2 => self.sub(*w, old, v),
                        3 => self.bin(Op::And, *w, old, v),
                        4 => self.bin(Op::Or, *w, old, v),
                        5 => self.bin(Op::Xor, *w, old, v),
                        _ => return Ok(Some(End::Incomplete("atomicrmw kind".into()))),
                    };
                    self.store(st, a, new, *w)?;
                    set!(*d, old)
                }
                Inst::CmpXchg(w, d, p, c, n) => {
                    let a = self.addr(st, base, *p)?;
                    let old = self.load(st, a, *w)?;
                    let (c, n) = (get!(*c, *w), get!(*n, *w));
                    let eq = self.icmp(Pred::Eq, *w, old, c);
                    let eq = self.conc(st, eq)?;
                    if eq == 1 {
                        self.store(st, a, n, *w)?;
                    }
                    set!(*d, old);
                    set!(*d + 1, V::C(eq));
                }
                Inst::Nop => {}
                Inst::Bad(s) => return Ok(Some(End::Incomplete(format!("unsupported instruction: {}", s)))),
                Inst::Call(c) => {
                    let c: &'static CallI = unsafe { &*(&**c as *const CallI) };
                    let fi = match &c.callee {
                        Callee::Direct(fi) => *fi,
                        Callee::Indirect(o) => {
                            let a = self.addr(st, base, *o)?;
                            let id = a >> 32;
                            if id < FUNC_BASE || id - FUNC_BASE >= self.m.funcs.len() as u64 || a as u32 != 0 {
                                return Err(self.memerr(st, "call of a bad pointer", a));
                            }
                            (id - FUNC_BASE) as u32
                        }
                        Callee::Intrinsic(i) => {
                            self.intrinsic(st, c, *i, base)?;
                            pc += 1;
                            continue;
                        }
                        Callee::Asm => {
                            // cpuid (feature detection: report nothing) or a compiler barrier
                            if c.dst != u32::MAX {
                                for i in 0..c.ret.len() {
                                    set!(c.dst + i as u32, V::C(0));
                                }
                            }
                            pc += 1;
                            continue;
                        }
                    };
                    let mut fi = fi;
                    let mut n = self.nat[fi as usize];
                    if let Nat::Redirect(t) = n {
                        fi = t;
                        n = Nat::None;
                    }
                    if n != Nat::None {
                        match self.native(st, c, fi, n, base)? {
                            Done::Ret(v) => {
                                if c.dst != u32::MAX {
                                    for (i, x) in v.into_iter().enumerate() {
                                        if i < c.ret.len() {
                                            set!(c.dst + i as u32, x);
                                        }
                                    }
                                }
                                pc += 1;
                                continue;
                            }
                            Done::Call(g, args) => {
                                st.frames[top].pc = pc + 1;
                                self.enter(st, g, &args, if c.dst == u32::MAX { u32::MAX } else { base + c.dst }, &c.ret)?;
                                return Ok(None);
                            }
                            Done::Normal => {}
                        }
                    }
                    if self.m.funcs[fi as usize].text.is_none() {
                        return Ok(Some(End::Incomplete(format!("call of external function {}", self.m.funcs[fi as usize].name))));
                    }
                    let na = c.args.len();
                    let dst = if c.dst == u32::MAX { u32::MAX } else { base + c.dst };
                    st.frames[top].pc = pc + 1;
                    let g = self.func(fi).unwrap();
                    let nb = st.regs.len();
                    if st.frames.len() >= self.cfg.max_depth {
                        return Ok(Some(End::Viol(self.mkviol(st, "stack-overflow", "call depth limit exceeded", &self.site(st)))));
                    }
                    st.regs.resize(nb + (g.nslots as usize).max(na), V::C(0));
                    for i in 0..na {
                        let v = get!(c.args[i], c.argw[i]);
                        st.regs[nb + i] = v;
                    }
                    self.executed[fi as usize] = true;
                    st.frames.push(Frame { f: g, fidx: fi, pc: 0, base: nb as u32, dst, ret: &c.ret });
                    st.stk.push(if g.frame > 0 { Some(Rc::new(Obj::new(g.frame as usize))) } else { None });
                    return Ok(None);
                }
            }
            pc += 1;
        }
    }
    fn enter(&mut self, st: &mut State, fi: u32, args: &[V], dst: u32, ret: &'static [u16]) -> R<()> {
        let g = self.func(fi).expect("function body");
        let nb = st.regs.len();
        st.regs.resize(nb + (g.nslots as usize).max(args.len()), V::C(0));
        st.regs[nb..nb + args.len()].copy_from_slice(args);
        self.executed[fi as usize] = true;
        st.frames.push(Frame { f: g, fidx: fi, pc: 0, base: nb as u32, dst, ret });
        st.stk.push(if g.frame > 0 { Some(Rc::new(Obj::new(g.frame as usize))) } else { None });
        Ok(())
    }
    fn select(&mut self, st: &mut State, c: V, w: u16, a: Opn, b: Opn, base: u32) -> R<V> {
        match c {
            V::C(k) => Ok(self.get(st, base, if k == 1 { a } else { b }, w)),
            V::S(e) => {
                if let Some(k) = self.known(st, e) {
                    return Ok(self.get(st, base, if k { a } else { b }, w));
                }
                let (va, vb) = (self.get(st, base, a, w), self.get(st, base, b, w));
                let ptrish = |v: V| matches!(v, V::C(k) if w == 64 && k >= (1 << 32) && k >> 32 <= FUNC_BASE + 0x100000);
                if ptrish(va) || ptrish(vb) {
                    if let (V::C(x), V::C(y)) = (va, vb) {
                        if x == y {
                            return Ok(va);
                        }
                    }
                    let r = self.decide(st, e, |_, _| {})?;
                    return Ok(if r { va } else { vb });
                }
                let (ea, eb) = (self.e(va, w), self.e(vb, w));
                let r = self.x.ite(e, ea, eb);
                Ok(self.v(r))
            }
        }
    }

    fn intr_kind(&mut self, i: u32) -> Intr {
        while self.intr.len() < self.m.intrinsics.borrow().len() {
            let n = self.m.intrinsics.borrow()[self.intr.len()].clone();
            let k = intr_of(&n);
            self.intr.push(k);
        }
        self.intr[i as usize]
    }
    fn intrinsic(&mut self, st: &mut State, c: &'static CallI, i: u32, base: u32) -> R<()> {
        let k = self.intr_kind(i);
        let n = c.args.len();
        let mut arg: Vec<V> = Vec::with_capacity(n);
        for j in 0..n {
            arg.push(self.get(st, base, c.args[j], c.argw[j]));
        }
        let mut ret: Vec<V> = vec![];
        match k {
            Intr::Nop => {}
            Intr::Memcpy => {
                let len = self.conc_op(st, base, c.args[2], 64)? as usize;
                if len > 0 {
                    let d = self.addr(st, base, c.args[0])?;
                    let s = self.addr(st, base, c.args[1])?;
                    let (dd, ss) = self.read_range(st, s, len)?;
                    self.write_range(st, d, &dd, &ss)?;
                }
            }
            Intr::Memset => {
                let len = self.conc_op(st, base, c.args[2], 64)? as usize;
                if len > 0 {
                    let d = self.addr(st, base, c.args[0])?;
                    match arg[1] {
                        V::C(b) => self.write_range(st, d, &vec![b as u8; len], &[])?,
                        V::S(e) => self.write_range(st, d, &vec![0; len], &vec![e; len])?,
                    }
                }
            }
            Intr::Ovf(op, signed, w) => {
                let (r, o) = self.ovf(op, signed, w, arg[0], arg[1])?;
                ret.push(r);
                ret.push(o);
            }
            Intr::MinMax(kd, w) => {
                let half = n / 2;
                for j in 0..half {
                    let (a, b) = (arg[j], arg[half + j]);
                    let p = match kd {
                        0 => Pred::Ult,
                        1 => Pred::Ugt,
                        2 => Pred::Slt,
                        _ => Pred::Sgt,
                    };
                    let cnd = self.icmp(p, w, a, b);
                    ret.push(match cnd {
                        V::C(1) => a,
                        V::C(_) => b,
                        V::S(e) => {
                            let (x, y) = (self.e(a, w), self.e(b, w));
                            let r = self.x.ite(e, x, y);
                            self.v(r)
                        }
                    });
                }
            }
            Intr::FToISat(signed, w) => {
                let lim: (f64, f64) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                ret.push(match arg[0] {
                    V::C(b) => {
                        let x = f64::from_bits(b);
                        V::C(if x.is_nan() {
                            0
                        } else if x <= lim.0 {
                            (lim.0 as i128 as u128 & mask(w)) as u64
                        } else if x >= lim.1 {
                            ((lim.1 as u128 - 1) & mask(w)) as u64
                        } else {
                            (x as i128 as u128 & mask(w)) as u64
                        })
                    }
                    V::S(e) => match self.x.exact_int(e) {
                        // an integer that was converted to a float and fits
                        Some((x, lo, hi)) if lo >= lim.0 as i128 && hi < lim.1 as i128 => {
                            let r = self.x.extract(x, 0, w);
                            self.v(r)
                        }
                        _ => return Err(Stop::End(End::Incomplete("float to integer conversion".into()))),
                    },
                });
            }
            Intr::Sat(op, w) => {
                let (r, o) = self.ovf(op, false, w, arg[0], arg[1])?;
                let lim = if op == 0 { mask(w) as u64 } else { 0 };
                ret.push(match o {
                    V::C(1) => V::C(lim),
                    V::C(_) => r,
                    V::S(e) => {
                        let x = self.x.konst(lim as u128, w);
                        let y = self.e(r, w);
                        let r = self.x.ite(e, x, y);
                        self.v(r)
                    }
                });
            }
            Intr::Bswap(w) => {
                let e = self.e(arg[0], w);
                let mut acc: Option<E> = None;
                for j in 0..w / 8 {
                    let b = self.x.extract(e, j * 8, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(a) => self.x.concat(a, b),
                    });
                }
                let r = acc.unwrap();
                ret.push(self.v(r));
            }
            Intr::Cttz(w) | Intr::Ctlz(w) | Intr::Ctpop(w) => match self.konstof(arg[0]) {
                Some(v) => {
                    let r = match k {
                        Intr::Cttz(_) => {
                            if v == 0 {
                                w as u32
                            } else {
                                v.trailing_zeros()
                            }
                        }
                        Intr::Ctlz(_) => (v << (128 - w)).leading_zeros().min(w as u32),
                        _ => v.count_ones(),
                    };
                    ret.push(V::C(r as u64));
                }
                None => {
                    let e = self.e(arg[0], w);
                    let r = match k {
                        Intr::Ctpop(_) => {
                            let mut acc = self.x.konst(0, w);
                            for j in 0..w {
                                let b = self.x.extract(e, j, 1);
                                let b = self.x.zext(b, w);
                                acc = self.x.add(acc, b);
                            }
                            acc
                        }
                        _ => {
                            let mut acc = self.x.konst(w as u128, w);
                            for j in 0..w {
                                let (bit, val) = if matches!(k, Intr::Cttz(_)) { (w - 1 - j, w - 1 - j) } else { (j, w - 1 - j) };
                                let b = self.x.extract(e, bit, 1);
                                let kk = self.x.konst(val as u128, w);
                                acc = self.x.ite(b, kk, acc);
                            }
                            acc
                        }
                    };
                    ret.push(self.v(r));
                }
            },
            Intr::Fshl(w) | Intr::Fshr(w) => {
                let s = self.conc_op(st, base, c.args[2], w)? as u16 % w;
                let s = if matches!(k, Intr::Fshr(_)) { (w - s) % w } else { s };
                let fshr0 = matches!(k, Intr::Fshr(_)) && s == 0;
                if s == 0 {
                    ret.push(if fshr0 { arg[1] } else { arg[0] });
                } else {
                    let (a, b) = (self.e(arg[0], w), self.e(arg[1], w));
                    let h = self.x.extract(a, 0, w - s);
                    let l = self.x.extract(b, w - s, s);
                    let r = self.x.concat(h, l);
                    ret.push(self.v(r));
                }
            }
            Intr::Abs(w) => {
                let z = self.icmp(Pred::Slt, w, arg[0], V::C(0));
                let neg = self.sub(w, V::C(0), arg[0]);
                ret.push(match z {
                    V::C(1) => neg,
                    V::C(_) => arg[0],
                    V::S(e) => {
                        let (x, y) = (self.e(neg, w), self.e(arg[0], w));
                        let r = self.x.ite(e, x, y);
                        self.v(r)
                    }
                });
            }
            Intr::Trap => return Err(Stop::End(End::Viol(self.mkviol(st, "trap", "trap instruction", &self.site(st))))),
            Intr::ReduceAdd(w) => {
                let mut acc = arg[0];
                for v in &arg[1..] {
                    acc = self.bin(Op::Add, w, acc, *v);
                }
                ret.push(acc);
            }
            Intr::LoadRel => {
                let p = self.addr(st, base, c.args[0])?;
                let o = self.conc_op(st, base, c.args[1], 64)?;
                let v = self.load(st, p.wrapping_add(o), 32)?;
                match v {
                    // relative tables hold 32-bit differences of global addresses
                    V::C(k) => ret.push(V::C(p.wrapping_add(k as u32 as i32 as i64 as u64))),
                    _ => return Err(Stop::End(End::Incomplete("load.relative".into()))),
                }
            }
            Intr::Id => ret.push(arg[0]),
            Intr::ZeroRet => ret.push(V::C(0)),
            Intr::FRound(kd, w) => {
                let e = self.e(arg[0], w);
                let r = self.x.un(Op::FRound, e, w, kd);
                ret.push(self.v(r));
            }
            Intr::Unknown => {
                return Err(Stop::End(End::Incomplete(format!("intrinsic {}", self.m.intrinsics.borrow()[i as usize]))));
            }
        }
        if c.dst != u32::MAX {
            for (j, v) in ret.into_iter().enumerate() {
                st.regs[(base + c.dst) as usize + j] = v;
            }
        }
        Ok(())
    }
    fn ovf(&mut self, op: u8, signed: bool, w: u16, a: V, b: V) -> R<(V, V)> {
        if let (Some(x), Some(y)) = (self.konstof(a), self.konstof(b)) {
            let m = mask(w);
            let (r, o) = if signed {
                let (x, y) = (sext(x, w), sext(y, w));
                let (r, o) = match op {
                    0 => x.overflowing_add(y),
                    1 => x.overflowing_sub(y),
                    _ => x.overflowing_mul(y),
                };
                let t = sext(r as u128 & m, w);
                (r as u128 & m, o || t != r)
            } else {
                let (r, o) = match op {
                    0 => x.overflowing_add(y),
                    1 => x.overflowing_sub(y),
                    _ => x.overflowing_mul(y),
                };
                (r & m, o || r > m)
            };
            let r = if w <= 64 { V::C(r as u64) } else { V::S(self.x.konst(r, w)) };
            return Ok((r, V::C(o as u64)));
        }
        let (ea, eb) = (self.e(a, w), self.e(b, w));
        let m = mask(w);
        let (ah, bh) = (self.x.hi[ea as usize], self.x.hi[eb as usize]);
        let (al, _bl) = (self.x.lo[ea as usize], self.x.lo[eb as usize]);
        let half = m >> 1;
        let x = &mut self.x;
        let r = match op {
            0 => x.add(ea, eb),
            1 => x.sub(ea, eb),
            _ => x.mul(ea, eb),
        };
        let o = match (op, signed) {
            (0, false) => match ah.checked_add(bh) {
                Some(h) if h <= m => x.konst(0, 1),
                _ => match (x.is_const(ea), x.is_const(eb)) {
                    (_, Some(k)) => {
                        let l = x.konst(m - k, w);
                        x.ult(l, ea)
                    }
                    (Some(k), _) => {
                        let l = x.konst(m - k, w);
                        x.ult(l, eb)
                    }
                    _ => x.ult(r, ea),
                },
            },
            (1, false) => x.ult(ea, eb),
            (2, false) => match ah.checked_mul(bh) {
                Some(h) if h <= m => x.konst(0, 1),
                _ => match (x.is_const(ea), x.is_const(eb)) {
                    (_, Some(k)) if k > 0 => {
                        let l = x.konst(m / k, w);
                        x.ult(l, ea)
                    }
                    (Some(k), _) if k > 0 => {
                        let l = x.konst(m / k, w);
                        x.ult(l, eb)
                    }
                    _ => {
                        if w > 64 {
                            return Err(Stop::End(End::Incomplete("wide multiply".into())));
                        }
                        let (za, zb) = (x.zext(ea, 2 * w), x.zext(eb, 2 * w));
                        let p = x.mul(za, zb);
                        let h = x.extract(p, w, w);
                        let z = x.konst(0, w);
                        let e = x.eq(h, z);
                        x.not1(e)
                    }
                },
            },
            (0, true) if ah <= half && bh <= half && ah + bh <= half => x.konst(0, 1),
            (1, true) if ah <= half && bh <= half => x.konst(0, 1),
            (0, true) | (1, true) if w <= 64 => {
                let (ra, rb) = (x.srange(ea), x.srange(eb));
                let (l, h) = if op == 0 { (ra.0 + rb.0, ra.1 + rb.1) } else { (ra.0 - rb.1, ra.1 - rb.0) };
                if l >= -(half as i128) - 1 && h <= half as i128 {
                    x.konst(0, 1)
                } else {
                    let (za, zb, q) = (x.sext(ea, w + 1), x.sext(eb, w + 1), x.sext(r, w + 1));
                    let p = if op == 0 { x.add(za, zb) } else { x.sub(za, zb) };
                    let e = x.eq(p, q);
                    x.not1(e)
                }
            }
            (0, true) | (1, true) => {
                let (p, q) = if op == 0 { (x.bin(Op::Xor, ea, r), x.bin(Op::Xor, eb, r)) } else { (x.bin(Op::Xor, ea, eb), x.bin(Op::Xor, ea, r)) };
                let t = x.bin(Op::And, p, q);
                let z = x.konst(0, w);
                x.bin(Op::Slt, t, z)
            }
            _ => {
                if ah <= half && bh <= half && ah.checked_mul(bh).map_or(false, |h| h <= half) {
                    x.konst(0, 1)
                } else {
                    if w > 64 {
                        return Err(Stop::End(End::Incomplete("wide multiply".into())));
                    }
                    let (za, zb) = (x.sext(ea, 2 * w), x.sext(eb, 2 * w));
                    let p = x.mul(za, zb);
                    let q = x.sext(r, 2 * w);
                    let e = x.eq(p, q);
                    x.not1(e)
                }
            }
        };
        let _ = al;
        Ok((self.v(r), self.v(o)))
    }

    fn label(&mut self, n: String) -> u32 {
        if let Some(i) = self.labelmap.get(&n) {
            return *i;
        }
        let i = self.labels.len() as u32;
        self.labels.push(n.clone());
        self.labelmap.insert(n, i);
        i
    }
    fn assert_expr(&mut self, st: &mut State, c: V, msg: &str, site: &str) -> R<()> {
        self.res.checks += 1;
        match c {
            V::C(1) => {
                self.res.proved += 1;
                Ok(())
            }
            V::C(_) => {
                if st.fpdirty {
                    return Err(Stop::End(End::Incomplete("assertion fails under an uninterpreted float model".into())));
                }
                Err(Stop::End(End::Viol(self.mkviol(st, "assert", msg, site))))
            }
            V::S(e) => {
                match self.known(st, e) {
                    Some(true) => {
                        self.res.proved += 1;
                        return Ok(());
                    }
                    Some(false) => return Err(Stop::End(End::Viol(self.mkviol(st, "assert", msg, site)))),
                    None => {}
                }
                let ne = self.x.not1(e);
                if self.eval(st, e) == 0 && !st.fpdirty {
                    let v = self.mkviol(st, "assert", msg, site);
                    self.violation(v);
                    // continue on the other side when it exists
                    return match self.sat(st, e) {
                        Some(Some(m)) => {
                            st.pc.push(e);
                            st.model = m;
                            Ok(())
                        }
                        _ => Err(Stop::End(End::Assume)),
                    };
                }
                match self.sat(st, ne) {
                    Some(None) => {
                        self.res.proved += 1;
                        Ok(())
                    }
                    Some(Some(m)) => {
                        let old = st.model.clone();
                        st.model = m;
                        st.pc.push(ne);
                        let real = !self.x.has_fp(ne) && !st.fpdirty || st.pc.iter().all(|p| self.eval(st, *p) == 1);
                        if real {
                            let v = self.mkviol(st, "assert", msg, site);
                            self.violation(v);
                        } else {
                            self.res.float_undecided += 1;
                        }
                        st.pc.pop();
                        st.model = old;
                        st.pc.push(e);
                        Ok(())
                    }
                    None => {
                        self.incomplete("solver gave no answer on an assertion");
                        st.pc.push(e);
                        Ok(())
                    }
                }
            }
        }
    }

    fn native(&mut self, st: &mut State, c: &'static CallI, fi: u32, n: Nat, base: u32) -> R<Done> {
        macro_rules! a {
            ($i:expr) => {
                self.conc_op(st, base, c.args[$i], c.argw[$i])?
            };
        }
        macro_rules! v {
            ($i:expr) => {
                self.get(st, base, c.args[$i], c.argw[$i])
            };
        }
        let r1 = |x: V| Ok(Done::Ret(vec![x]));
        match n {
            Nat::None | Nat::Redirect(_) => unreachable!(),
            Nat::SymEngine => r1(V::C(1)),
            Nat::SymVar(w) => {
                let (p, l, lo, hi) = (a!(0), a!(1), a!(2), a!(3));
                let name = self.text(st, p, l);
                if lo == hi {
                    // still recorded, so that replays stay in step
                }
                let key = (st.inputs.len() as u32, name.clone(), w, lo, hi);
                let e = match self.vars.get(&key) {
                    Some(e) => *e,
                    None => {
                        let e = self.x.var(&name, w, lo, hi);
                        self.vars.insert(key, e);
                        e
                    }
                };
                st.inputs.push(e);
                if lo == hi {
                    return r1(V::C(lo));
                }
                r1(V::S(e))
            }
            Nat::SymAssume => match v!(0) {
                V::C(1) => Ok(Done::Ret(vec![])),
                V::C(_) => Err(Stop::End(End::Assume)),
                V::S(e) => {
                    match self.known(st, e) {
                        Some(true) => return Ok(Done::Ret(vec![])),
                        Some(false) => return Err(Stop::End(End::Assume)),
                        None => {}
                    }
                    if self.eval(st, e) == 1 {
                        st.pc.push(e);
                        return Ok(Done::Ret(vec![]));
                    }
                    match self.sat(st, e) {
                        Some(Some(m)) => {
                            st.pc.push(e);
                            st.model = m;
                            self.fp_check(st, e);
                            Ok(Done::Ret(vec![]))
                        }
                        Some(None) => Err(Stop::End(End::Assume)),
                        None => Err(Stop::End(End::Incomplete("solver gave no answer on an assumption".into()))),
                    }
                }
            },
            Nat::SymAssert => {
                let (p, l) = (a!(1), a!(2));
                let msg = self.text(st, p, l);
                let cv = v!(0);
                self.assert_expr(st, cv, &msg, "")?;
                Ok(Done::Ret(vec![]))
            }
            Nat::SymFail => {
                let (p, l) = (a!(0), a!(1));
                let msg = self.text(st, p, l);
                self.assert_expr(st, V::C(0), &msg, "")?;
                Ok(Done::Ret(vec![]))
            }
            Nat::SymClose => {
                // a, b: f64 bit patterns; they must be equal up to rounding
                let (x, y) = (v!(0), v!(1));
                let (p, l) = (a!(2), a!(3));
                let msg = self.text(st, p, l);
                self.res.checks += 1;
                let (ex, ey) = (self.e(x, 64), self.e(y, 64));
                if ex == ey {
                    self.res.proved += 1;
                    return Ok(Done::Ret(vec![]));
                }
                let close = |a: u64, b: u64| {
                    let (a, b) = (f64::from_bits(a), f64::from_bits(b));
                    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1e-9)
                };
                // all bit patterns equal?
                let q = self.x.eq(ex, ey);
                let nq = self.x.not1(q);
                let (mx, my) = (self.eval(st, ex) as u64, self.eval(st, ey) as u64);
                if !close(mx, my) && !st.fpdirty {
                    return Err(Stop::End(End::Viol(self.mkviol(st, "assert", &msg, ""))));
                }
                // as exact reals over one common denominator (rounding is then bounded)
                let (ra, rb) = (self.x.real(ex), self.x.real(ey));
                let mut goal = None;
                if let (Some(ra), Some(rb)) = (&ra, &rb) {
                    if let (Some(na), Some(nb)) = (self.x.real_num(ra), self.x.real_num(rb)) {
                        let da = ra.den.unwrap_or_else(|| self.x.konst(1, 96));
                        let db = rb.den.unwrap_or_else(|| self.x.konst(1, 96));
                        let exact = self.x.eq(na, nb);
                        if da == db && ra.cden == rb.cden {
                            if self.x.is_const(exact) == Some(1) {
                                self.res.proved += 1;
                                return Ok(Done::Ret(vec![]));
                            }
                            goal = Some((exact, da, db, true));
                        } else if ra.cden == rb.cden {
                            // a small counterexample to equality of the two fractions
                            let x = self.x.mul(na, db);
                            let y = self.x.mul(nb, da);
                            let q = self.x.eq(x, y);
                            goal = Some((q, da, db, false));
                        }
                    }
                }
                let full = match goal {
                    Some((q, da, db, complete)) => {
                        let ne = self.x.not1(q);
                        let lim = self.x.konst(if complete { 20000 } else { 64 }, 96);
                        let (ca, cb) = (self.x.ult(da, lim), self.x.ult(db, lim));
                        let c0 = self.x.bin(Op::And, ne, ca);
                        let c0 = self.x.bin(Op::And, c0, cb);
                        let mut out = None;
                        if let Some(Some(m)) = self.sat(st, c0) {
                            out = Some(Some(Some(m)));
                        } else if complete {
                            out = Some(self.sat(st, ne));
                        }
                        out
                    }
                    None => None,
                };
                let ans = match full {
                    Some(a) => a,
                    None => self.sat(st, nq),
                };
                match ans {
                    Some(None) => {
                        self.res.proved += 1;
                    }
                    Some(Some(m)) => {
                        let old = st.model.clone();
                        st.model = m;
                        let ok = st.pc.iter().all(|p| self.eval(st, *p) == 1);
                        let (mx, my) = (self.eval(st, ex) as u64, self.eval(st, ey) as u64);
                        if ok && !close(mx, my) {
                            let v = self.mkviol(st, "assert", &msg, "");
                            st.model = old;
                            return Err(Stop::End(End::Viol(v)));
                        }
                        st.model = old;
                        self.res.float_undecided += 1;
                    }
                    None => self.res.float_undecided += 1,
                }
                Ok(Done::Ret(vec![]))
            }
            Nat::SymConcretize => {
                let k = a!(0);
                r1(V::C(k))
            }
            Nat::SymReach => {
                let (p, l) = (a!(0), a!(1));
                let s = self.text(st, p, l);
                let k = self.label(s);
                if !st.reached.contains(&k) {
                    st.reached.push(k);
                }
                Ok(Done::Ret(vec![]))
            }
            Nat::SymParam => {
                let (p, l) = (a!(0), a!(1));
                let d = a!(2);
                let s = self.text(st, p, l);
                r1(V::C(self.cfg.params.get(&s).copied().unwrap_or(d)))
            }
            Nat::SymToken => {
                let x = v!(0);
                let e = self.e(x, c.argw[0]);
                st.tokens.push(e);
                r1(V::C(st.tokens.len() as u64 - 1))
            }
            Nat::SymTokenVal => {
                let k = a!(0) as usize;
                if k >= st.tokens.len() {
                    return Err(Stop::End(End::Incomplete("bad token".into())));
                }
                let e = st.tokens[k];
                r1(self.v(e))
            }
            Nat::SymPlain => {
                // is this value concrete on this path?
                let x = v!(0);
                r1(V::C(self.konstof(x).is_some() as u64))
            }
            Nat::Malloc => {
                let k = a!(0);
                let p = self.alloc(st, k);
                r1(V::C(p))
            }
            Nat::Calloc => {
                let k = a!(0).saturating_mul(a!(1));
                let p = self.alloc(st, k);
                r1(V::C(p))
            }
            Nat::RustAlloc | Nat::RustAllocZ => {
                let k = a!(0);
                let p = self.alloc(st, k);
                r1(V::C(p))
            }
            Nat::Memalign => {
                let (p, k) = (a!(0), a!(2));
                let q = self.alloc(st, k);
                self.store(st, p, V::C(q), 64)?;
                r1(V::C(0))
            }
            Nat::Realloc | Nat::RustRealloc => {
                let p = a!(0);
                let k = a!(if n == Nat::Realloc { 1 } else { 3 });
                if p == 0 {
                    let q = self.alloc(st, k);
                    return r1(V::C(q));
                }
                if k > 1 << 30 {
                    return r1(V::C(0));
                }
                match self.obj_mut(st, p) {
                    Some((o, 0)) => {
                        o.data.resize(k as usize, 0);
                        if !o.sym.is_empty() {
                            o.sym.resize(k as usize, 0);
                        }
                        r1(V::C(p))
                    }
                    _ => Err(self.memerr(st, "invalid realloc", p)),
                }
            }
            Nat::Free | Nat::RustDealloc => {
                let p = a!(0);
                if p == 0 {
                    return Ok(Done::Ret(vec![]));
                }
                let id = p >> 32;
                if id >= HEAP0 && id < FRAME0 && p as u32 == 0 {
                    let k = (id - HEAP0) as usize;
                    if k / CHUNK < st.heap.len() && st.heap[k / CHUNK][k % CHUNK].is_some() {
                        Rc::make_mut(&mut st.heap[k / CHUNK])[k % CHUNK] = None;
                        return Ok(Done::Ret(vec![]));
                    }
                }
                Err(self.memerr(st, "invalid free", p))
            }
            Nat::MemCmp | Nat::BCmp => {
                let k = a!(2) as usize;
                if k == 0 {
                    return r1(V::C(0));
                }
                let (p, q) = (a!(0), a!(1));
                let (da, sa) = self.read_range(st, p, k)?;
                let (db, sb) = self.read_range(st, q, k)?;
                if sa.iter().all(|x| *x == 0) && sb.iter().all(|x| *x == 0) {
                    let r = match da.cmp(&db) {
                        std::cmp::Ordering::Less => 0xffff_ffffu64,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    };
                    return r1(V::C(r));
                }
                let x = self.bytes(st, p, k)?;
                let y = self.bytes(st, q, k)?;
                if n == Nat::BCmp {
                    let mut acc = self.x.konst(1, 1);
                    for i in 0..k {
                        let e = self.x.eq(x[i], y[i]);
                        acc = self.x.bin(Op::And, acc, e);
                    }
                    let ne = self.x.not1(acc);
                    let r = self.x.zext(ne, 32);
                    return r1(self.v(r));
                }
                let mut acc = self.x.konst(0, 32);
                for i in (0..k).rev() {
                    let e = self.x.eq(x[i], y[i]);
                    let l = self.x.ult(x[i], y[i]);
                    let m1 = self.x.konst(0xffff_ffff, 32);
                    let p1 = self.x.konst(1, 32);
                    let d = self.x.ite(l, m1, p1);
                    acc = self.x.ite(e, acc, d);
                }
                r1(self.v(acc))
            }
            Nat::StrLen => {
                let p = a!(0);
                let mut k = 0;
                loop {
                    let b = self.load(st, p + k, 8)?;
                    if self.conc_nz(st, b)? {
                        k += 1;
                    } else {
                        break;
                    }
                }
                r1(V::C(k))
            }
            Nat::MemChr | Nat::MemRChr => {
                let (p, ch, k) = (a!(0), a!(1) as u8, a!(2));
                let rng: Vec<u64> = if n == Nat::MemChr { (0..k).collect() } else { (0..k).rev().collect() };
                for i in rng {
                    let b = self.load(st, p + i, 8)?;
                    let q = self.icmp(Pred::Eq, 8, b, V::C(ch as u64));
                    if self.conc_nz(st, q)? {
                        return r1(V::C(p + i));
                    }
                }
                r1(V::C(0))
            }
            Nat::Write => {
                let k = a!(2);
                if self.cfg.verbose {
                    let p = a!(1);
                    let t = self.text(st, p, k);
                    eprint!("{}", t);
                }
                r1(V::C(k))
            }
            Nat::Writev => {
                let (iov, cnt) = (a!(1), a!(2));
                let mut t = 0;
                for i in 0..cnt {
                    let l = self.load(st, iov + i * 16 + 8, 64)?;
                    t += self.conc(st, l)?;
                }
                r1(V::C(t))
            }
            Nat::Errno => {
                // one mutable cell per state
                if st.errno == 0 {
                    let p = self.alloc(st, 4);
                    st.errno = (p >> 32) as u32;
                }
                r1(V::C((st.errno as u64) << 32))
            }
            Nat::Exit => {
                let k = a!(0);
                Err(Stop::End(End::Viol(self.mkviol(st, "exit", &format!("exit({})", k as i32), &self.site(st)))))
            }
            Nat::PathEnd => Err(Stop::End(End::Done)),
            Nat::Abort => Err(Stop::End(End::Viol(self.mkviol(st, "abort", "abort", &self.site(st))))),
            Nat::PanicFmt => {
                let p = a!(0);
                let loc = a!(1);
                // first pointer pair of fmt::Arguments: the literal pieces
                let mut msg = String::new();
                if let (Ok(V::C(pp)), Ok(V::C(np))) = (self.load(st, p, 64), self.load(st, p + 8, 64)) {
                    for i in 0..np.min(8) {
                        if let (Ok(V::C(s)), Ok(V::C(l))) = (self.load(st, pp + i * 16, 64), self.load(st, pp + i * 16 + 8, 64)) {
                            if i > 0 {
                                msg.push_str("{}");
                            }
                            msg.push_str(&self.text(st, s, l));
                        }
                    }
                }
                let mut at = String::new();
                if let (Ok(V::C(s)), Ok(V::C(l)), Ok(V::C(line))) = (self.load(st, loc, 64), self.load(st, loc + 8, 64), self.load(st, loc + 16, 32)) {
                    at = format!("{}:{}", self.text(st, s, l), line);
                }
                let site = format!("{} [{}]", self.site(st), at);
                Err(Stop::End(End::Viol(self.mkviol(st, "panic", &msg, &site))))
            }
            Nat::PanicOther => {
                let name = demangle(&self.m.funcs[fi as usize].name);
                Err(Stop::End(End::Viol(self.mkviol(st, "panic", &name, &self.site(st)))))
            }
            Nat::HandleAlloc => Err(Stop::End(End::Viol(self.mkviol(st, "alloc", "allocation failure or capacity overflow", &self.site(st))))),
            Nat::Zero => r1(V::C(0)),
            Nat::NullPtr => r1(V::C(0)),
            Nat::MinusOne => r1(V::C(mask(c.ret.get(0).copied().unwrap_or(64)) as u64)),
            Nat::UnwindBt => r1(V::C(5)),
            Nat::RandKeys => {
                let s = self.cfg.params.get("hashseed").copied().unwrap_or(0);
                Ok(Done::Ret(vec![V::C(0x0706050403020100 ^ s), V::C(0x0f0e0d0c0b0a0908)]))
            }
            Nat::Syscall => {
                let nr = a!(0);
                if nr == 318 {
                    // getrandom: fixed bytes
                    let (p, k) = (a!(1), a!(2));
                    self.write_range(st, p, &vec![7u8; k as usize], &[])?;
                    return r1(V::C(k));
                }
                r1(V::C(u64::MAX))
            }
            Nat::KeyCreate => {
                let p = a!(0);
                st.keys.push(0);
                let k = st.keys.len() as u64;
                self.store(st, p, V::C(k), 32)?;
                r1(V::C(0))
            }
            Nat::GetSpecific => {
                let k = a!(0) as usize;
                r1(V::C(if k >= 1 && k <= st.keys.len() { st.keys[k - 1] } else { 0 }))
            }
            Nat::SetSpecific => {
                let k = a!(0) as usize;
                let x = a!(1);
                if k >= 1 && k <= st.keys.len() {
                    st.keys[k - 1] = x;
                }
                r1(V::C(0))
            }
            Nat::FmtFloat(w) => {
                let p = a!(0);
                let x = self.load(st, p, w)?;
                match (x, self.sub_fmt_f64) {
                    (V::S(e), Some(g)) if self.x.is_const(e).is_none() && w == 64 => Ok(Done::Call(g, vec![x, v!(1)])),
                    _ => Ok(Done::Normal),
                }
            }
            Nat::FmtInt(w, signed) => {
                let p = a!(0);
                let x = self.load(st, p, w)?;
                match (x, self.sub_fmt_u64) {
                    (V::S(e), Some(g)) if self.x.is_const(e).is_none() => {
                        let r = self.cast(if signed { CastOp::SExt } else { CastOp::ZExt }, w, 64, x);
                        Ok(Done::Call(g, vec![r, V::C(signed as u64), v!(1)]))
                    }
                    _ => Ok(Done::Normal),
                }
            }
            Nat::ItoaFmt(w, signed) => {
                // (&mut Buffer, value) -> &str
                let x = v!(1);
                match x {
                    V::S(e) if self.x.is_const(e).is_none() => {
                        let buf = a!(0);
                        let mut val = self.cast(if signed { CastOp::SExt } else { CastOp::ZExt }, w, 64, x);
                        let mut pre: Vec<u8> = vec![];
                        if signed {
                            let neg = self.icmp(Pred::Slt, 64, val, V::C(0));
                            if self.conc_nz(st, neg)? {
                                pre.push(b'-');
                                val = self.sub(64, V::C(0), val);
                            }
                        }
                        let e = self.e(val, 64);
                        st.tokens.push(e);
                        pre.extend(format!("@T{:04}", st.tokens.len() - 1).bytes());
                        self.write_range(st, buf, &pre, &[])?;
                        Ok(Done::Ret(vec![V::C(buf), V::C(pre.len() as u64)]))
                    }
                    _ => Ok(Done::Normal),
                }
            }
            Nat::RyuFmt => {
                // (f64, *mut u8) -> usize
                let x = v!(0);
                match x {
                    V::S(e) if self.x.is_const(e).is_none() => {
                        let buf = a!(1);
                        st.tokens.push(e);
                        let s: Vec<u8> = format!("@F{:04}", st.tokens.len() - 1).bytes().collect();
                        self.write_range(st, buf, &s, &[])?;
                        r1(V::C(s.len() as u64))
                    }
                    _ => Ok(Done::Normal),
                }
            }
        }
    }
    fn conc_nz(&mut self, st: &mut State, v: V) -> R<bool> {
        match v {
            V::C(k) => Ok(k != 0),
            V::S(e) => {
                let w = self.x.w(e);
                let z = self.x.konst(0, w);
                let q = self.x.eq(e, z);
                let c = self.x.not1(q);
                // no side effects before this call in any native, so re-execution is safe
                self.decide(st, c, |_, _| {})
            }
        }
    }
    pub fn finish(&mut self) {
        self.res.stats = self.s.stats.clone();
        self.res.vars = self.x.vars.len() as u64;
        for (i, b) in self.executed.iter().enumerate() {
            if *b {
                self.res.funcs.insert(demangle(&self.m.funcs[i].name));
            }
        }
    }
}

enum Done {
    Ret(Vec<V>),
    Call(u32, Vec<V>),
    Normal,
}

fn intr_of(n: &str) -> Intr {
    let p: Vec<&str> = n.split('.').collect();
    let width = |s: &str| -> u16 {
        let s = if s.starts_with('v') { &s[s.rfind(|c| c == 'i' || c == 'f').unwrap_or(0)..] } else { s };
        s[1..].parse().unwrap_or(64)
    };
    let last = *p.last().unwrap();
    match p[1] {
        "lifetime" | "experimental" | "assume" | "dbg" | "invariant" | "donothing" | "prefetch" => Intr::Nop,
        "memcpy" | "memmove" => Intr::Memcpy,
        "memset" => Intr::Memset,
        "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
            let op = match &p[1][1..] {
                "add" => 0,
                "sub" => 1,
                _ => 2,
            };
            let s = p[1].starts_with('s');
            if p[2] == "with" {
                Intr::Ovf(op, s, width(last))
            } else if p[2] == "sat" && !s && op < 2 && !last.starts_with('v') {
                Intr::Sat(op, width(last))
            } else {
                Intr::Unknown
            }
        }
        "umin" => Intr::MinMax(0, width(last)),
        "umax" => Intr::MinMax(1, width(last)),
        "smin" => Intr::MinMax(2, width(last)),
        "smax" => Intr::MinMax(3, width(last)),
        "bswap" if !last.starts_with('v') => Intr::Bswap(width(last)),
        "cttz" if !last.starts_with('v') => Intr::Cttz(width(last)),
        "ctlz" if !last.starts_with('v') => Intr::Ctlz(width(last)),
        "ctpop" if !last.starts_with('v') => Intr::Ctpop(width(last)),
        "fshl" if !last.starts_with('v') => Intr::Fshl(width(last)),
        "fshr" if !last.starts_with('v') => Intr::Fshr(width(last)),
        "abs" if !last.starts_with('v') => Intr::Abs(width(last)),
        "trap" | "ubsantrap" => Intr::Trap,
        "vector" if p.get(2) == Some(&"reduce") && p.get(3) == Some(&"add") => Intr::ReduceAdd(width(last)),
        "load" => Intr::LoadRel,
        "threadlocal" | "expect" | "ssa" => Intr::Id,
        "x86" if n.contains("xgetbv") => Intr::ZeroRet,
        "x86" if n.contains("pause") => Intr::Nop,
        "is" => Intr::ZeroRet,
        "floor" => Intr::FRound(0, width(last)),
        "ceil" => Intr::FRound(1, width(last)),
        "trunc" => Intr::FRound(2, width(last)),
        "round" => Intr::FRound(3, width(last)),
        "rint" | "nearbyint" | "roundeven" => Intr::FRound(4, width(last)),
        "sqrt" => Intr::FRound(5, width(last)),
        "fabs" => Intr::FRound(6, width(last)),
        "fptoui" | "fptosi" if p.get(2) == Some(&"sat") && last == "f64" => Intr::FToISat(p[1] == "fptosi", width(p[3])),
        _ => Intr::Unknown,
    }
}

fn classify(m: &Module, name: &str) -> Nat {
    // harness-provided models of system calls
    if let Some(t) = m.fmap.get(&format!("twsym_native_{}", name)) {
        return Nat::Redirect(*t);
    }
    match name {
        // std's own initialiser of the program's arguments
        "sym_init_args" => {
            return match m.funcs.iter().position(|f| f.name.contains("ARGV_INIT_ARRAY12init_wrapper") || f.name.contains("really_init")) {
                Some(k) => Nat::Redirect(k as u32),
                None => Nat::None,
            }
        }
        "sim_exit" => return Nat::PathEnd,
        "sym_u8" => return Nat::SymVar(8),
        "sym_u16" => return Nat::SymVar(16),
        "sym_u32" => return Nat::SymVar(32),
        "sym_u64" => return Nat::SymVar(64),
        "sym_assume" => return Nat::SymAssume,
        "sym_assert_" => return Nat::SymAssert,
        "sym_fail_" => return Nat::SymFail,
        "sym_close_" => return Nat::SymClose,
        "sym_conc" => return Nat::SymConcretize,
        "sym_reach_" => return Nat::SymReach,
        "sym_param_" => return Nat::SymParam,
        "sym_token" => return Nat::SymToken,
        "sym_token_val" => return Nat::SymTokenVal,
        "sym_is_concrete" => return Nat::SymPlain,
        "sym_engine" => return Nat::SymEngine,
        "malloc" => return Nat::Malloc,
        "calloc" => return Nat::Calloc,
        "realloc" => return Nat::Realloc,
        "free" => return Nat::Free,
        "posix_memalign" => return Nat::Memalign,
        "__rust_alloc" | "__rdl_alloc" => return Nat::RustAlloc,
        "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" => return Nat::RustAllocZ,
        "__rust_dealloc" | "__rdl_dealloc" => return Nat::RustDealloc,
        "__rust_realloc" | "__rdl_realloc" => return Nat::RustRealloc,
        "memcmp" => return Nat::MemCmp,
        "bcmp" => return Nat::BCmp,
        "strlen" => return Nat::StrLen,
        "memchr" => return Nat::MemChr,
        "memrchr" => return Nat::MemRChr,
        "write" => return Nat::Write,
        "writev" => return Nat::Writev,
        "__errno_location" => return Nat::Errno,
        "exit" | "_exit" => return Nat::Exit,
        "abort" => return Nat::Abort,
        "syscall" => return Nat::Syscall,
        "pthread_key_create" => return Nat::KeyCreate,
        "pthread_key_delete" => return Nat::Zero,
        "pthread_getspecific" => return Nat::GetSpecific,
        "pthread_setspecific" => return Nat::SetSpecific,
        "getenv" | "getcwd" => return Nat::NullPtr,
        "isatty" | "signal" | "sigaction" | "sigaltstack" | "close" | "munmap" | "mprotect" | "poll" | "pthread_self"
        | "pthread_attr_destroy" | "fcntl" => return Nat::Zero,
        "open64" | "open" | "read" | "fstat64" | "stat64" | "lseek64" | "realpath" | "readlink" | "sysconf" | "statx" => return Nat::MinusOne,
        "_Unwind_Backtrace" => return Nat::UnwindBt,
        "__rust_alloc_error_handler" | "__rg_oom" | "__rdl_oom" => return Nat::HandleAlloc,
        _ => {}
    }
    let s = strip(name);
    match s.as_str() {
        "_ZN4core9panicking9panic_fmt" => return Nat::PanicFmt,
        "_ZN4core9panicking18panic_nounwind_fmt"
        | "_ZN4core9panicking14panic_nounwind"
        | "_ZN4core9panicking19panic_cannot_unwind"
        | "_ZN4core9panicking16panic_in_cleanup"
        | "_ZN3std9panicking20rust_panic_with_hook"
        | "_ZN3std9panicking11begin_panic"
        | "rust_begin_unwind"
        | "_ZN3std9panicking15begin_panic_handler" => return Nat::PanicOther,
        "_ZN5alloc5alloc18handle_alloc_error" | "_ZN5alloc7raw_vec17capacity_overflow" | "_ZN5alloc7raw_vec12handle_error" => return Nat::HandleAlloc,
        "_ZN3std3sys4unix4rand19hashmap_random_keys" | "_ZN3std3sys3pal4unix4rand19hashmap_random_keys" | "_ZN3std3sys12pal_unix_rand19hashmap_random_keys" => {
            return Nat::RandKeys
        }
        _ => {}
    }
    if s.ends_with("hashmap_random_keys") {
        return Nat::RandKeys;
    }
    if s.ends_with("$LT$impl$u20$core..fmt..Display$u20$for$u20$f64$GT$3fmt") {
        return Nat::FmtFloat(64);
    }
    for (t, w, sg) in [
        ("u8", 8, false),
        ("u16", 16, false),
        ("u32", 32, false),
        ("u64", 64, false),
        ("usize", 64, false),
        ("i8", 8, true),
        ("i16", 16, true),
        ("i32", 32, true),
        ("i64", 64, true),
        ("isize", 64, true),
    ] {
        if s.starts_with("_ZN4core3fmt3num3imp") && s.ends_with(&format!("$LT$impl$u20$core..fmt..Display$u20$for$u20${}$GT$3fmt", t)) {
            return Nat::FmtInt(w, sg);
        }
    }
    if s == "_ZN3ryu6pretty8format64" {
        return Nat::RyuFmt;
    }
    if s.starts_with("_ZN4itoa6Buffer6format") {
        if let Some(f) = m.fmap.get(name) {
            if let Some((a, b)) = m.funcs[*f as usize].text {
                let t = String::from_utf8_lossy(&m.src[a..b]);
                let head = t.lines().next().unwrap_or("").to_string();
                let signed = t.contains("llvm.abs") || t.contains("icmp slt i") || t.contains("icmp sgt i");
                for w in [8u16, 16, 32, 64] {
                    if head.contains(&format!(", i{} ", w)) {
                        return Nat::ItoaFmt(w, signed);
                    }
                }
            }
        }
    }
    Nat::None
}
impl State {
    pub fn reset(&mut self) {
        self.base_steps = self.steps;
    }
}

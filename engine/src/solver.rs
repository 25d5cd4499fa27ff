//! Z3 through its C API: one incremental solver kept in step with the path condition.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, rng: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}
extern "C" fn onerr(_c: P, code: c_int) {
    panic!("z3 error {}", code);
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub maxq: f64,
    pub cached: u64,
    pub linear: u64,
}

pub enum Res {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    stack: Vec<E>,
    bv: HashMap<E, P, Fx>,  // as bit-vector
    bl: HashMap<E, P, Fx>,  // width-1 as boolean
    uf: HashMap<(Op, u16, u16, u32), P, Fx>,
    sorts: HashMap<u16, P>,
    vars: Vec<P>,
    pub stats: Stats,
    timeout_ms: u32,
    // integer encoding: a term congruent to the bit-vector modulo 2^w, with its exact range
    is: P,
    isort: P,
    it: HashMap<E, Option<(P, i128, i128)>, Fx>,
    ib: HashMap<E, Option<P>, Fx>,
    ivars: HashMap<u32, P, Fx>,
    inew: Vec<P>,
}

const LIM: i128 = 1 << 118;
impl Solver {
    pub fn version() -> String {
        unsafe {
            let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
            Z3_get_version(&mut a, &mut b, &mut c, &mut d);
            format!("{}.{}.{}.{}", a, b, c, d)
        }
    }
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, onerr);
            let mut s = Solver {
                c,
                s: std::ptr::null_mut(),
                stack: vec![],
                bv: HashMap::default(),
                bl: HashMap::default(),
                uf: HashMap::default(),
                sorts: HashMap::new(),
                vars: vec![],
                stats: Stats::default(),
                timeout_ms,
                is: std::ptr::null_mut(),
                isort: std::ptr::null_mut(),
                it: HashMap::default(),
                ib: HashMap::default(),
                ivars: HashMap::default(),
                inew: vec![],
            };
            s.s = s.fresh(true);
            s.timeout_ms = timeout_ms.min(3000);
            s.is = s.fresh(true);
            s.timeout_ms = timeout_ms;
            s.isort = Z3_mk_int_sort(c);
            s.keep(s.isort);
            s
        }
    }
    unsafe fn fresh(&self, simple: bool) -> P {
        let s = if simple { Z3_mk_simple_solver(self.c) } else { Z3_mk_solver(self.c) };
        Z3_solver_inc_ref(self.c, s);
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.timeout_ms);
        let k = CString::new("random_seed").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), 1);
        Z3_solver_set_params(self.c, s, p);
        s
    }
    unsafe fn sort(&mut self, w: u16) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| {
            let s = Z3_mk_bv_sort(c, w as c_uint);
            Z3_inc_ref(c, s);
            s
        })
    }
    unsafe fn num(&mut self, v: u128, w: u16) -> P {
        if w <= 64 {
            let s = self.sort(w);
            Z3_mk_unsigned_int64(self.c, v as u64, s)
        } else {
            let hs = self.sort(w - 64);
            let ls = self.sort(64);
            let h = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, hs);
            Z3_inc_ref(self.c, h);
            let l = Z3_mk_unsigned_int64(self.c, v as u64, ls);
            Z3_inc_ref(self.c, l);
            Z3_mk_concat(self.c, h, l)
        }
    }
    fn keep(&self, p: P) -> P {
        unsafe { Z3_inc_ref(self.c, p) };
        p
    }
    unsafe fn bv(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = x.nodes[e as usize];
        let w = n.w;
        let c = self.c;
        let p = match n.op {
            Op::Const => self.num(x.consts[n.a as usize], w),
            Op::Var => {
                let s = self.sort(w);
                Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), s)
            }
            Op::Eq | Op::Ult | Op::Slt => {
                let b = self.bool(x, e);
                let o = self.num(1, 1);
                self.keep(o);
                let z = self.num(0, 1);
                self.keep(z);
                Z3_mk_ite(c, b, o, z)
            }
            Op::Ite => {
                let a = self.bool(x, n.a);
                let b = self.bv(x, n.b);
                let d = self.bv(x, n.c);
                Z3_mk_ite(c, a, b, d)
            }
            Op::Extract => {
                let a = self.bv(x, n.a);
                Z3_mk_extract(c, n.b + w as u32 - 1, n.b, a)
            }
            Op::ZExt => {
                let a = self.bv(x, n.a);
                Z3_mk_zero_ext(c, (w - x.w(n.a)) as u32, a)
            }
            Op::SExt => {
                let a = self.bv(x, n.a);
                Z3_mk_sign_ext(c, (w - x.w(n.a)) as u32, a)
            }
            Op::Concat | Op::Add | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr
            | Op::And | Op::Or | Op::Xor => {
                let a = self.bv(x, n.a);
                let b = self.bv(x, n.b);
                (match n.op {
                    Op::Concat => Z3_mk_concat,
                    Op::Add => Z3_mk_bvadd,
                    Op::Mul => Z3_mk_bvmul,
                    Op::UDiv => Z3_mk_bvudiv,
                    Op::URem => Z3_mk_bvurem,
                    Op::SDiv => Z3_mk_bvsdiv,
                    Op::SRem => Z3_mk_bvsrem,
                    Op::Shl => Z3_mk_bvshl,
                    Op::LShr => Z3_mk_bvlshr,
                    Op::AShr => Z3_mk_bvashr,
                    Op::And => Z3_mk_bvand,
                    Op::Or => Z3_mk_bvor,
                    _ => Z3_mk_bvxor,
                })(c, a, b)
            }
            // floating point: uninterpreted functions over the bit patterns
            _ => {
                let kids: Vec<E> = x.kids(&n).iter().cloned().filter(|k| *k != 0).collect();
                let aw = x.w(n.a);
                let key = (n.op, w, aw, n.c);
                let d = match self.uf.get(&key) {
                    Some(d) => *d,
                    None => {
                        let dom: Vec<P> = kids.iter().map(|k| self.sort(x.w(*k))).collect();
                        let rng = self.sort(w);
                        let nm = CString::new(format!("{:?}_{}_{}_{}", n.op, w, aw, n.c)).unwrap();
                        let d = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, nm.as_ptr()), dom.len() as u32, dom.as_ptr(), rng);
                        self.keep(d);
                        self.uf.insert(key, d);
                        d
                    }
                };
                let args: Vec<P> = kids.iter().map(|k| self.bv(x, *k)).collect();
                Z3_mk_app(c, d, args.len() as u32, args.as_ptr())
            }
        };
        self.keep(p);
        self.bv.insert(e, p);
        p
    }
    unsafe fn bool(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) {
            return p;
        }
        let n = x.nodes[e as usize];
        let c = self.c;
        let p = match n.op {
            Op::Eq => {
                if x.w(n.a) == 1 {
                    let a = self.bool(x, n.a);
                    let b = self.bool(x, n.b);
                    Z3_mk_eq(c, a, b)
                } else {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    Z3_mk_eq(c, a, b)
                }
            }
            Op::Ult => {
                let a = self.bv(x, n.a);
                let b = self.bv(x, n.b);
                Z3_mk_bvult(c, a, b)
            }
            Op::Slt => {
                let a = self.bv(x, n.a);
                let b = self.bv(x, n.b);
                Z3_mk_bvslt(c, a, b)
            }
            Op::And | Op::Or => {
                let a = [self.bool(x, n.a), self.bool(x, n.b)];
                if n.op == Op::And {
                    Z3_mk_and(c, 2, a.as_ptr())
                } else {
                    Z3_mk_or(c, 2, a.as_ptr())
                }
            }
            Op::Xor => {
                let a = self.bool(x, n.a);
                let b = self.bool(x, n.b);
                let q = Z3_mk_eq(c, a, b);
                self.keep(q);
                Z3_mk_not(c, q)
            }
            Op::Ite => {
                let a = self.bool(x, n.a);
                let b = self.bool(x, n.b);
                let d = self.bool(x, n.c);
                Z3_mk_ite(c, a, b, d)
            }
            _ => {
                let a = self.bv(x, e);
                let o = self.num(1, 1);
                self.keep(o);
                Z3_mk_eq(c, a, o)
            }
        };
        self.keep(p);
        self.bl.insert(e, p);
        p
    }
    fn sync_vars(&mut self, x: &Ctx) {
        // range axioms of new variables, asserted at the base level
        if self.vars.len() < x.vars.len() {
            unsafe {
                if !self.stack.is_empty() {
                    Z3_solver_pop(self.c, self.s, self.stack.len() as u32);
                    self.stack.clear();
                }
                while self.vars.len() < x.vars.len() {
                    let i = self.vars.len();
                    let e = x.varnode[i];
                    let p = self.bv(x, e);
                    self.vars.push(p);
                    let v = &x.vars[i];
                    self.range(x, v.lo, v.hi, v.w, p, self.s);
                }
            }
        }
    }
    unsafe fn range(&mut self, _x: &Ctx, lo: u64, hi: u64, w: u16, p: P, s: P) {
        if lo > 0 {
            let k = self.num(lo as u128, w);
            self.keep(k);
            let a = Z3_mk_bvule(self.c, k, p);
            self.keep(a);
            Z3_solver_assert(self.c, s, a);
        }
        if (hi as u128) < mask(w) {
            let k = self.num(hi as u128, w);
            self.keep(k);
            let a = Z3_mk_bvule(self.c, p, k);
            self.keep(a);
            Z3_solver_assert(self.c, s, a);
        }
    }
    unsafe fn inum(&self, v: i128) -> P {
        let s = CString::new(v.to_string()).unwrap();
        self.keep(Z3_mk_numeral(self.c, s.as_ptr(), self.isort))
    }
    unsafe fn iadd(&self, a: P, k: i128) -> P {
        let v = [a, self.inum(k)];
        self.keep(Z3_mk_add(self.c, 2, v.as_ptr()))
    }
    unsafe fn ilt0(&self, a: P, k: i128) -> P {
        self.keep(Z3_mk_lt(self.c, a, self.inum(k)))
    }
    /// The unsigned (or signed) value of a term.
    unsafe fn canon(&mut self, t: (P, i128, i128), w: u16, signed: bool) -> Option<(P, i128, i128)> {
        if w > 112 {
            return None;
        }
        let m = 1i128 << w;
        let (lo, hi) = if signed { (-(m / 2), m / 2 - 1) } else { (0, m - 1) };
        let (p, l, h) = t;
        if l >= lo && h <= hi {
            return Some(t);
        }
        if l >= lo - m && h <= hi - m {
            return Some((self.iadd(p, m), l + m, h + m));
        }
        if l >= lo + m && h <= hi + m {
            return Some((self.iadd(p, -m), l - m, h - m));
        }
        if l >= lo - m && h <= hi {
            let q = self.iadd(p, m);
            let c = self.ilt0(p, lo);
            return Some((self.keep(Z3_mk_ite(self.c, c, q, p)), lo, hi));
        }
        if l >= lo && h <= hi + m {
            let q = self.iadd(p, -m);
            let c = self.ilt0(p, hi + 1);
            return Some((self.keep(Z3_mk_ite(self.c, c, p, q)), lo, hi));
        }
        None
    }
    unsafe fn iterm(&mut self, x: &Ctx, e: E) -> Option<(P, i128, i128)> {
        if let Some(r) = self.it.get(&e) {
            return *r;
        }
        let r = self.iterm_(x, e).filter(|t| t.1 > -LIM && t.2 < LIM);
        self.it.insert(e, r);
        r
    }
    unsafe fn iterm_(&mut self, x: &Ctx, e: E) -> Option<(P, i128, i128)> {
        let n = x.nodes[e as usize];
        let w = n.w;
        if w > 112 {
            return None;
        }
        let c = self.c;
        let k2 = |e: E| x.is_const(e).map(|v| v as i128);
        Some(match n.op {
            Op::Const => {
                let v = sext(x.consts[n.a as usize], w);
                (self.inum(v), v, v)
            }
            Op::Var => {
                let v = &x.vars[n.a as usize];
                let (lo, hi) = (v.lo as i128, v.hi as i128);
                let p = self.keep(Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), self.isort));
                self.ivars.insert(n.a, p);
                let (a, b) = (self.inum(lo), self.inum(hi));
                self.inew.push(self.keep(Z3_mk_le(c, a, p)));
                self.inew.push(self.keep(Z3_mk_le(c, p, b)));
                (p, lo, hi)
            }
            Op::Add => {
                let (a, b) = (self.iterm(x, n.a)?, self.iterm(x, n.b)?);
                let v = [a.0, b.0];
                (self.keep(Z3_mk_add(c, 2, v.as_ptr())), a.1 + b.1, a.2 + b.2)
            }
            Op::Mul | Op::Shl => {
                let (a, k) = if n.op == Op::Shl {
                    let s = k2(n.b)?;
                    if s >= w as i128 {
                        return None;
                    }
                    (n.a, 1i128 << s)
                } else if x.is_const(n.b).is_some() {
                    (n.a, sext(x.is_const(n.b)?, w))
                } else {
                    (n.b, sext(x.is_const(n.a)?, w))
                };
                let t = self.iterm(x, a)?;
                let (p, q) = (t.1.checked_mul(k)?, t.2.checked_mul(k)?);
                let v = [self.inum(k), t.0];
                (self.keep(Z3_mk_mul(c, 2, v.as_ptr())), p.min(q), p.max(q))
            }
            Op::UDiv | Op::LShr | Op::URem => {
                let mut k = k2(n.b)?;
                if n.op == Op::LShr {
                    if k >= w as i128 {
                        return None;
                    }
                    k = 1i128 << k;
                }
                if k == 0 {
                    return None;
                }
                let t = self.iterm(x, n.a)?;
                let t = self.canon(t, w, false)?;
                let kp = self.inum(k);
                if n.op == Op::URem {
                    (self.keep(Z3_mk_mod(c, t.0, kp)), 0, k - 1)
                } else {
                    (self.keep(Z3_mk_div(c, t.0, kp)), t.1 / k, t.2 / k)
                }
            }
            Op::Extract => {
                let t = self.iterm(x, n.a)?;
                if n.b == 0 {
                    t
                } else {
                    let t = self.canon(t, x.w(n.a), false)?;
                    let k = 1i128 << n.b;
                    let kp = self.inum(k);
                    (self.keep(Z3_mk_div(c, t.0, kp)), t.1 / k, t.2 / k)
                }
            }
            Op::ZExt => {
                let t = self.iterm(x, n.a)?;
                self.canon(t, x.w(n.a), false)?
            }
            Op::SExt => {
                let t = self.iterm(x, n.a)?;
                self.canon(t, x.w(n.a), true)?
            }
            Op::Concat => {
                let (h, l) = (self.iterm(x, n.a)?, self.iterm(x, n.b)?);
                let l = self.canon(l, x.w(n.b), false)?;
                let k = 1i128 << x.w(n.b);
                let v = [self.inum(k), h.0];
                let m = self.keep(Z3_mk_mul(c, 2, v.as_ptr()));
                let v = [m, l.0];
                (self.keep(Z3_mk_add(c, 2, v.as_ptr())), h.1.checked_mul(k)? + l.1, h.2.checked_mul(k)? + l.2)
            }
            Op::Ite => {
                let q = self.ibool(x, n.a)?;
                let (a, b) = (self.iterm(x, n.b)?, self.iterm(x, n.c)?);
                (self.keep(Z3_mk_ite(c, q, a.0, b.0)), a.1.min(b.1), a.2.max(b.2))
            }
            Op::Eq | Op::Ult | Op::Slt => {
                let q = self.ibool(x, e)?;
                let (a, b) = (self.inum(1), self.inum(0));
                (self.keep(Z3_mk_ite(c, q, a, b)), 0, 1)
            }
            Op::And | Op::Or | Op::Xor if w == 1 => {
                let q = self.ibool(x, e)?;
                let (a, b) = (self.inum(1), self.inum(0));
                (self.keep(Z3_mk_ite(c, q, a, b)), 0, 1)
            }
            _ => return None,
        })
    }
    unsafe fn ibool(&mut self, x: &Ctx, e: E) -> Option<P> {
        if let Some(r) = self.ib.get(&e) {
            return *r;
        }
        let r = self.ibool_(x, e);
        self.ib.insert(e, r);
        r
    }
    unsafe fn ibool_(&mut self, x: &Ctx, e: E) -> Option<P> {
        let n = x.nodes[e as usize];
        let c = self.c;
        let p = match n.op {
            Op::Eq if x.w(n.a) == 1 => {
                let (a, b) = (self.ibool(x, n.a)?, self.ibool(x, n.b)?);
                Z3_mk_eq(c, a, b)
            }
            Op::Eq => {
                let w = x.w(n.a);
                let (a, b) = (self.iterm(x, n.a)?, self.iterm(x, n.b)?);
                let m = 1i128 << w;
                if a.2 - b.1 < m && b.2 - a.1 < m {
                    Z3_mk_eq(c, a.0, b.0)
                } else {
                    let (a, b) = (self.canon(a, w, false)?, self.canon(b, w, false)?);
                    Z3_mk_eq(c, a.0, b.0)
                }
            }
            Op::Ult | Op::Slt => {
                let w = x.w(n.a);
                let (a, b) = (self.iterm(x, n.a)?, self.iterm(x, n.b)?);
                let (a, b) = (self.canon(a, w, n.op == Op::Slt)?, self.canon(b, w, n.op == Op::Slt)?);
                Z3_mk_lt(c, a.0, b.0)
            }
            Op::And | Op::Or => {
                let a = [self.ibool(x, n.a)?, self.ibool(x, n.b)?];
                if n.op == Op::And {
                    Z3_mk_and(c, 2, a.as_ptr())
                } else {
                    Z3_mk_or(c, 2, a.as_ptr())
                }
            }
            Op::Xor => {
                let (a, b) = (self.ibool(x, n.a)?, self.ibool(x, n.b)?);
                let q = self.keep(Z3_mk_eq(c, a, b));
                Z3_mk_not(c, q)
            }
            Op::Ite => {
                let (a, b, d) = (self.ibool(x, n.a)?, self.ibool(x, n.b)?, self.ibool(x, n.c)?);
                Z3_mk_ite(c, a, b, d)
            }
            _ => {
                let t = self.iterm(x, e)?;
                let t = self.canon(t, 1, false)?;
                Z3_mk_eq(c, t.0, self.inum(1))
            }
        };
        Some(self.keep(p))
    }
    /// The query over the integers, when every operation in it has an exact integer form.
    unsafe fn int_check(&mut self, x: &Ctx, pc: &[E], cond: E) -> Option<Res> {
        let mut v = Vec::with_capacity(pc.len() + 1);
        for &e in pc.iter().chain(std::iter::once(&cond)) {
            v.push(self.ibool(x, e)?);
        }
        for a in std::mem::take(&mut self.inew) {
            Z3_solver_assert(self.c, self.is, a);
        }
        Z3_solver_push(self.c, self.is);
        for a in v {
            Z3_solver_assert(self.c, self.is, a);
        }
        let r = match Z3_solver_check(self.c, self.is) {
            1 => {
                let m = Z3_solver_get_model(self.c, self.is);
                Z3_model_inc_ref(self.c, m);
                let mut out = Vec::with_capacity(x.vars.len());
                for i in 0..x.vars.len() {
                    let mut v = x.vars[i].lo;
                    if let Some(t) = self.ivars.get(&(i as u32)) {
                        let mut p: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, *t, true, &mut p) {
                            self.keep(p);
                            let mut t = 0u64;
                            if Z3_get_numeral_uint64(self.c, p, &mut t) {
                                v = t;
                            }
                        }
                    }
                    out.push(v);
                }
                Z3_model_dec_ref(self.c, m);
                Some(Res::Sat(out))
            }
            -1 => Some(Res::Unsat),
            _ => None,
        };
        Z3_solver_pop(self.c, self.is, 1);
        r
    }
    /// Is pc /\ cond satisfiable?
    pub fn check(&mut self, x: &Ctx, pc: &[E], cond: E) -> Res {
        self.sync_vars(x);
        let t0 = Instant::now();
        let r = unsafe { self.int_check(x, pc, cond) };
        let r = if let Some(r) = r { self.stats.linear += 1; r } else { unsafe {
            let mut k = 0;
            while k < self.stack.len() && k < pc.len() && self.stack[k] == pc[k] {
                k += 1;
            }
            if k < self.stack.len() {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as u32);
                self.stack.truncate(k);
            }
            for &e in &pc[k..] {
                let b = self.bool(x, e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, b);
                self.stack.push(e);
            }
            let b = self.bool(x, cond);
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, b);
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => Res::Sat(self.model(x, self.s)),
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            match out {
                Res::Unknown => self.retry(x, pc, cond),
                o => o,
            }
        } };
        let dt = t0.elapsed().as_secs_f64();
        if std::env::var_os("TWSYM_SLOWQ").is_some() && dt > 0.1 {
            eprintln!("[slow query {:.1}s] {}", dt, x.show(cond, 8));
        }
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.maxq {
            self.stats.maxq = dt;
        }
        match r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }
    /// Second try with the non-incremental (tactic) solver.
    unsafe fn retry(&mut self, x: &Ctx, pc: &[E], cond: E) -> Res {
        let s = self.fresh(false);
        for i in 0..x.vars.len() {
            let (lo, hi, w) = (x.vars[i].lo, x.vars[i].hi, x.vars[i].w);
            let p = self.vars[i];
            self.range(x, lo, hi, w, p, s);
        }
        for &e in pc.iter().chain(std::iter::once(&cond)) {
            let b = self.bool(x, e);
            Z3_solver_assert(self.c, s, b);
        }
        let r = match Z3_solver_check(self.c, s) {
            1 => Res::Sat(self.model(x, s)),
            -1 => Res::Unsat,
            _ => Res::Unknown,
        };
        Z3_solver_dec_ref(self.c, s);
        r
    }
    unsafe fn model(&mut self, x: &Ctx, s: P) -> Vec<u64> {
        let m = Z3_solver_get_model(self.c, s);
        Z3_model_inc_ref(self.c, m);
        let mut out = Vec::with_capacity(x.vars.len());
        for i in 0..x.vars.len() {
            let mut p: P = std::ptr::null_mut();
            let mut v = x.vars[i].lo;
            if Z3_model_eval(self.c, m, self.vars[i], true, &mut p) {
                self.keep(p);
                let mut t = 0u64;
                if Z3_get_numeral_uint64(self.c, p, &mut t) {
                    v = t;
                }
            }
            out.push(v);
        }
        Z3_model_dec_ref(self.c, m);
        out
    }
}

//! Hash-consed bit-vector (and opaque float) expressions.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat, // a = high, b = low
    Extract, // a, lo in b
    ZExt,
    SExt,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FOeq,
    FOlt,
    FUno,
    UToF,
    SToF,
    FToU,
    FToS,
    FExt,
    FTrunc,
    FRound, // c = kind
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    let sh = 128 - w as u32;
    ((v << sh) as i128) >> sh
}

pub struct VarInfo {
    pub name: String,
    pub w: u16,
    pub lo: u64,
    pub hi: u64,
}

#[derive(Default)]
pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, Fx>,
    pub consts: Vec<u128>,
    cmap: HashMap<(u16, u128), E, Fx>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    pub vars: Vec<VarInfo>,
    pub varnode: Vec<E>,
    hasfp: Vec<bool>,
    pub vsmemo: HashMap<E, std::rc::Rc<Vec<u64>>, Fx>,
    linmemo: HashMap<E, std::rc::Rc<(Vec<(E, u128)>, u128)>, Fx>,
}

#[derive(Default, Clone)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}

fn f(v: u128, w: u16) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}
fn tof(v: f64, w: u16) -> u128 {
    if w == 32 {
        (v as f32).to_bits() as u128
    } else {
        v.to_bits() as u128
    }
}

/// Concrete semantics of every operator (also used by the interpreter and the model evaluator).
pub fn fold(op: Op, w: u16, aw: u16, a: u128, b: u128, c: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                (if x >= 0 { u128::MAX } else { 1 }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::SExt => (sext(a, aw) as u128) & m,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                (match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    Op::FDiv => x / y,
                    _ => x % y,
                })
                .to_bits() as u128
            } else {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                (match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    Op::FDiv => x / y,
                    _ => x % y,
                })
                .to_bits() as u128
            }
        }
        Op::FOeq => (f(a, aw) == f(b, aw)) as u128,
        Op::FOlt => (f(a, aw) < f(b, aw)) as u128,
        Op::FUno => (f(a, aw).is_nan() || f(b, aw).is_nan()) as u128,
        Op::UToF => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::SToF => {
            let x = sext(a, aw);
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::FToU => (f(a, aw) as u128) & m,
        Op::FToS => (f(a, aw) as i128 as u128) & m,
        Op::FExt => tof(f(a, aw), w),
        Op::FTrunc => tof(f(a, aw), w),
        Op::FRound => {
            let x = f(a, aw);
            tof(
                match c {
                    0 => x.floor(),
                    1 => x.ceil(),
                    2 => x.trunc(),
                    3 => x.round(),
                    4 => x.round_ties_even(),
                    5 => x.sqrt(),
                    _ => x.abs(),
                },
                w,
            )
        }
        _ => unreachable!("fold {:?}", op),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx::default();
        // id 0 is reserved ("no expression")
        c.raw(Node { op: Op::Const, w: 1, a: 0, b: 0, c: u32::MAX }, 0, 0, false);
        c.consts.push(0);
        c
    }
    fn raw(&mut self, n: Node, lo: u128, hi: u128, fp: bool) -> E {
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.lo.push(lo);
        self.hi.push(hi);
        self.hasfp.push(fp);
        id
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn has_fp(&self, e: E) -> bool {
        self.hasfp[e as usize]
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn konst(&mut self, v: u128, w: u16) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.cmap.get(&(w, v)) {
            return e;
        }
        let a = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.raw(Node { op: Op::Const, w, a, b: 0, c: 0 }, v, v, false);
        self.cmap.insert((w, v), e);
        e
    }
    pub fn var(&mut self, name: &str, w: u16, lo: u64, hi: u64) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), w, lo, hi });
        let e = self.raw(Node { op: Op::Var, w, a: id, b: 0, c: 0 }, lo as u128, hi as u128, false);
        self.varnode.push(e);
        e
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let (lo, hi) = self.interval(&n);
        let fp = match n.op {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FOeq | Op::FOlt | Op::FUno | Op::UToF
            | Op::SToF | Op::FToU | Op::FToS | Op::FExt | Op::FTrunc | Op::FRound => true,
            _ => self.kids(&n).iter().any(|k| *k != 0 && self.hasfp[*k as usize]),
        };
        if lo == hi {
            return self.konst(lo, n.w);
        }
        let e = self.raw(n, lo, hi, fp);
        self.map.insert(n, e);
        e
    }
    pub fn kids(&self, n: &Node) -> [E; 3] {
        match n.op {
            Op::Const | Op::Var => [0, 0, 0],
            Op::Ite => [n.a, n.b, n.c],
            Op::Extract | Op::ZExt | Op::SExt | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FExt | Op::FTrunc
            | Op::FRound => [n.a, 0, 0],
            _ => [n.a, n.b, 0],
        }
    }
    fn interval(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let full = (0, m);
        let il = |e: E| (self.lo[e as usize], self.hi[e as usize]);
        match n.op {
            Op::Add => {
                let ((al, ah), (bl, bh)) = (il(n.a), il(n.b));
                match ah.checked_add(bh) {
                    Some(h) if h <= m => (al + bl, h),
                    _ => {
                        // both ends wrap exactly once?
                        if n.w < 128 {
                            let (l, h) = (al + bl, ah + bh);
                            if l > m {
                                return (l - m - 1, h - m - 1);
                            }
                        }
                        full
                    }
                }
            }
            Op::Mul => {
                let ((al, ah), (bl, bh)) = (il(n.a), il(n.b));
                match ah.checked_mul(bh) {
                    Some(h) if h <= m => (al * bl, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let ((al, ah), (bl, bh)) = (il(n.a), il(n.b));
                if bl == 0 {
                    full
                } else {
                    (al / bh, ah / bl)
                }
            }
            Op::URem => {
                let ((_, ah), (bl, bh)) = (il(n.a), il(n.b));
                if bl == 0 {
                    (0, ah.max(0))
                } else {
                    (0, ah.min(bh - 1))
                }
            }
            Op::And => {
                let ((_, ah), (_, bh)) = (il(n.a), il(n.b));
                (0, ah.min(bh))
            }
            Op::Or => {
                let ((al, ah), (bl, bh)) = (il(n.a), il(n.b));
                let h = ah | bh;
                let bits = 128 - h.leading_zeros();
                (al.max(bl), mask(bits as u16) & m)
            }
            Op::Xor => {
                let ((_, ah), (_, bh)) = (il(n.a), il(n.b));
                let h = ah | bh;
                let bits = 128 - h.leading_zeros();
                (0, mask(bits as u16) & m)
            }
            Op::Shl => {
                let (al, ah) = il(n.a);
                if let Some(s) = self.is_const(n.b) {
                    if s < n.w as u128 && ah <= (m >> s) {
                        return (al << s, ah << s);
                    }
                }
                full
            }
            Op::LShr => {
                let (al, ah) = il(n.a);
                if let Some(s) = self.is_const(n.b) {
                    if s < n.w as u128 {
                        return (al >> s, ah >> s);
                    }
                }
                (0, ah)
            }
            Op::Ult => {
                let ((al, ah), (bl, bh)) = (il(n.a), il(n.b));
                if ah < bl {
                    (1, 1)
                } else if al >= bh {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Eq => {
                let ((al, ah), (bl, bh)) = (il(n.a), il(n.b));
                if ah < bl || bh < al {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Ite => {
                let ((al, ah), (bl, bh)) = (il(n.b), il(n.c));
                (al.min(bl), ah.max(bh))
            }
            Op::Concat => {
                let wl = self.w(n.b);
                let ((al, ah), (bl, bh)) = (il(n.a), il(n.b));
                ((al << wl) | bl, (ah << wl) | bh)
            }
            Op::Extract => {
                let (al, ah) = il(n.a);
                let lo = n.b;
                let (x, y) = (al >> lo, ah >> lo);
                if y - x <= m && (x & m) <= (y & m) {
                    (x & m, y & m)
                } else {
                    full
                }
            }
            Op::ZExt => il(n.a),
            Op::SExt => {
                let (al, ah) = il(n.a);
                let half = 1u128 << (self.w(n.a) - 1);
                if ah < half {
                    (al, ah)
                } else {
                    full
                }
            }
            // non-negative doubles are ordered like their bit patterns, and rounding is monotone
            Op::UToF if n.w == 64 && self.w(n.a) <= 64 => {
                let (al, ah) = il(n.a);
                ((al as f64).to_bits() as u128, (ah as f64).to_bits() as u128)
            }
            Op::FAdd | Op::FMul | Op::FDiv if n.w == 64 => {
                let fin = |(l, h): (u128, u128)| if h < 0x7ff0_0000_0000_0000 { Some((f64::from_bits(l as u64), f64::from_bits(h as u64))) } else { None };
                match (fin(il(n.a)), fin(il(n.b))) {
                    (Some((al, ah)), Some((bl, bh))) => {
                        let (l, h) = match n.op {
                            Op::FAdd => (al + bl, ah + bh),
                            Op::FMul => (al * bl, ah * bh),
                            _ if bl > 0.0 => (al / bh, ah / bl),
                            _ => return full,
                        };
                        (l.to_bits() as u128, h.to_bits() as u128)
                    }
                    _ => full,
                }
            }
            Op::FUno if self.w(n.a) == 64 => {
                let inf = 0x7ff0_0000_0000_0000;
                if il(n.a).1 <= inf && il(n.b).1 <= inf {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::FOlt if self.w(n.a) == 64 => {
                let inf = 0x7ff0_0000_0000_0000;
                let ((al, ah), (bl, bh)) = (il(n.a), il(n.b));
                if ah <= inf && bh <= inf {
                    if ah < bl {
                        return (1, 1);
                    }
                    if al >= bh {
                        return (0, 0);
                    }
                }
                (0, 1)
            }
            _ => full,
        }
    }

    // ---- linear sums -------------------------------------------------------
    pub fn linear(&mut self, e: E) -> std::rc::Rc<(Vec<(E, u128)>, u128)> {
        if let Some(r) = self.linmemo.get(&e) {
            return r.clone();
        }
        let n = self.nodes[e as usize];
        let m = mask(n.w);
        let r = match n.op {
            Op::Const => (vec![], self.consts[n.a as usize]),
            Op::Add => {
                let x = self.linear(n.a);
                let y = self.linear(n.b);
                merge(&x, &y, 1, m)
            }
            Op::Mul => {
                if let Some(c) = self.is_const(n.b) {
                    let x = self.linear(n.a);
                    merge(&(vec![], 0), &x, c, m)
                } else {
                    (vec![(e, 1)], 0)
                }
            }
            Op::Shl => {
                if let Some(c) = self.is_const(n.b) {
                    let x = self.linear(n.a);
                    merge(&(vec![], 0), &x, 1u128 << c, m)
                } else {
                    (vec![(e, 1)], 0)
                }
            }
            _ => (vec![(e, 1)], 0),
        };
        let r = std::rc::Rc::new(r);
        self.linmemo.insert(e, r.clone());
        r
    }
    fn from_linear(&mut self, terms: &[(E, u128)], k: u128, w: u16) -> E {
        let mut acc: Option<E> = None;
        for &(t, c) in terms {
            let x = if c == 1 {
                t
            } else {
                let c = self.konst(c, w);
                self.mk(Node { op: Op::Mul, w, a: t, b: c, c: 0 })
            };
            acc = Some(match acc {
                None => x,
                Some(a) => self.mk(Node { op: Op::Add, w, a, b: x, c: 0 }),
            });
        }
        match acc {
            None => self.konst(k, w),
            Some(a) => {
                if k == 0 {
                    a
                } else {
                    let k = self.konst(k, w);
                    self.mk(Node { op: Op::Add, w, a, b: k, c: 0 })
                }
            }
        }
    }
    /// The integer (96 bits wide) that a double was converted from, when the conversion was exact, and its range.
    pub fn exact_int(&mut self, e: E) -> Option<(E, i128, i128)> {
        let n = self.nodes[e as usize];
        match n.op {
            Op::UToF | Op::SToF if n.w == 64 => {
                let x = if n.op == Op::UToF { self.zext(n.a, 96) } else { self.sext(n.a, 96) };
                let (l, h) = self.srange(x);
                if l >= -(1 << 53) && h <= 1 << 53 {
                    Some((x, l, h))
                } else {
                    None
                }
            }
            Op::Xor if n.w == 64 && self.is_const(n.b) == Some(1 << 63) => {
                let (x, l, h) = self.exact_int(n.a)?;
                let z = self.konst(0, 96);
                Some((self.sub(z, x), -h, -l))
            }
            _ => None,
        }
    }
    /// A range of the signed value.
    pub fn srange(&mut self, e: E) -> (i128, i128) {
        let w = self.w(e);
        let half = 1i128 << (w - 1);
        let full = (-half, half - 1);
        let own = |c: &Ctx, t: E| -> (i128, i128) {
            let (l, h) = (c.lo[t as usize], c.hi[t as usize]);
            if h < half as u128 {
                (l as i128, h as i128)
            } else if l >= half as u128 {
                (sext(l, w), sext(h, w))
            } else {
                match c.nodes[t as usize].op {
                    Op::SExt => {
                        let q = 1i128 << (c.w(c.nodes[t as usize].a) - 1);
                        (-q, q - 1)
                    }
                    _ => full,
                }
            }
        };
        let l = self.linear(e);
        let (mut lo, mut hi) = (sext(l.1, w), sext(l.1, w));
        for (t, k) in &l.0 {
            let r = own(self, *t);
            let k = sext(*k, w);
            match (r.0.checked_mul(k), r.1.checked_mul(k)) {
                (Some(p), Some(q)) => {
                    lo += p.min(q);
                    hi += p.max(q);
                }
                _ => return own(self, e),
            }
            if lo < -(1 << 100) || hi > 1 << 100 {
                return own(self, e);
            }
        }
        if lo >= full.0 && hi <= full.1 {
            (lo, hi)
        } else {
            own(self, e)
        }
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let x = self.linear(a);
        let y = self.linear(b);
        let (t, k) = merge(&x, &y, 1, mask(w));
        // push zext through non-overflowing sums is done at zext time
        self.from_linear(&t, k, w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let x = self.linear(a);
        let y = self.linear(b);
        let (t, k) = merge(&x, &y, mask(w), mask(w));
        self.from_linear(&t, k, w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.konst(x.wrapping_mul(c), w);
            }
            let x = self.linear(a);
            let (t, k) = merge(&(vec![], 0), &x, c, mask(w));
            return self.from_linear(&t, k, w);
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Node { op: Op::Mul, w, a, b, c: 0 })
    }
    pub fn not1(&mut self, a: E) -> E {
        let one = self.konst(1, 1);
        self.bin(Op::Xor, a, one)
    }
    pub fn is_not(&self, e: E) -> Option<E> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Xor && n.w == 1 {
            if let Some(1) = self.is_const(n.b) {
                return Some(n.a);
            }
        }
        None
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        if op == Op::FOlt {
            // comparisons with zero of a converted integer
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            if na.op == Op::SToF && self.is_const(b) == Some(0) {
                let z = self.konst(0, self.w(na.a));
                return self.bin(Op::Slt, na.a, z);
            }
            if nb.op == Op::SToF && self.is_const(a) == Some(0) {
                let z = self.konst(0, self.w(nb.a));
                return self.bin(Op::Slt, z, nb.a);
            }
        }
        if op == Op::FUno {
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            let num = |o: Op| matches!(o, Op::SToF | Op::UToF);
            let c = |s: &Self, e: E| s.is_const(e).map_or(false, |v| !f64::from_bits(v as u64).is_nan());
            if (num(na.op) || c(self, a)) && (num(nb.op) || c(self, b)) && na.w == 64 {
                return self.konst(0, 1);
            }
        }

        let w = self.w(a);
        match op {
            Op::Add => return self.add(a, b),
            Op::Mul => return self.mul(a, b),
            _ => {}
        }
        let rw = match op {
            Op::Eq | Op::Ult | Op::Slt | Op::FOeq | Op::FOlt | Op::FUno => 1,
            _ => w,
        };
        let ca = self.is_const(a);
        let cb = self.is_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(fold(op, rw, w, x, y, 0), rw);
        }
        let m = mask(w);
        match op {
            Op::And => {
                let (a, b, ca, cb) = if ca.is_some() { (b, a, cb, ca) } else { (a, b, ca, cb) };
                let _ = ca;
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return self.konst(0, w);
                    }
                    if c == m {
                        return a;
                    }
                    // low mask -> zext(extract)
                    if c & (c + 1) == 0 {
                        let k = (128 - c.leading_zeros()) as u16;
                        if self.hi[a as usize] <= c {
                            return a;
                        }
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    // single-run mask -> shifted extract
                    let tz = c.trailing_zeros() as u16;
                    let top = (128 - c.leading_zeros()) as u16;
                    if c >> tz == mask(top - tz) {
                        let x = self.extract(a, tz, top - tz);
                        let x = self.zext(x, w);
                        let s = self.konst(tz as u128, w);
                        return self.bin(Op::Shl, x, s);
                    }
                    if let Some((c2, x)) = self.const_ite_arms(a, op, b) {
                        return self.ite(c2, x.0, x.1);
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                if w == 1 && (self.is_not(a) == Some(b) || self.is_not(b) == Some(a)) {
                    return self.konst(0, 1);
                }
                self.mk(Node { op, w, a, b, c: 0 })
            }
            Op::Or => {
                let (a, b, _ca, cb) = if ca.is_some() { (b, a, cb, ca) } else { (a, b, ca, cb) };
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                if w == 1 {
                    // x | !x
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.konst(1, 1);
                    }
                    let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                    return self.mk(Node { op, w, a, b, c: 0 });
                }
                // disjoint (shl x k) | (zext y) -> concat
                if let Some(e) = self.try_or_concat(a, b) {
                    return e;
                }
                if let Some(e) = self.try_or_concat(b, a) {
                    return e;
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                self.mk(Node { op, w, a, b, c: 0 })
            }
            Op::Xor => {
                let (a, b, _ca, cb) = if ca.is_some() { (b, a, cb, ca) } else { (a, b, ca, cb) };
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    // (x ^ c1) ^ c2
                    let n = self.nodes[a as usize];
                    if n.op == Op::Xor {
                        if let Some(c1) = self.is_const(n.b) {
                            let k = self.konst(c ^ c1, w);
                            return self.bin(Op::Xor, n.a, k);
                        }
                    }
                    if w == 1 && n.op == Op::Ite {
                        // push not through constant arms
                        if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                            let x = self.not1(n.b);
                            let y = self.not1(n.c);
                            return self.ite(n.a, x, y);
                        }
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                self.mk(Node { op, w, a, b, c: 0 })
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        if op == Op::AShr {
                            let k = self.konst((w - 1) as u128, w);
                            return self.bin(op, a, k);
                        }
                        return self.konst(0, w);
                    }
                    let c = c as u16;
                    if op == Op::LShr {
                        let x = self.extract(a, c, w - c);
                        return self.zext(x, w);
                    }
                    if op == Op::Shl {
                        // concat(extract(a,0,w-c), 0c)
                        let n = self.nodes[a as usize];
                        if n.op == Op::ZExt || n.op == Op::Concat || n.op == Op::Extract {
                            let x = self.extract(a, 0, w - c);
                            let z = self.konst(0, c);
                            return self.concat(x, z);
                        }
                        // treat as multiplication when it cannot lose bits, to keep sums linear
                        let k = self.konst(1u128 << c, w);
                        return self.mul(a, k);
                    }
                }
                if let Some(0) = ca {
                    return a;
                }
                self.mk(Node { op, w, a, b, c: 0 })
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let k = self.konst(c.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, k);
                    }
                }
                if self.hi[a as usize] < self.lo[b as usize] {
                    return self.konst(0, w);
                }
                self.mk(Node { op, w, a, b, c: 0 })
            }
            Op::URem => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let k = self.konst(c - 1, w);
                        return self.bin(Op::And, a, k);
                    }
                }
                if self.hi[a as usize] < self.lo[b as usize] {
                    return a;
                }
                self.mk(Node { op, w, a, b, c: 0 })
            }
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => {
                // both non-negative: unsigned compare
                let half = 1u128 << (w - 1);
                if self.hi[a as usize] < half && self.hi[b as usize] < half {
                    return self.ult(a, b);
                }
                if a == b {
                    return self.konst(0, 1);
                }
                if self.hi[a as usize] < half && self.lo[b as usize] >= half {
                    return self.konst(0, 1);
                }
                if self.lo[a as usize] >= half && self.hi[b as usize] < half {
                    return self.konst(1, 1);
                }
                if self.lo[a as usize] >= half && self.lo[b as usize] >= half {
                    return self.ult(a, b);
                }
                // slt(sext x, sext y) -> slt(x, y)
                let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Slt, na.a, nb.a);
                }
                // x <s 0  -> top bit
                if cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                self.mk(Node { op, w: 1, a, b, c: 0 })
            }
            Op::FOeq | Op::FUno | Op::FAdd | Op::FMul => {
                if op == Op::FAdd && w == 64 {
                    // 0.0 + x = x unless x is -0.0
                    for (p, q) in [(a, b), (b, a)] {
                        if self.is_const(p) == Some(0) && self.hi[q as usize] < 1 << 63 {
                            return q;
                        }
                    }
                }
                let (a, b) = if a > b { (b, a) } else { (a, b) };
                self.mk(Node { op, w: rw, a, b, c: 0 })
            }
            _ => self.mk(Node { op, w: rw, a, b, c: 0 }),
        }
    }
    fn const_ite_arms(&mut self, a: E, op: Op, b: E) -> Option<(E, (E, E))> {
        let n = self.nodes[a as usize];
        if n.op == Op::Ite && self.is_const(b).is_some() && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let x = self.bin(op, n.b, b);
            let y = self.bin(op, n.c, b);
            return Some((n.a, (x, y)));
        }
        None
    }
    fn try_or_concat(&mut self, hi: E, lo: E) -> Option<E> {
        // hi = concat(x, 0_k) (or mul/shl form), lo < 2^k
        let w = self.w(hi);
        let n = self.nodes[hi as usize];
        let k = match n.op {
            Op::Concat => match self.is_const(n.b) {
                Some(0) => self.w(n.b),
                _ => return None,
            },
            Op::ZExt => {
                // zext(concat(x, 0_k))
                let m = self.nodes[n.a as usize];
                if m.op == Op::Concat && self.is_const(m.b) == Some(0) {
                    self.w(m.b)
                } else {
                    return None;
                }
            }
            Op::Mul => match self.is_const(n.b) {
                Some(c) if c.is_power_of_two() && c > 1 => c.trailing_zeros() as u16,
                _ => return None,
            },
            _ => return None,
        };
        if self.hi[lo as usize] <= mask(k) {
            let x = self.extract(hi, k, w - k);
            let y = self.extract(lo, 0, k);
            return Some(self.concat(x, y));
        }
        None
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(1, 1);
        }
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        if self.hi[a as usize] < self.lo[b as usize] || self.hi[b as usize] < self.lo[a as usize] {
            return self.konst(0, 1);
        }
        let n = self.nodes[a as usize];
        if let Some(c) = self.is_const(b) {
            if w == 1 {
                return if c == 1 { a } else { self.not1(a) };
            }
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if c > mask(iw) {
                        return self.konst(0, 1);
                    }
                    let k = self.konst(c, iw);
                    return self.eq(n.a, k);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    if (sext(c & mask(iw), iw) as u128) & mask(w) != c {
                        return self.konst(0, 1);
                    }
                    let k = self.konst(c, iw);
                    return self.eq(n.a, k);
                }
                Op::Concat => {
                    let wl = self.w(n.b);
                    if self.is_const(n.b).is_some() || self.is_const(n.a).is_some() || true {
                        let h = self.konst(c >> wl, w - wl);
                        let l = self.konst(c, wl);
                        let x = self.eq(n.a, h);
                        let y = self.eq(n.b, l);
                        return self.bin(Op::And, x, y);
                    }
                }
                Op::Ite => {
                    let cb = self.is_const(n.b);
                    let cc = self.is_const(n.c);
                    if cb.is_some() || cc.is_some() {
                        let x = self.eq(n.b, b);
                        let y = self.eq(n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                Op::Xor => {
                    if let Some(k) = self.is_const(n.b) {
                        let k = self.konst(k ^ c, w);
                        return self.eq(n.a, k);
                    }
                }
                Op::Add => {
                    let l = self.linear(a);
                    if l.1 != 0 {
                        let t = l.0.clone();
                        let x = self.from_linear(&t, 0, w);
                        let k = self.konst(c.wrapping_sub(l.1), w);
                        return self.eq(x, k);
                    }
                }
                _ => {}
            }
        } else {
            let nb = self.nodes[b as usize];
            if n.op == Op::ZExt && nb.op == Op::ZExt {
                let (wa, wb) = (self.w(n.a), self.w(nb.a));
                let iw = wa.max(wb);
                let x = self.zext(n.a, iw);
                let y = self.zext(nb.a, iw);
                return self.eq(x, y);
            }
            if n.op == Op::Concat && nb.op == Op::Concat && self.w(n.b) == self.w(nb.b) {
                let x = self.eq(n.a, nb.a);
                let y = self.eq(n.b, nb.b);
                return self.bin(Op::And, x, y);
            }
            if n.op == Op::Add || nb.op == Op::Add {
                // cancel common terms
                let x = self.linear(a);
                let y = self.linear(b);
                let common = x.0.iter().any(|t| y.0.iter().any(|u| u.0 == t.0 && u.1 == t.1));
                if common || (x.1 != 0 && y.1 != 0) {
                    let (t, k) = merge(&x, &y, mask(w), mask(w));
                    let half = 1u128 << (w - 1);
                    let pos: Vec<_> = t.iter().cloned().filter(|t| t.1 < half).collect();
                    let neg: Vec<_> = t.iter().filter(|t| t.1 >= half).map(|t| (t.0, t.1.wrapping_neg() & mask(w))).collect();
                    let l = self.from_linear(&pos, k, w);
                    let r = self.from_linear(&neg, 0, w);
                    if !(l == a && r == b) && !(l == b && r == a) {
                        return self.eq(l, r);
                    }
                }
            }
        }
        let (a, b) = if self.is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Node { op: Op::Eq, w: 1, a, b, c: 0 })
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(0, 1);
        }
        if self.hi[a as usize] < self.lo[b as usize] {
            return self.konst(1, 1);
        }
        if self.lo[a as usize] >= self.hi[b as usize] {
            return self.konst(0, 1);
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if cb == Some(1) {
            let z = self.konst(0, w);
            return self.eq(a, z);
        }
        if ca == Some(0) {
            let z = self.konst(0, w);
            let e = self.eq(b, z);
            return self.not1(e);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (wa, wb) = (self.w(na.a), self.w(nb.a));
            let iw = wa.max(wb);
            let x = self.zext(na.a, iw);
            let y = self.zext(nb.a, iw);
            return self.ult(x, y);
        }
        if let (Op::ZExt, Some(c)) = (na.op, cb) {
            let iw = self.w(na.a);
            if c > mask(iw) {
                return self.konst(1, 1);
            }
            let k = self.konst(c, iw);
            return self.ult(na.a, k);
        }
        if let (Some(c), Op::ZExt) = (ca, nb.op) {
            let iw = self.w(nb.a);
            if c >= mask(iw) {
                return self.konst(0, 1);
            }
            let k = self.konst(c, iw);
            return self.ult(k, nb.a);
        }
        if na.op == Op::Ite && cb.is_some() && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) {
            let x = self.ult(na.b, b);
            let y = self.ult(na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite && ca.is_some() && (self.is_const(nb.b).is_some() || self.is_const(nb.c).is_some()) {
            let x = self.ult(a, nb.b);
            let y = self.ult(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        if w == 1 {
            // a < b  <=> !a & b
            let x = self.not1(a);
            return self.bin(Op::And, x, b);
        }
        // cancel common terms of sums that cannot overflow
        if na.op == Op::Add || nb.op == Op::Add {
            let x = self.linear(a);
            let y = self.linear(b);
            if self.no_ovf(&x, w) && self.no_ovf(&y, w) {
                let mut xt = vec![];
                let mut yt = y.0.clone();
                let mut changed = false;
                for t in &x.0 {
                    if let Some(p) = yt.iter().position(|u| u == t) {
                        yt.remove(p);
                        changed = true;
                    } else {
                        xt.push(*t);
                    }
                }
                let km = x.1.min(y.1);
                if km > 0 {
                    changed = true;
                }
                if changed {
                    let l = self.from_linear(&xt, x.1 - km, w);
                    let r = self.from_linear(&yt, y.1 - km, w);
                    return self.ult(l, r);
                }
            }
        }
        self.mk(Node { op: Op::Ult, w: 1, a, b, c: 0 })
    }
    fn no_ovf(&self, l: &(Vec<(E, u128)>, u128), w: u16) -> bool {
        let m = mask(w);
        let mut s = l.1;
        for (e, c) in &l.0 {
            match self.hi[*e as usize].checked_mul(*c).and_then(|x| x.checked_add(s)) {
                Some(x) if x <= m => s = x,
                _ => return false,
            }
        }
        true
    }
    pub fn ite(&mut self, c: E, t: E, e: E) -> E {
        if let Some(k) = self.is_const(c) {
            return if k == 1 { t } else { e };
        }
        if t == e {
            return t;
        }
        if let Some(nc) = self.is_not(c) {
            return self.ite(nc, e, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.is_const(t), self.is_const(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, e),
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, n, e);
                }
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, n, t);
                }
                _ => {}
            }
        }
        // nested ite with the same condition
        let nt = self.nodes[t as usize];
        let t = if nt.op == Op::Ite && nt.a == c { nt.b } else { t };
        let ne = self.nodes[e as usize];
        let e = if ne.op == Op::Ite && ne.a == c { ne.c } else { e };
        if t == e {
            return t;
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: e })
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        if let Some(v) = self.is_const(a) {
            return self.konst(v >> lo, w);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.b as u16, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                if self.is_const(n.b).is_some() || lo == 0 {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add if lo == 0 => {
                let l = self.linear(a);
                if l.0.iter().all(|t| matches!(self.nodes[t.0 as usize].op, Op::ZExt | Op::SExt | Op::Extract | Op::Concat)) {
                    let mut acc = self.konst(l.1, w);
                    for &(t, c) in &l.0 {
                        let x = self.extract(t, 0, w);
                        let k = self.konst(c, w);
                        let y = self.mul(x, k);
                        acc = self.add(acc, y);
                    }
                    return acc;
                }
            }
            Op::Mul if lo == 0 => {
                if let Some(c) = self.is_const(n.b) {
                    let x = self.extract(n.a, 0, w);
                    let k = self.konst(c, w);
                    return self.mul(x, k);
                }
            }
            _ => {}
        }
        // high bits known zero
        if lo > 0 && self.hi[a as usize] >> lo == 0 {
            return self.konst(0, w);
        }
        self.mk(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.is_const(h), self.is_const(l)) {
            return self.konst((x << wl) | y, w);
        }
        if self.is_const(h) == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (self.nodes[h as usize], self.nodes[l as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + wl as u32 {
            return self.extract(nh.a, nl.b as u16, w);
        }
        // the low part of the same value, written in its narrow form
        if nh.op == Op::Extract && nh.b == wl as u32 {
            let x = self.extract(nh.a, 0, wl);
            if x == l {
                return self.extract(nh.a, 0, w);
            }
        }
        // extract(x, k, ..) : x itself as low part (x narrower is impossible here)
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Concat {
            // concat(ext(x), concat(ext(x), y)) -> concat(ext(x), y)
            let na = self.nodes[nl.a as usize];
            if na.op == Op::Extract && na.a == nh.a && nh.b == na.b + na.w as u32 {
                let x = self.extract(nh.a, na.b as u16, wh + na.w);
                return self.concat(x, nl.b);
            }
        }
        if nl.op == Op::Concat {
            if let (Some(x), Some(y)) = (self.is_const(h), self.is_const(nl.a)) {
                let wm = self.w(nl.a);
                let k = self.konst((x << wm) | y, wh + wm);
                return self.concat(k, nl.b);
            }
        }
        if nh.op == Op::Concat {
            if let (Some(x), Some(y)) = (self.is_const(nh.b), self.is_const(l)) {
                let wm = self.w(nh.b);
                let k = self.konst((x << wl) | y, wm + wl);
                return self.concat(nh.a, k);
            }
            let nb = self.nodes[nh.b as usize];
            if nb.op == Op::Extract && nl.op == Op::Extract && nb.a == nl.a && nb.b == nl.b + wl as u32 {
                let x = self.extract(nb.a, nl.b as u16, nb.w + wl);
                return self.concat(nh.a, x);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: h, b: l, c: 0 })
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.is_const(a) {
            return self.konst(v, w);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            Op::Add => {
                let l = self.linear(a);
                if self.no_ovf(&l, aw) {
                    let mut acc = self.konst(l.1, w);
                    for &(t, c) in &l.0 {
                        let x = self.zext(t, w);
                        let k = self.konst(c, w);
                        let y = self.mul(x, k);
                        acc = self.add(acc, y);
                    }
                    return acc;
                }
            }
            Op::Mul => {
                let l = self.linear(a);
                if self.is_const(n.b).is_some() && self.no_ovf(&l, aw) {
                    let x = self.zext(n.a, w);
                    let k = self.zext(n.b, w);
                    return self.mul(x, k);
                }
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                    let x = self.zext(n.b, w);
                    let y = self.zext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Extract => {
                // zext(extract(x,0,k)) where x already fits
                if n.b == 0 && self.hi[n.a as usize] <= mask(n.w) {
                    let xw = self.w(n.a);
                    if xw == w {
                        return n.a;
                    } else if xw < w {
                        return self.zext(n.a, w);
                    } else {
                        return self.extract(n.a, 0, w);
                    }
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.is_const(a) {
            return self.konst(sext(v, aw) as u128, w);
        }
        if self.hi[a as usize] < (1u128 << (aw - 1)) {
            return self.zext(a, w);
        }
        let n = self.nodes[a as usize];
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if aw == 1 {
            let x = self.konst(u128::MAX, w);
            let y = self.konst(0, w);
            return self.ite(a, x, y);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0 })
    }
    pub fn un(&mut self, op: Op, a: E, w: u16, c: u32) -> E {
        match op {
            Op::ZExt => return self.zext(a, w),
            Op::SExt => return self.sext(a, w),
            _ => {}
        }
        let aw = self.w(a);
        if let Some(v) = self.is_const(a) {
            return self.konst(fold(op, w, aw, v, 0, c), w);
        }
        if op == Op::SToF {
            let n = self.nodes[a as usize];
            if n.op == Op::ZExt && self.w(n.a) < aw {
                return self.un(Op::UToF, n.a, w, c);
            }
        }
        if op == Op::UToF {
            // canonicalise the argument width
            let n = self.nodes[a as usize];
            if n.op == Op::ZExt {
                return self.un(op, n.a, w, c);
            }
        }
        self.mk(Node { op, w, a, b: 0, c })
    }

    /// Evaluate under a model (memoised by the caller).
    pub fn eval(&self, e: E, vals: &[u64], memo: &mut HashMap<E, u128, Fx>) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => {
                return vals.get(n.a as usize).copied().unwrap_or(self.vars[n.a as usize].lo) as u128 & mask(n.w)
            }
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let r = match n.op {
            Op::Ite => {
                if self.eval(n.a, vals, memo) == 1 {
                    self.eval(n.b, vals, memo)
                } else {
                    self.eval(n.c, vals, memo)
                }
            }
            Op::Concat => {
                let h = self.eval(n.a, vals, memo);
                let l = self.eval(n.b, vals, memo);
                (h << self.w(n.b)) | l
            }
            Op::Extract => (self.eval(n.a, vals, memo) >> n.b) & mask(n.w),
            Op::ZExt => self.eval(n.a, vals, memo),
            Op::SExt | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FExt | Op::FTrunc | Op::FRound => {
                let a = self.eval(n.a, vals, memo);
                fold(n.op, n.w, self.w(n.a), a, 0, n.c)
            }
            _ => {
                let a = self.eval(n.a, vals, memo);
                let b = self.eval(n.b, vals, memo);
                fold(n.op, n.w, self.w(n.a), a, b, 0)
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = &self.nodes[e as usize];
        if depth == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{:#x}", self.consts[n.a as usize]),
            Op::Var => self.vars[n.a as usize].name.clone(),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.b, n.w),
            _ => {
                let k: Vec<String> = self.kids(n).iter().filter(|k| **k != 0).map(|k| self.show(*k, depth - 1)).collect();
                format!("({:?}{} {})", n.op, n.w, k.join(" "))
            }
        }
    }
}

fn merge(x: &(Vec<(E, u128)>, u128), y: &(Vec<(E, u128)>, u128), k: u128, m: u128) -> (Vec<(E, u128)>, u128) {
    let mut r = Vec::with_capacity(x.0.len() + y.0.len());
    let (mut i, mut j) = (0, 0);
    while i < x.0.len() || j < y.0.len() {
        if j >= y.0.len() || (i < x.0.len() && x.0[i].0 < y.0[j].0) {
            r.push(x.0[i]);
            i += 1;
        } else if i >= x.0.len() || y.0[j].0 < x.0[i].0 {
            let c = y.0[j].1.wrapping_mul(k) & m;
            if c != 0 {
                r.push((y.0[j].0, c));
            }
            j += 1;
        } else {
            let c = x.0[i].1.wrapping_add(y.0[j].1.wrapping_mul(k)) & m;
            if c != 0 {
                r.push((x.0[i].0, c));
            }
            i += 1;
            j += 1;
        }
    }
    (r, x.1.wrapping_add(y.1.wrapping_mul(k)) & m)
}

/// A double seen as a real: (sum of coef * integer term + k) / cden / den.
#[derive(Clone, Debug)]
pub struct Real {
    pub terms: std::collections::BTreeMap<E, i128>,
    pub k: i128,
    pub cden: i128,
    pub den: Option<E>,
}
impl Ctx {
    /// The exact real value a double expression stands for (before rounding), when it is a linear
    /// form over one common integer denominator.
    pub fn real(&mut self, e: E) -> Option<Real> {
        let n = self.nodes[e as usize];
        if n.w != 64 {
            return None;
        }
        match n.op {
            Op::Const => {
                let v = f64::from_bits(self.consts[n.a as usize] as u64);
                if v == v.trunc() && v.abs() < 1e15 {
                    Some(Real { terms: Default::default(), k: v as i128, cden: 1, den: None })
                } else {
                    None
                }
            }
            Op::UToF | Op::SToF => {
                let aw = self.w(n.a);
                if aw > 64 {
                    return None;
                }
                let x = if n.op == Op::UToF { self.zext(n.a, 96) } else { self.sext(n.a, 96) };
                let mut t = std::collections::BTreeMap::new();
                t.insert(x, 1);
                Some(Real { terms: t, k: 0, cden: 1, den: None })
            }
            Op::FAdd | Op::FSub => {
                let a = self.real(n.a)?;
                let b = self.real(n.b)?;
                let s = if n.op == Op::FSub { -1 } else { 1 };
                if a.terms.is_empty() && a.k == 0 && s == 1 {
                    return Some(b);
                }
                if b.terms.is_empty() && b.k == 0 {
                    return Some(a);
                }
                if a.cden != b.cden || a.den != b.den {
                    return None;
                }
                let mut r = a;
                for (t, c) in b.terms {
                    *r.terms.entry(t).or_insert(0) += c * s;
                }
                r.k += b.k * s;
                Some(r)
            }
            Op::FMul => {
                let mut a = self.real(n.a)?;
                let mut b = self.real(n.b)?;
                if b.terms.is_empty() && b.den.is_none() && b.cden == 1 {
                    std::mem::swap(&mut a, &mut b);
                }
                if !(a.terms.is_empty() && a.den.is_none() && a.cden == 1) {
                    return None;
                }
                for c in b.terms.values_mut() {
                    *c = c.checked_mul(a.k)?;
                }
                b.k = b.k.checked_mul(a.k)?;
                Some(b)
            }
            Op::FDiv => {
                let mut a = self.real(n.a)?;
                let b = self.real(n.b)?;
                if b.den.is_some() || b.cden != 1 {
                    return None;
                }
                if b.terms.is_empty() {
                    if b.k <= 0 {
                        return None;
                    }
                    a.cden = a.cden.checked_mul(b.k)?;
                    return Some(a);
                }
                if a.den.is_some() {
                    return None;
                }
                let d = self.real_num(&b)?;
                a.den = Some(d);
                Some(a)
            }
            _ => None,
        }
    }
    /// The numerator of a real as a 96-bit integer expression (None if it might wrap).
    pub fn real_num(&mut self, r: &Real) -> Option<E> {
        let mut tot: u128 = r.k.unsigned_abs();
        let mut acc = self.konst(r.k as u128 & mask(96), 96);
        for (t, c) in r.terms.clone() {
            tot = tot.checked_add((1u128 << 64).checked_mul(c.unsigned_abs())?)?;
            let cc = self.konst(c as u128 & mask(96), 96);
            let m = self.mul(t, cc);
            acc = self.add(acc, m);
        }
        if tot >= 1 << 94 {
            return None;
        }
        Some(acc)
    }
}
impl Ctx {
    /// The variables an expression mentions, as a bit set.
    pub fn varset(&mut self, e: E) -> std::rc::Rc<Vec<u64>> {
        if let Some(v) = self.vsmemo.get(&e) {
            return v.clone();
        }
        let n = self.nodes[e as usize];
        let mut out: Vec<u64> = vec![];
        if n.op == Op::Var {
            let i = n.a as usize;
            out.resize(i / 64 + 1, 0);
            out[i / 64] |= 1 << (i % 64);
        } else {
            for k in self.kids(&n) {
                if k != 0 {
                    let v = self.varset(k);
                    if out.len() < v.len() {
                        out.resize(v.len(), 0);
                    }
                    for (a, b) in out.iter_mut().zip(v.iter()) {
                        *a |= *b;
                    }
                }
            }
        }
        let r = std::rc::Rc::new(out);
        self.vsmemo.insert(e, r.clone());
        r
    }
}

//! Parser for the textual LLVM IR of the harness program (functions are compiled lazily).
use crate::expr::Op;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Struct(Vec<TyId>, bool),
    Array(u64, TyId),
    Vector(u32, TyId),
    Meta,
    Opaque,
}

#[derive(Clone, Copy, Debug)]
pub struct Elem {
    pub off: u32,
    pub bits: u16,
}

pub struct TyInfo {
    pub ty: Ty,
    pub size: u64,
    pub align: u64,
}

/// Operand: register slot, immediate, or big constant.
#[derive(Clone, Copy, Debug)]
pub enum Opn {
    R(u32),
    I(u64),
    B(u32),
}
pub type Opns = Box<[Opn]>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Un(Op),
}

#[derive(Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opn),
    Intrinsic(u32), // index in Module::intrinsics
    Asm,
}

#[derive(Debug)]
pub struct CallI {
    pub dst: u32,
    pub ret: Box<[u16]>, // widths of returned elements
    pub callee: Callee,
    pub args: Opns,
    pub argw: Box<[u16]>, // width of every flattened argument
    pub argn: Box<[u16]>, // number of elements of every argument
}

#[derive(Debug)]
pub enum Inst {
    Bin(Op, u16, u32, Opn, Opn),
    BinV(Op, u16, u32, Opns, Opns),
    Sub(u16, u32, Opn, Opn),
    SubV(u16, u32, Opns, Opns),
    ICmp(Pred, u16, u32, Opn, Opn),
    ICmpV(Pred, u16, u32, Opns, Opns),
    FCmp(u8, u16, u32, Opn, Opn),
    FNeg(u16, u32, Opn),
    Cast(CastOp, u16, u16, u32, Opn),
    CastV(CastOp, u16, u16, u32, Opns),
    /// repack elements of width a into elements of width b
    Repack(u16, u16, u32, Opns),
    Gep(u32, Opn, i64, Box<[(Opn, u16, i64)]>),
    Load(u32, Opn, u16),
    LoadN(u32, Opn, Box<[Elem]>),
    Store(Opn, Opn, u16),
    StoreN(Opn, Opns, Box<[Elem]>),
    Select(u32, Opn, u16, Opn, Opn),
    SelectN(u32, Opn, Box<[u16]>, Opns, Opns),
    SelectV(u32, Opns, u16, Opns, Opns),
    Copy1(u32, Opn),
    CopyN(u32, Opns),
    ExtElDyn(u32, u16, Opns, Opn, u16),
    InsElDyn(u32, u16, Opns, Opn, Opn, u16),
    Call(Box<CallI>),
    Br(u32),
    CondBr(Opn, u32, u32),
    Switch(u16, Opn, Box<[(u64, u32)]>, u32),
    Ret(Opns),
    Unreachable,
    FrameAddr(u32, u32),
    AllocaDyn(u32, u64, Opn),
    Rmw(u8, u16, u32, Opn, Opn),
    CmpXchg(u16, u32, Opn, Opn, Opn),
    Nop,
    Bad(String),
}

#[derive(Debug)]
pub struct Edge {
    pub target: u32, // instruction index
    pub copies: Box<[(u32, Opn)]>,
}

#[derive(Debug)]
pub struct Func {
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub nslots: u32,
    pub nparams: u32, // flattened
    pub frame: u32,
}

pub struct FuncDecl {
    pub name: String,
    pub text: Option<(usize, usize)>,
    pub compiled: RefCell<Option<Rc<Func>>>,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub align: u64,
    pub constant: bool,
    pub addr: u64,
    pub init: Option<(TyId, usize)>, // type and text offset of the initialiser
    pub data: RefCell<Option<Rc<Vec<u8>>>>,
}

pub const GLOBAL_BASE: u64 = 0x1_0000_0000;
pub const FUNC_BASE: u64 = 0x7000_0000;

pub struct Module {
    pub src: &'static [u8],
    pub tys: RefCell<Vec<TyInfo>>,
    tymap: RefCell<HashMap<Ty, TyId>>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub sym: HashMap<String, u64>,
    pub gsorted: Vec<u32>,
    pub bigs: RefCell<Vec<(u128, u16)>>,
    pub intrinsics: RefCell<Vec<String>>,
}

pub struct Ps<'m> {
    m: &'m Module,
    s: &'static [u8],
    i: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src: &'static [u8] = Box::leak(std::fs::read(path).expect("read IR").into_boxed_slice());
        let mut m = Module {
            src,
            tys: RefCell::new(vec![]),
            tymap: Default::default(),
            named: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            sym: HashMap::new(),
            gsorted: vec![],
            bigs: Default::default(),
            intrinsics: Default::default(),
        };
        let n = src.len();
        let mut i = 0;
        let mut glob_lines = vec![];
        let mut alias_lines = vec![];
        let mut ty_lines = vec![];
        while i < n {
            let e = src[i..].iter().position(|c| *c == b'\n').map(|p| i + p).unwrap_or(n);
            let l = &src[i..e];
            if l.starts_with(b"define ") {
                // find the end: a line that is exactly "}"
                let mut k = e + 1;
                loop {
                    let ke = src[k..].iter().position(|c| *c == b'\n').map(|p| k + p).unwrap_or(n);
                    if &src[k..ke] == b"}" {
                        k = ke;
                        break;
                    }
                    k = ke + 1;
                }
                let name = fname(l);
                let idx = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), idx);
                m.funcs.push(FuncDecl { name, text: Some((i, k)), compiled: RefCell::new(None) });
                i = k + 1;
                continue;
            } else if l.starts_with(b"declare ") {
                let name = fname(l);
                let idx = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), idx);
                m.funcs.push(FuncDecl { name, text: None, compiled: RefCell::new(None) });
            } else if l.starts_with(b"@") {
                let t = String::from_utf8_lossy(&l[..l.len().min(400)]).to_string();
                if t.contains(" alias ") && !t.contains("constant ") && !t.contains(" global ") {
                    alias_lines.push(i);
                } else {
                    glob_lines.push(i);
                }
            } else if l.starts_with(b"%") {
                ty_lines.push(i);
            }
            i = e + 1;
        }
        for &o in &ty_lines {
            let mut p = Ps { m: &m, s: src, i: o + 1 };
            let name = p.ident();
            p.expect("=");
            p.word("type");
            let t = if p.word("opaque") { p.m.intern(Ty::Opaque) } else { p.ty() };
            m.named.insert(name, t);
        }
        for (i, f) in m.funcs.iter().enumerate() {
            m.sym.insert(f.name.clone(), (FUNC_BASE + i as u64) << 32);
        }
        let mut addr = GLOBAL_BASE + 0x100;
        for &o in &glob_lines {
            let (name, constant, init, size, align);
            let mut weak;
            {
                let mut p = Ps { m: &m, s: src, i: o + 1 };
                name = p.ident();
                p.expect("=");
                let mut ext = false;
                weak = false;
                loop {
                    p.ws();
                    if p.word("constant") {
                        constant = true;
                        break;
                    }
                    if p.word("global") {
                        constant = false;
                        break;
                    }
                    if p.eat("thread_local") || p.eat("dso_local") {
                        if p.peek() == b'(' {
                            p.skip_parens();
                        }
                        continue;
                    }
                    let w = p.ident();
                    if w == "external" || w == "extern_weak" {
                        ext = true;
                        weak = w == "extern_weak";
                    }
                    if w.is_empty() {
                        panic!("global syntax: {}", String::from_utf8_lossy(&src[o..o + 200]));
                    }
                }
                let t = p.ty();
                let (sz, al) = p.m.size_align(t);
                size = sz;
                align = al.max(16);
                if ext {
                    init = None;
                } else {
                    p.ws();
                    init = Some((t, p.i));
                }
            }
            addr = (addr + align - 1) / align * align;
            m.sym.insert(name.clone(), if weak { 0 } else { addr });
            m.globals.push(Global { name, size, align, constant, addr, init, data: RefCell::new(None) });
            addr += size.max(1) + 16;
        }
        for &o in &alias_lines {
            let mut p = Ps { m: &m, s: src, i: o + 1 };
            let name = p.ident();
            p.expect("=");
            while !p.word("alias") {
                p.ws();
                let w = p.ident();
                if w.is_empty() {
                    panic!("alias syntax");
                }
            }
            p.ty();
            if p.peek() == b'(' {
                p.skip_parens();
            }
            p.expect(",");
            let t = p.ty();
            let v = p.const_val(t) as u64;
            m.sym.insert(name.clone(), v);
            if v >> 32 >= FUNC_BASE {
                m.fmap.insert(name, ((v >> 32) - FUNC_BASE) as u32);
            }
        }
        m.gsorted = (0..m.globals.len() as u32).collect();
        m
    }
    pub fn global_at(&self, addr: u64) -> Option<u32> {
        let k = self.globals.partition_point(|g| g.addr <= addr);
        if k == 0 {
            return None;
        }
        let g = &self.globals[k - 1];
        if addr <= g.addr + g.size {
            Some(k as u32 - 1)
        } else {
            None
        }
    }
    pub fn global_data(&self, g: u32) -> Rc<Vec<u8>> {
        let gl = &self.globals[g as usize];
        if let Some(d) = &*gl.data.borrow() {
            return d.clone();
        }
        let mut v = vec![0u8; gl.size as usize];
        if let Some((t, o)) = gl.init {
            let mut p = Ps { m: self, s: self.src, i: o };
            p.const_bytes(t, &mut v, 0);
        }
        let r = Rc::new(v);
        *gl.data.borrow_mut() = Some(r.clone());
        r
    }
    pub fn intern(&self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.borrow().get(&t) {
            return i;
        }
        let (size, align) = match &t {
            Ty::Void | Ty::Meta | Ty::Opaque => (0, 1),
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let al = b.next_power_of_two().min(16);
                let al = if *w > 64 { if *w == 128 { 16 } else { 8 } } else { al };
                ((b + al - 1) / al * al, al)
            }
            Ty::Ptr | Ty::Double => (8, 8),
            Ty::Float => (4, 4),
            Ty::Struct(f, packed) => {
                let (mut o, mut al) = (0u64, 1u64);
                for x in f {
                    let (s, a) = self.size_align(*x);
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
            Ty::Array(n, x) => {
                let (s, a) = self.size_align(*x);
                (s * n, a)
            }
            Ty::Vector(n, x) => {
                let bits = self.bits(*x) as u64 * *n as u64;
                let b = ((bits + 7) / 8).max(1);
                let al = b.next_power_of_two();
                ((b + al - 1) / al * al, al)
            }
        };
        let mut tys = self.tys.borrow_mut();
        let id = tys.len() as u32;
        tys.push(TyInfo { ty: t.clone(), size, align });
        self.tymap.borrow_mut().insert(t, id);
        id
    }
    pub fn size_align(&self, t: TyId) -> (u64, u64) {
        let t = &self.tys.borrow()[t as usize];
        (t.size, t.align)
    }
    pub fn ty(&self, t: TyId) -> Ty {
        self.tys.borrow()[t as usize].ty.clone()
    }
    pub fn bits(&self, t: TyId) -> u16 {
        match self.tys.borrow()[t as usize].ty {
            Ty::Int(w) => w as u16,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => 0,
        }
    }
    pub fn flat(&self, t: TyId) -> Vec<Elem> {
        let mut v = vec![];
        self.flat_into(t, 0, &mut v);
        v
    }
    fn flat_into(&self, t: TyId, off: u64, out: &mut Vec<Elem>) {
        match self.ty(t) {
            Ty::Void | Ty::Meta | Ty::Opaque => {}
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => out.push(Elem { off: off as u32, bits: self.bits(t) }),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for x in f {
                    let (s, a) = self.size_align(x);
                    let a = if packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    self.flat_into(x, off + o, out);
                    o += s;
                }
            }
            Ty::Array(n, x) => {
                let (s, _) = self.size_align(x);
                for k in 0..n {
                    self.flat_into(x, off + k * s, out);
                }
            }
            Ty::Vector(n, x) => {
                let b = self.bits(x);
                for k in 0..n {
                    out.push(Elem { off: (off as u32) + k * (b as u32) / 8, bits: b });
                }
            }
        }
    }
    fn field(&self, t: TyId, idx: u64) -> (TyId, u64, usize) {
        // type, byte offset, index in the flattened list
        match self.ty(t) {
            Ty::Struct(f, packed) => {
                let (mut o, mut k) = (0, 0);
                for (i, x) in f.iter().enumerate() {
                    let (s, a) = self.size_align(*x);
                    let a = if packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    if i as u64 == idx {
                        return (*x, o, k);
                    }
                    o += s;
                    k += self.flat(*x).len();
                }
                panic!("field out of range")
            }
            Ty::Array(_, x) | Ty::Vector(_, x) => {
                let (s, _) = self.size_align(x);
                let n = self.flat(x).len();
                (x, s * idx, n * idx as usize)
            }
            _ => panic!("field of scalar"),
        }
    }
    pub fn func(&self, f: u32) -> Option<Rc<Func>> {
        let d = &self.funcs[f as usize];
        if let Some(c) = &*d.compiled.borrow() {
            return Some(c.clone());
        }
        let (a, b) = d.text?;
        let c = Rc::new(FnParser::parse(self, a, b));
        *d.compiled.borrow_mut() = Some(c.clone());
        Some(c)
    }
    fn intrinsic(&self, name: &str) -> u32 {
        let mut v = self.intrinsics.borrow_mut();
        if let Some(i) = v.iter().position(|x| x == name) {
            return i as u32;
        }
        v.push(name.to_string());
        v.len() as u32 - 1
    }
}

fn fname(l: &[u8]) -> String {
    let p = l.iter().position(|c| *c == b'@').expect("function name");
    let mut q = Ps0 { s: l, i: p + 1 };
    q.ident()
}
struct Ps0<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> Ps0<'a> {
    fn ident(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut k = st;
            while self.s[k] != b'"' {
                k += 1;
            }
            self.i = k + 1;
            unescape(&self.s[st..k])
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
}
fn unescape(b: &[u8]) -> String {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b.len() >= i + 3 {
            o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).to_string()
}

impl<'m> Ps<'m> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    /// keyword followed by a non-identifier character
    fn word(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) && !self.s.get(self.i + t.len()).map_or(false, |c| is_id(*c)) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            let e = (self.i + 120).min(self.s.len());
            panic!("IR: expected {:?} at {:?}", t, String::from_utf8_lossy(&self.s[self.i..e]));
        }
    }
    fn ident(&mut self) -> String {
        let mut q = Ps0 { s: self.s, i: self.i };
        let r = q.ident();
        self.i = q.i;
        r
    }
    fn skip_parens(&mut self) {
        // at '(' : skip to the matching ')'
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn number(&mut self) -> u64 {
        self.ws();
        let st = self.i;
        while self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap()
    }
    pub fn ty(&mut self) -> TyId {
        self.ws();
        let c = self.s[self.i];
        match c {
            b'i' => {
                self.i += 1;
                let w = self.number();
                self.m.intern(Ty::Int(w as u32))
            }
            b'p' => {
                self.expect("ptr");
                if self.eat("addrspace(") {
                    while self.s[self.i] != b')' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                self.m.intern(Ty::Ptr)
            }
            b'v' => {
                self.expect("void");
                self.m.intern(Ty::Void)
            }
            b'd' => {
                self.expect("double");
                self.m.intern(Ty::Double)
            }
            b'f' => {
                self.expect("float");
                self.m.intern(Ty::Float)
            }
            b'm' => {
                self.expect("metadata");
                self.m.intern(Ty::Meta)
            }
            b'%' => {
                self.i += 1;
                let n = self.ident();
                *self.m.named.get(&n).unwrap_or_else(|| panic!("named type {}", n))
            }
            b'{' => {
                self.i += 1;
                let f = self.fields(b'}');
                self.m.intern(Ty::Struct(f, false))
            }
            b'[' => {
                self.i += 1;
                let n = self.number();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                self.m.intern(Ty::Array(n, t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.fields(b'}');
                    self.expect(">");
                    self.m.intern(Ty::Struct(f, true))
                } else {
                    let n = self.number();
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    self.m.intern(Ty::Vector(n as u32, t))
                }
            }
            _ => {
                let e = (self.i + 80).min(self.s.len());
                panic!("IR: type at {:?}", String::from_utf8_lossy(&self.s[self.i..e]))
            }
        }
    }
    fn fields(&mut self, end: u8) -> Vec<TyId> {
        let mut f = vec![];
        if self.peek() == end {
            self.i += 1;
            return f;
        }
        loop {
            f.push(self.ty());
            if self.peek() == b',' {
                self.i += 1;
            } else {
                break;
            }
        }
        self.ws();
        assert_eq!(self.s[self.i], end);
        self.i += 1;
        f
    }
    fn cstr(&mut self) -> Vec<u8> {
        // at c"..."
        self.expect("c\"");
        let mut o = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    o.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    o.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                o.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        o
    }
    fn int_lit(&mut self) -> i128 {
        self.ws();
        let neg = self.s[self.i] == b'-';
        if neg {
            self.i += 1;
        }
        let st = self.i;
        while self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        let v: u128 = t.parse().unwrap_or_else(|_| panic!("int literal {:?}", t));
        if neg {
            (v as i128).wrapping_neg()
        } else {
            v as i128
        }
    }
    fn gep_const(&mut self) -> u64 {
        // after "getelementptr"
        while self.word("inbounds") || self.word("nuw") || self.word("nusw") {}
        if self.eat("inrange(") {
            while self.s[self.i] != b')' {
                self.i += 1;
            }
            self.i += 1;
        }
        self.expect("(");
        let t = self.ty();
        self.expect(",");
        let pt = self.ty();
        let mut a = self.const_val(pt) as u64;
        let mut cur = t;
        let mut first = true;
        while self.peek() == b',' {
            self.i += 1;
            self.word("inrange");
            let it = self.ty();
            let v = self.const_val(it);
            let w = self.m.bits(it);
            let v = crate::expr::sext(v, w) as i64;
            if first {
                let (s, _) = self.m.size_align(cur);
                a = a.wrapping_add((s as i64).wrapping_mul(v) as u64);
                first = false;
            } else {
                match self.m.ty(cur) {
                    Ty::Struct(..) => {
                        let (x, o, _) = self.m.field(cur, v as u64);
                        a = a.wrapping_add(o);
                        cur = x;
                    }
                    Ty::Array(_, x) | Ty::Vector(_, x) => {
                        let (s, _) = self.m.size_align(x);
                        a = a.wrapping_add((s as i64).wrapping_mul(v) as u64);
                        cur = x;
                    }
                    _ => panic!("gep const"),
                }
            }
        }
        self.expect(")");
        a
    }
    /// A scalar constant of the given type.
    pub fn const_val(&mut self, t: TyId) -> u128 {
        self.ws();
        let c = self.s[self.i];
        let w = self.m.bits(t);
        let m = crate::expr::mask(w);
        match c {
            b'@' => {
                self.i += 1;
                let n = self.ident();
                *self.m.sym.get(&n).unwrap_or_else(|| panic!("symbol {}", n)) as u128
            }
            b'0'..=b'9' | b'-' => {
                match self.m.ty(t) {
                    Ty::Double | Ty::Float => {
                        if self.s[self.i..].starts_with(b"0x") {
                            let st = self.i + 2;
                            self.i = st;
                            while self.s[self.i].is_ascii_hexdigit() {
                                self.i += 1;
                            }
                            let v = u64::from_str_radix(std::str::from_utf8(&self.s[st..self.i]).unwrap(), 16).unwrap();
                            if self.m.ty(t) == Ty::Float {
                                (f64::from_bits(v) as f32).to_bits() as u128
                            } else {
                                v as u128
                            }
                        } else {
                            let st = self.i;
                            while matches!(self.s[self.i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                                self.i += 1;
                            }
                            let v: f64 = std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap();
                            if self.m.ty(t) == Ty::Float {
                                (v as f32).to_bits() as u128
                            } else {
                                v.to_bits() as u128
                            }
                        }
                    }
                    _ => (self.int_lit() as u128) & m,
                }
            }
            _ => {
                if self.word("true") {
                    return 1;
                }
                if self.word("false")
                    || self.word("null")
                    || self.word("undef")
                    || self.word("poison")
                    || self.word("zeroinitializer")
                {
                    return 0;
                }
                if self.word("getelementptr") {
                    return self.gep_const() as u128;
                }
                for (k, n) in [("ptrtoint", 0), ("inttoptr", 0), ("trunc", 1), ("zext", 0), ("sext", 2), ("bitcast", 0)] {
                    if self.word(k) {
                        self.expect("(");
                        let st = self.ty();
                        let v = self.const_val(st);
                        self.expect("to");
                        let _ = self.ty();
                        self.expect(")");
                        let _ = n;
                        if n == 2 {
                            return (crate::expr::sext(v, self.m.bits(st)) as u128) & m;
                        }
                        return v & m;
                    }
                }
                for k in ["add", "sub", "mul", "and", "or", "xor", "shl", "lshr"] {
                    if self.word(k) {
                        while self.word("nuw") || self.word("nsw") || self.word("exact") {}
                        self.expect("(");
                        let t1 = self.ty();
                        let a = self.const_val(t1);
                        self.expect(",");
                        let t2 = self.ty();
                        let b = self.const_val(t2);
                        self.expect(")");
                        let r = match k {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            "and" => a & b,
                            "or" => a | b,
                            "xor" => a ^ b,
                            "shl" => a << b,
                            _ => a >> b,
                        };
                        return r & m;
                    }
                }
                if self.word("icmp") {
                    self.ws();
                    let p = self.ident();
                    self.expect("(");
                    let t1 = self.ty();
                    let a = self.const_val(t1);
                    self.expect(",");
                    let t2 = self.ty();
                    let b = self.const_val(t2);
                    self.expect(")");
                    return (match p.as_str() {
                        "eq" => a == b,
                        "ne" => a != b,
                        "ult" => a < b,
                        "ugt" => a > b,
                        "ule" => a <= b,
                        "uge" => a >= b,
                        _ => panic!("const icmp {}", p),
                    }) as u128;
                }
                if self.word("select") {
                    self.expect("(");
                    let t0 = self.ty();
                    let c = self.const_val(t0);
                    self.expect(",");
                    let t1 = self.ty();
                    let a = self.const_val(t1);
                    self.expect(",");
                    let t2 = self.ty();
                    let b = self.const_val(t2);
                    self.expect(")");
                    return if c == 1 { a } else { b };
                }
                let e = (self.i + 120).min(self.s.len());
                panic!("IR: constant at {:?}", String::from_utf8_lossy(&self.s[self.i..e]))
            }
        }
    }
    fn agg_open(&mut self) -> Option<u8> {
        self.ws();
        match self.s[self.i] {
            b'{' => {
                self.i += 1;
                Some(b'}')
            }
            b'[' => {
                self.i += 1;
                Some(b']')
            }
            b'<' => {
                self.i += 1;
                if self.s[self.i] == b'{' {
                    self.i += 1;
                    Some(b'p')
                } else {
                    Some(b'>')
                }
            }
            _ => None,
        }
    }
    fn agg_close(&mut self, c: u8) {
        self.ws();
        if c == b'p' {
            self.expect("}>");
        } else {
            assert_eq!(self.s[self.i], c, "aggregate end");
            self.i += 1;
        }
    }
    fn const_bytes(&mut self, t: TyId, out: &mut [u8], off: usize) {
        match self.m.ty(t) {
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => {
                let v = self.const_val(t);
                let n = ((self.m.bits(t) as usize) + 7) / 8;
                out[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                self.ws();
                if self.s[self.i..].starts_with(b"c\"") {
                    let b = self.cstr();
                    out[off..off + b.len()].copy_from_slice(&b);
                    return;
                }
                if self.word("zeroinitializer") || self.word("undef") || self.word("poison") {
                    return;
                }
                let c = self.agg_open().expect("aggregate constant");
                let mut k = 0;
                let endc = if c == b'p' { b'}' } else { c };
                while self.peek() != endc {
                    if k > 0 {
                        self.expect(",");
                    }
                    let et = self.ty();
                    let (_, o, _) = self.m.field(t, k);
                    self.const_bytes(et, out, off + o as usize);
                    k += 1;
                }
                self.agg_close(c);
            }
            _ => panic!("const_bytes"),
        }
    }
    fn const_flat(&mut self, t: TyId, out: &mut Vec<Opn>) {
        match self.m.ty(t) {
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => {
                let v = self.const_val(t);
                out.push(self.imm(v, self.m.bits(t)));
            }
            Ty::Void | Ty::Meta | Ty::Opaque => {}
            _ => {
                self.ws();
                if self.s[self.i..].starts_with(b"c\"") {
                    let b = self.cstr();
                    out.extend(b.iter().map(|x| Opn::I(*x as u64)));
                    return;
                }
                if self.word("zeroinitializer") || self.word("undef") || self.word("poison") {
                    for e in self.m.flat(t) {
                        out.push(self.imm(0, e.bits));
                    }
                    return;
                }
                let c = self.agg_open().expect("aggregate constant");
                let mut k = 0;
                let endc = if c == b'p' { b'}' } else { c };
                while self.peek() != endc {
                    if k > 0 {
                        self.expect(",");
                    }
                    let et = self.ty();
                    self.const_flat(et, out);
                    k += 1;
                }
                self.agg_close(c);
            }
        }
    }
    fn imm(&self, v: u128, w: u16) -> Opn {
        if w <= 64 {
            Opn::I(v as u64)
        } else {
            let mut b = self.m.bigs.borrow_mut();
            b.push((v, w));
            Opn::B(b.len() as u32 - 1)
        }
    }
}

struct FnParser<'m> {
    p: Ps<'m>,
    slots: HashMap<String, u32>,
    nslots: u32,
    blocks: HashMap<String, u32>,     // label -> block index
    bpc: Vec<u32>,                    // block -> pc
    bphis: Vec<Vec<(u32, Vec<(String, Vec<Opn>)>)>>, // block -> phis (dst, incoming)
    code: Vec<Inst>,
    edges: Vec<(u32, String)>, // (target block, source label)
    frame: u32,
    cur: String,
}

impl<'m> FnParser<'m> {
    fn parse(m: &'m Module, a: usize, b: usize) -> Func {
        let mut f = FnParser {
            p: Ps { m, s: &m.src[..b + 1], i: a },
            slots: HashMap::new(),
            nslots: 0,
            blocks: HashMap::new(),
            bpc: vec![],
            bphis: vec![],
            code: vec![],
            edges: vec![],
            frame: 0,
            cur: String::new(),
        };
        f.header();
        let nparams = f.nslots;
        // body
        f.p.expect("{");
        let first_label = f.guess_first_label();
        f.start_block(&first_label);
        loop {
            // next line
            while f.p.s[f.p.i] == b'\n' || f.p.s[f.p.i] == b' ' {
                f.p.i += 1;
            }
            if f.p.s[f.p.i] == b'}' {
                break;
            }
            let ls = f.p.i;
            // label?
            let le = ls + f.p.s[ls..].iter().position(|c| *c == b'\n').unwrap();
            let at_line_start = ls == 0 || f.p.s[ls - 1] == b'\n';
            if at_line_start && f.p.s[ls] != b';' {
                let name = f.p.ident();
                assert_eq!(f.p.s[f.p.i], b':', "label {:?}", String::from_utf8_lossy(&f.p.s[ls..le]));
                // an explicit label for the entry block?
                if f.code.is_empty() && f.bphis.len() == 1 && f.bphis[0].is_empty() {
                    f.blocks.remove(&first_label);
                    f.blocks.insert(name.clone(), 0);
                    f.cur = name;
                } else {
                    f.start_block(&name);
                }
                f.p.i = le + 1;
                continue;
            }
            if f.p.s[ls] == b';' {
                f.p.i = le + 1;
                continue;
            }
            f.inst();
            // skip the rest of the line (metadata, attributes); looking ahead may have passed its end
            while f.p.s[f.p.i - 1] == b' ' || f.p.s[f.p.i - 1] == b'\n' {
                f.p.i -= 1;
            }
            while f.p.s[f.p.i] != b'\n' {
                f.p.i += 1;
            }
        }
        // resolve edges
        let mut edges = vec![];
        for (tb, src) in std::mem::take(&mut f.edges) {
            let mut copies = vec![];
            for (dst, inc) in &f.bphis[tb as usize] {
                let v = inc.iter().find(|x| x.0 == src).map(|x| &x.1);
                if let Some(v) = v {
                    for (k, o) in v.iter().enumerate() {
                        copies.push((dst + k as u32, *o));
                    }
                } else {
                    panic!("phi without incoming {}", src);
                }
            }
            edges.push(Edge { target: f.bpc[tb as usize], copies: copies.into() });
        }
        Func { code: f.code, edges, nslots: f.nslots, nparams, frame: f.frame }
    }
    fn guess_first_label(&mut self) -> String {
        // unnamed entry block takes the number after the parameters
        let n = self.slots.keys().filter_map(|k| k.parse::<u32>().ok()).max().map_or(0, |x| x + 1);
        n.to_string()
    }
    fn start_block(&mut self, name: &str) {
        let b = self.block(name);
        self.bpc[b as usize] = self.code.len() as u32;
        self.cur = name.to_string();
    }
    fn block(&mut self, name: &str) -> u32 {
        if let Some(&b) = self.blocks.get(name) {
            return b;
        }
        let b = self.bpc.len() as u32;
        self.blocks.insert(name.to_string(), b);
        self.bpc.push(u32::MAX);
        self.bphis.push(vec![]);
        b
    }
    fn slot(&mut self, name: &str, t: TyId) -> u32 {
        if let Some(&s) = self.slots.get(name) {
            return s;
        }
        let n = self.p.m.flat(t).len() as u32;
        let s = self.nslots;
        self.nslots += n;
        self.slots.insert(name.to_string(), s);
        s
    }
    fn skip_attrs(&mut self) {
        // attributes between a type and a value / name
        loop {
            self.p.ws();
            let c = self.p.s[self.p.i];
            if !(c.is_ascii_lowercase()) {
                return;
            }
            // values that look like words
            for k in ["null", "undef", "poison", "true", "false", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "add (", "sub (", "trunc (", "icmp ", "select (", "c\"", "blockaddress", "asm", "xor (", "and (", "or (", "zext (", "sext (", "mul ("] {
                if self.p.s[self.p.i..].starts_with(k.as_bytes()) {
                    return;
                }
            }
            let wd = self.p.ident();
            if self.p.s[self.p.i] == b'(' {
                self.p.skip_parens();
            } else if wd == "align" && self.p.s[self.p.i] == b' ' && self.p.s[self.p.i + 1].is_ascii_digit() {
                // "align 8"
                self.p.i += 1;
                self.p.number();
            }
        }
    }
    fn header(&mut self) {
        // define <stuff> <ret> @name(params) attrs {
        let at = self.p.s[self.p.i..].iter().position(|c| *c == b'@').unwrap() + self.p.i;
        self.p.i = at + 1;
        let _ = self.p.ident();
        self.p.expect("(");
        let mut n = 0;
        if self.p.peek() == b')' {
            self.p.i += 1;
        } else {
            loop {
                if self.p.eat("...") {
                    break;
                }
                let t = self.p.ty();
                self.skip_attrs();
                self.p.ws();
                let name = if self.p.s[self.p.i] == b'%' {
                    self.p.i += 1;
                    self.p.ident()
                } else {
                    n.to_string()
                };
                n += 1;
                self.slot(&name, t);
                if !self.p.eat(",") {
                    break;
                }
            }
            self.p.expect(")");
        }
        // to the '{' that ends the line
        let le = self.p.s[self.p.i..].iter().position(|c| *c == b'\n').unwrap() + self.p.i;
        assert_eq!(self.p.s[le - 1], b'{');
        self.p.i = le - 1;
    }
    fn vals(&mut self, t: TyId) -> Vec<Opn> {
        self.p.ws();
        if self.p.s[self.p.i] == b'%' {
            self.p.i += 1;
            let n = self.p.ident();
            let s = self.slot(&n, t);
            let k = self.p.m.flat(t).len() as u32;
            (0..k).map(|i| Opn::R(s + i)).collect()
        } else {
            let mut v = vec![];
            self.p.const_flat(t, &mut v);
            v
        }
    }
    fn val(&mut self, t: TyId) -> Opn {
        let v = self.vals(t);
        assert_eq!(v.len(), 1, "scalar operand");
        v[0]
    }
    fn tyval(&mut self) -> (TyId, Vec<Opn>) {
        let t = self.p.ty();
        let v = self.vals(t);
        (t, v)
    }
    fn edge(&mut self, label: &str) -> u32 {
        let b = self.block(label);
        self.edges.push((b, self.cur.clone()));
        self.edges.len() as u32 - 1
    }
    fn label(&mut self) -> String {
        self.p.expect("label");
        self.p.expect("%");
        self.p.ident()
    }
    fn scalar(&self, t: TyId) -> bool {
        !matches!(self.p.m.ty(t), Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..))
    }
    fn elem_bits(&self, t: TyId) -> u16 {
        match self.p.m.ty(t) {
            Ty::Vector(_, x) => self.p.m.bits(x),
            _ => self.p.m.bits(t),
        }
    }
    fn inst(&mut self) {
        let mut dname: Option<String> = None;
        let m = self.p.m;
        if self.p.s[self.p.i] == b'%' {
            self.p.i += 1;
            dname = Some(self.p.ident());
            self.p.expect("=");
        }
        self.p.ws();
        let st = self.p.i;
        let mut op = self.p.ident();
        while op == "tail" || op == "musttail" || op == "notail" {
            self.p.ws();
            op = self.p.ident();
        }
        let d = dname.clone().unwrap_or_default();
        macro_rules! dst {
            ($t:expr) => {
                self.slot(&d, $t)
            };
        }
        let i1 = m.intern(Ty::Int(1));
        let bop = match op.as_str() {
            "add" => Some(Op::Add),
            "mul" => Some(Op::Mul),
            "udiv" => Some(Op::UDiv),
            "sdiv" => Some(Op::SDiv),
            "urem" => Some(Op::URem),
            "srem" => Some(Op::SRem),
            "shl" => Some(Op::Shl),
            "lshr" => Some(Op::LShr),
            "ashr" => Some(Op::AShr),
            "and" => Some(Op::And),
            "or" => Some(Op::Or),
            "xor" => Some(Op::Xor),
            "fadd" => Some(Op::FAdd),
            "fsub" => Some(Op::FSub),
            "fmul" => Some(Op::FMul),
            "fdiv" => Some(Op::FDiv),
            "frem" => Some(Op::FRem),
            _ => None,
        };
        if bop.is_some() || op == "sub" {
            self.flags();
            let t = self.p.ty();
            let a = self.vals(t);
            self.p.expect(",");
            let b = self.vals(t);
            let w = self.elem_bits(t);
            let dd = dst!(t);
            self.code.push(match (bop, self.scalar(t)) {
                (Some(o), true) => Inst::Bin(o, w, dd, a[0], b[0]),
                (Some(o), false) => Inst::BinV(o, w, dd, a.into(), b.into()),
                (None, true) => Inst::Sub(w, dd, a[0], b[0]),
                (None, false) => Inst::SubV(w, dd, a.into(), b.into()),
            });
            return;
        }
        match op.as_str() {
            "icmp" => {
                self.p.ws();
                let mut pr = self.p.ident();
                if pr == "samesign" {
                    self.p.ws();
                    pr = self.p.ident();
                }
                let pred = match pr.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("icmp {}", pr),
                };
                let t = self.p.ty();
                let a = self.vals(t);
                self.p.expect(",");
                let b = self.vals(t);
                let w = self.elem_bits(t);
                if self.scalar(t) {
                    let dd = dst!(i1);
                    self.code.push(Inst::ICmp(pred, w, dd, a[0], b[0]));
                } else {
                    let vt = m.intern(Ty::Vector(a.len() as u32, i1));
                    let dd = dst!(vt);
                    self.code.push(Inst::ICmpV(pred, w, dd, a.into(), b.into()));
                }
            }
            "fcmp" => {
                self.flags();
                self.p.ws();
                let pr = self.p.ident();
                let t = self.p.ty();
                let a = self.vals(t);
                self.p.expect(",");
                let b = self.vals(t);
                let names = [
                    "false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true",
                ];
                let k = names.iter().position(|x| *x == pr).expect("fcmp") as u8;
                let dd = dst!(i1);
                self.code.push(Inst::FCmp(k, self.elem_bits(t), dd, a[0], b[0]));
            }
            "fneg" => {
                self.flags();
                let (t, a) = self.tyval();
                let dd = dst!(t);
                self.code.push(Inst::FNeg(self.elem_bits(t), dd, a[0]));
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "uitofp" | "sitofp" | "fptoui" | "fptosi" => {
                self.flags();
                let (t, a) = self.tyval();
                self.p.expect("to");
                let rt = self.p.ty();
                let (fw, tw) = (self.elem_bits(t), self.elem_bits(rt));
                let c = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "fptrunc" => CastOp::Un(Op::FTrunc),
                    "fpext" => CastOp::Un(Op::FExt),
                    "uitofp" => CastOp::Un(Op::UToF),
                    "sitofp" => CastOp::Un(Op::SToF),
                    "fptoui" => CastOp::Un(Op::FToU),
                    _ => CastOp::Un(Op::FToS),
                };
                let dd = dst!(rt);
                if self.scalar(t) {
                    self.code.push(Inst::Cast(c, fw, tw, dd, a[0]));
                } else {
                    self.code.push(Inst::CastV(c, fw, tw, dd, a.into()));
                }
            }
            "ptrtoint" | "inttoptr" => {
                let (t, a) = self.tyval();
                self.p.expect("to");
                let rt = self.p.ty();
                let (fw, tw) = (self.elem_bits(t), self.elem_bits(rt));
                let dd = dst!(rt);
                if fw == tw {
                    if a.len() == 1 {
                        self.code.push(Inst::Copy1(dd, a[0]));
                    } else {
                        self.code.push(Inst::CopyN(dd, a.into()));
                    }
                } else {
                    self.code.push(Inst::Cast(if fw > tw { CastOp::Trunc } else { CastOp::ZExt }, fw, tw, dd, a[0]));
                }
            }
            "bitcast" => {
                let (t, a) = self.tyval();
                self.p.expect("to");
                let rt = self.p.ty();
                let (fw, tw) = (self.elem_bits(t), self.elem_bits(rt));
                let dd = dst!(rt);
                if fw == tw {
                    self.code.push(Inst::CopyN(dd, a.into()));
                } else {
                    self.code.push(Inst::Repack(fw, tw, dd, a.into()));
                }
            }
            "freeze" => {
                let (t, a) = self.tyval();
                let dd = dst!(t);
                self.code.push(Inst::CopyN(dd, a.into()));
            }
            "getelementptr" => {
                while self.p.word("inbounds") || self.p.word("nuw") || self.p.word("nusw") {}
                let t = self.p.ty();
                self.p.expect(",");
                let pt = self.p.ty();
                if !self.scalar(pt) {
                    self.code.push(Inst::Bad("vector gep".into()));
                    let _ = dst!(pt);
                    return;
                }
                let base = self.val(pt);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while self.p.peek() == b',' {
                    self.p.i += 1;
                    self.p.ws();
                    if self.p.s[self.p.i] == b'!' {
                        break;
                    }
                    let it = self.p.ty();
                    let v = self.val(it);
                    let iw = self.elem_bits(it);
                    if first {
                        let (s, _) = m.size_align(cur);
                        match v {
                            Opn::I(k) => off = off.wrapping_add((s as i64).wrapping_mul(crate::expr::sext(k as u128, iw) as i64)),
                            o => idx.push((o, iw, s as i64)),
                        }
                        first = false;
                    } else {
                        match m.ty(cur) {
                            Ty::Struct(..) => {
                                let k = match v {
                                    Opn::I(k) => k,
                                    _ => panic!("struct gep index"),
                                };
                                let (x, o, _) = m.field(cur, k);
                                off += o as i64;
                                cur = x;
                            }
                            Ty::Array(_, x) | Ty::Vector(_, x) => {
                                let (s, _) = m.size_align(x);
                                match v {
                                    Opn::I(k) => off = off.wrapping_add((s as i64).wrapping_mul(crate::expr::sext(k as u128, iw) as i64)),
                                    o => idx.push((o, iw, s as i64)),
                                }
                                cur = x;
                            }
                            _ => panic!("gep into scalar"),
                        }
                    }
                }
                let dd = dst!(pt);
                self.code.push(Inst::Gep(dd, base, off, idx.into()));
            }
            "load" => {
                while self.p.word("atomic") || self.p.word("volatile") {}
                let t = self.p.ty();
                self.p.expect(",");
                let pt = self.p.ty();
                let p = self.val(pt);
                let dd = dst!(t);
                if self.scalar(t) {
                    self.code.push(Inst::Load(dd, p, m.bits(t)));
                } else if matches!(m.ty(t), Ty::Vector(_, x) if m.bits(x) % 8 != 0) {
                    self.code.push(Inst::Bad("vector of bits load".into()));
                } else {
                    self.code.push(Inst::LoadN(dd, p, m.flat(t).into()));
                }
            }
            "store" => {
                while self.p.word("atomic") || self.p.word("volatile") {}
                let (t, v) = self.tyval();
                self.p.expect(",");
                let pt = self.p.ty();
                let p = self.val(pt);
                if self.scalar(t) {
                    self.code.push(Inst::Store(p, v[0], m.bits(t)));
                } else if matches!(m.ty(t), Ty::Vector(_, x) if m.bits(x) % 8 != 0) {
                    self.code.push(Inst::Bad("vector of bits store".into()));
                } else {
                    self.code.push(Inst::StoreN(p, v.into(), m.flat(t).into()));
                }
            }
            "alloca" => {
                self.p.word("inalloca");
                let t = self.p.ty();
                let (s, a) = m.size_align(t);
                let mut al = a;
                let mut count: Option<Opn> = None;
                while self.p.peek() == b',' {
                    self.p.i += 1;
                    if self.p.word("align") {
                        al = self.p.number();
                    } else if self.p.peek() == b'!' {
                        break;
                    } else {
                        let it = self.p.ty();
                        count = Some(self.val(it));
                    }
                }
                let pt = m.intern(Ty::Ptr);
                let dd = dst!(pt);
                match count {
                    None | Some(Opn::I(_)) => {
                        let n = match count {
                            Some(Opn::I(n)) => n,
                            _ => 1,
                        };
                        let al = al.max(8) as u32;
                        let o = (self.frame + al - 1) / al * al;
                        self.frame = o + (s * n) as u32;
                        self.code.push(Inst::FrameAddr(dd, o));
                    }
                    Some(o) => self.code.push(Inst::AllocaDyn(dd, s, o)),
                }
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tyval();
                self.p.expect(",");
                let (t, a) = self.tyval();
                self.p.expect(",");
                let (_, b) = self.tyval();
                let dd = dst!(t);
                if c.len() > 1 || !self.scalar(ct) {
                    self.code.push(Inst::SelectV(dd, c.into(), self.elem_bits(t), a.into(), b.into()));
                } else if a.len() == 1 {
                    self.code.push(Inst::Select(dd, c[0], self.elem_bits(t), a[0], b[0]));
                } else {
                    let ws: Vec<u16> = m.flat(t).iter().map(|e| e.bits).collect();
                    self.code.push(Inst::SelectN(dd, c[0], ws.into(), a.into(), b.into()));
                }
            }
            "extractvalue" => {
                let (t, a) = self.tyval();
                let (mut cur, mut k) = (t, 0usize);
                while self.p.peek() == b',' {
                    self.p.i += 1;
                    if self.p.peek() == b'!' {
                        break;
                    }
                    let n = self.p.number();
                    let (x, _, o) = m.field(cur, n);
                    cur = x;
                    k += o;
                }
                let n = m.flat(cur).len();
                let dd = dst!(cur);
                self.code.push(Inst::CopyN(dd, a[k..k + n].into()));
            }
            "insertvalue" => {
                let (t, mut a) = self.tyval();
                self.p.expect(",");
                let (_, b) = self.tyval();
                let (mut cur, mut k) = (t, 0usize);
                while self.p.peek() == b',' {
                    self.p.i += 1;
                    if self.p.peek() == b'!' {
                        break;
                    }
                    let n = self.p.number();
                    let (x, _, o) = m.field(cur, n);
                    cur = x;
                    k += o;
                }
                for (i, v) in b.iter().enumerate() {
                    a[k + i] = *v;
                }
                let dd = dst!(t);
                self.code.push(Inst::CopyN(dd, a.into()));
            }
            "extractelement" => {
                let (t, a) = self.tyval();
                self.p.expect(",");
                let (it, ix) = self.tyval();
                let et = match m.ty(t) {
                    Ty::Vector(_, x) => x,
                    _ => panic!(),
                };
                let dd = dst!(et);
                match ix[0] {
                    Opn::I(k) => self.code.push(Inst::Copy1(dd, a[k as usize])),
                    o => self.code.push(Inst::ExtElDyn(dd, m.bits(et), a.into(), o, m.bits(it))),
                }
            }
            "insertelement" => {
                let (t, mut a) = self.tyval();
                self.p.expect(",");
                let (_, v) = self.tyval();
                self.p.expect(",");
                let (it, ix) = self.tyval();
                let dd = dst!(t);
                match ix[0] {
                    Opn::I(k) => {
                        a[k as usize] = v[0];
                        self.code.push(Inst::CopyN(dd, a.into()));
                    }
                    o => self.code.push(Inst::InsElDyn(dd, self.elem_bits(t), a.into(), v[0], o, m.bits(it))),
                }
            }
            "shufflevector" => {
                let (t, a) = self.tyval();
                self.p.expect(",");
                let (_, b) = self.tyval();
                self.p.expect(",");
                let mt = self.p.ty();
                let mut mk = vec![];
                self.p.const_flat(mt, &mut mk);
                let et = match m.ty(t) {
                    Ty::Vector(_, x) => x,
                    _ => panic!(),
                };
                let all: Vec<Opn> = a.iter().chain(b.iter()).cloned().collect();
                let r: Vec<Opn> = mk
                    .iter()
                    .map(|k| match k {
                        Opn::I(k) => all[(*k as usize).min(all.len() - 1)],
                        _ => panic!(),
                    })
                    .collect();
                let rt = m.intern(Ty::Vector(r.len() as u32, et));
                let dd = dst!(rt);
                self.code.push(Inst::CopyN(dd, r.into()));
            }
            "phi" => {
                self.flags();
                let t = self.p.ty();
                let mut inc = vec![];
                loop {
                    self.p.expect("[");
                    let v = self.vals(t);
                    self.p.expect(",");
                    self.p.expect("%");
                    let l = self.p.ident();
                    self.p.expect("]");
                    inc.push((l, v));
                    if self.p.peek() == b',' {
                        let save = self.p.i;
                        self.p.i += 1;
                        if self.p.peek() != b'[' {
                            self.p.i = save;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                let dd = dst!(t);
                let b = self.blocks[&self.cur.clone()];
                self.bphis[b as usize].push((dd, inc));
            }
            "br" => {
                if self.p.peek() == b'l' {
                    let l = self.label();
                    let e = self.edge(&l);
                    self.code.push(Inst::Br(e));
                } else {
                    let (_, c) = self.tyval();
                    self.p.expect(",");
                    let a = self.label();
                    self.p.expect(",");
                    let b = self.label();
                    let ea = self.edge(&a);
                    let eb = self.edge(&b);
                    self.code.push(Inst::CondBr(c[0], ea, eb));
                }
            }
            "switch" => {
                let (t, v) = self.tyval();
                self.p.expect(",");
                let dl = self.label();
                let de = self.edge(&dl);
                self.p.expect("[");
                let mut cases = vec![];
                let mut seen: HashMap<String, u32> = HashMap::new();
                while self.p.peek() != b']' {
                    let ct = self.p.ty();
                    let k = self.p.const_val(ct) as u64;
                    self.p.expect(",");
                    let l = self.label();
                    let e = if l == dl {
                        de
                    } else if let Some(e) = seen.get(&l) {
                        *e
                    } else {
                        let e = self.edge(&l);
                        seen.insert(l, e);
                        e
                    };
                    cases.push((k, e));
                }
                self.p.expect("]");
                cases.sort();
                self.code.push(Inst::Switch(m.bits(t), v[0], cases.into(), de));
            }
            "ret" => {
                let t = self.p.ty();
                let v = if m.ty(t) == Ty::Void { vec![] } else { self.vals(t) };
                self.code.push(Inst::Ret(v.into()));
            }
            "unreachable" => self.code.push(Inst::Unreachable),
            "fence" => self.code.push(Inst::Nop),
            "atomicrmw" => {
                self.p.word("volatile");
                self.p.ws();
                let o = self.p.ident();
                let pt = self.p.ty();
                let p = self.val(pt);
                self.p.expect(",");
                let (t, v) = self.tyval();
                let k = ["xchg", "add", "sub", "and", "or", "xor", "umax", "umin", "max", "min", "nand"].iter().position(|x| *x == o).expect("atomicrmw") as u8;
                let dd = dst!(t);
                self.code.push(Inst::Rmw(k, m.bits(t), dd, p, v[0]));
            }
            "cmpxchg" => {
                while self.p.word("weak") || self.p.word("volatile") {}
                let pt = self.p.ty();
                let p = self.val(pt);
                self.p.expect(",");
                let (t, a) = self.tyval();
                self.p.expect(",");
                let (_, b) = self.tyval();
                let rt = m.intern(Ty::Struct(vec![t, i1], false));
                let dd = dst!(rt);
                self.code.push(Inst::CmpXchg(m.bits(t), dd, p, a[0], b[0]));
            }
            "call" => self.call(&d),
            _ => {
                let e = (st + 160).min(self.p.s.len());
                panic!("IR: instruction {:?}", String::from_utf8_lossy(&self.p.s[st..e]))
            }
        }
    }
    fn flags(&mut self) {
        while ["nuw", "nsw", "exact", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]
            .iter()
            .any(|w| self.p.word(w))
        {}
    }
    fn call(&mut self, d: &str) {
        let m = self.p.m;
        self.flags();
        // calling convention and return attributes
        loop {
            self.p.ws();
            let c = self.p.s[self.p.i];
            let rest = &self.p.s[self.p.i..];
            let tyish = (c == b'i' && rest[1].is_ascii_digit())
                || rest.starts_with(b"ptr")
                || rest.starts_with(b"void")
                || rest.starts_with(b"double")
                || rest.starts_with(b"float")
                || c == b'{'
                || c == b'['
                || c == b'<'
                || c == b'%';
            if tyish {
                break;
            }
            let w = self.p.ident();
            if w.is_empty() {
                panic!("call syntax {:?}", String::from_utf8_lossy(&rest[..80]));
            }
            if self.p.s[self.p.i] == b'(' {
                self.p.skip_parens();
            } else if (w == "align" || w == "addrspace" || w == "cc") && self.p.s[self.p.i] == b' ' && self.p.s[self.p.i + 1].is_ascii_digit() {
                self.p.number();
            }
        }
        let rt = self.p.ty();
        self.p.ws();
        if self.p.s[self.p.i] == b'(' {
            self.p.skip_parens(); // function type
        }
        self.p.ws();
        let callee;
        if self.p.word("asm") {
            // flags, template, constraints
            loop {
                self.p.ws();
                if self.p.s[self.p.i] == b'"' {
                    break;
                }
                self.p.ident();
            }
            self.p.ident();
            self.p.expect(",");
            self.p.ws();
            self.p.ident();
            callee = Callee::Asm;
        } else if self.p.s[self.p.i] == b'@' {
            self.p.i += 1;
            let n = self.p.ident();
            if n.starts_with("llvm.") {
                callee = Callee::Intrinsic(m.intrinsic(&n));
            } else {
                callee = match m.fmap.get(&n) {
                    Some(f) => Callee::Direct(*f),
                    None => Callee::Indirect(Opn::I(0)), // weak undefined symbol
                };
            }
        } else {
            let pt = m.intern(Ty::Ptr);
            let v = self.val(pt);
            callee = match v {
                Opn::I(k) if k >> 32 >= FUNC_BASE => Callee::Direct(((k >> 32) - FUNC_BASE) as u32),
                o => Callee::Indirect(o),
            };
        }
        self.p.expect("(");
        let (mut args, mut argw, mut argn) = (vec![], vec![], vec![]);
        if self.p.peek() == b')' {
            self.p.i += 1;
        } else {
            loop {
                let t = self.p.ty();
                if m.ty(t) == Ty::Meta {
                    // skip the metadata argument
                    let mut depth = 0;
                    loop {
                        match self.p.s[self.p.i] {
                            b'(' => depth += 1,
                            b')' if depth == 0 => break,
                            b')' => depth -= 1,
                            b',' if depth == 0 => break,
                            _ => {}
                        }
                        self.p.i += 1;
                    }
                } else {
                    self.skip_attrs();
                    let v = self.vals(t);
                    argn.push(v.len() as u16);
                    for e in m.flat(t) {
                        argw.push(e.bits);
                    }
                    args.extend(v);
                }
                if !self.p.eat(",") {
                    break;
                }
            }
            self.p.expect(")");
        }
        let ret: Vec<u16> = m.flat(rt).iter().map(|e| e.bits).collect();
        let dst = if ret.is_empty() || d.is_empty() { u32::MAX } else { self.slot(d, rt) };
        self.code.push(Inst::Call(Box::new(CallI { dst, ret: ret.into(), callee, args: args.into(), argw: argw.into(), argn: argn.into() })));
    }
}

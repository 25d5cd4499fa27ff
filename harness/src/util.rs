//! Symbolic graphs, reference algorithms and independent decoders for the three output formats.
use crate::sym::*;
use twiggy_ir::*;
pub use twiggy_traits::{Emit, OutputFormat};

pub const ROOT: usize = usize::MAX;

/// The item graph a harness chose (one per path), with symbolic sizes.
#[derive(Clone)]
pub struct Gr {
    pub n: usize,
    pub size: Vec<u32>,
    pub name: Vec<String>,
    pub kind: Vec<u8>, // 0 code, 1 data, 2 misc, 3 debug
    pub adj: Vec<Vec<bool>>,
    pub root: Vec<bool>,
    pub total: u32,
}
pub const MAXSZ: u32 = 1 << 26;

impl Gr {
    /// n items without edges, symbolic sizes and a symbolic total of at least their sum.
    pub fn sizes(n: usize) -> Gr {
        Gr::sizes_lo(n, 0)
    }
    pub fn sizes_lo(n: usize, lo: u32) -> Gr {
        let size: Vec<u32> = (0..n).map(|_| u32_in("size", lo, MAXSZ)).collect();
        let total = u32_in("total", 1, u32::MAX);
        let mut s = 0u32;
        for x in &size {
            s += *x;
        }
        assume(total >= s);
        Gr {
            n,
            size,
            name: (0..n).map(|i| format!("n{}", i)).collect(),
            kind: (0..n).map(|i| [0, 1, 3, 2][i % 4]).collect(),
            adj: vec![vec![false; n]; n],
            root: vec![false; n],
            total,
        }
    }
    /// Symbolic edges and roots. mode 0: all pairs; 1: no self loops; 2: forward edges only (DAG).
    pub fn edges(&mut self, mode: u64) {
        self.roots();
        self.adjs(mode);
    }
    pub fn roots(&mut self) {
        for i in 0..self.n {
            self.root[i] = flag("root");
        }
    }
    pub fn adjs(&mut self, mode: u64) {
        for i in 0..self.n {
            for j in 0..self.n {
                if (mode >= 1 && i == j) || (mode >= 2 && i > j) {
                    continue;
                }
                self.adj[i][j] = flag("edge");
            }
        }
    }
    pub fn id(i: usize) -> Id {
        if i == ROOT {
            return Id::root();
        }
        // entries, with a section header item in between
        match i {
            0 => Id::entry(0, 0),
            1 => Id::entry(0, 1),
            2 => Id::section(0),
            3 => Id::entry(1, 0),
            4 => Id::section(1),
            _ => Id::entry(2, i),
        }
    }
    pub fn build(&self) -> Items {
        let mut b = ItemsBuilder::new(self.total);
        for i in 0..self.n {
            let id = Gr::id(i);
            let name = self.name[i].clone();
            let item = match self.kind[i] {
                0 => {
                    let k = Code::new(&name);
                    Item::new(id, name, self.size[i], k)
                }
                1 => Item::new(id, name, self.size[i], Data::new(None)),
                3 => Item::new(id, name, self.size[i], DebugInfo::new()),
                _ => Item::new(id, name, self.size[i], Misc::new()),
            };
            if self.root[i] {
                b.add_root(item);
            } else {
                b.add_item(item);
            }
        }
        for i in 0..self.n {
            for j in 0..self.n {
                if self.adj[i][j] {
                    b.add_edge(Gr::id(i), Gr::id(j));
                }
            }
        }
        b.finish()
    }
    /// Items reachable from the roots when `removed` is taken away.
    pub fn reach(&self, removed: usize) -> Vec<bool> {
        let mut r = vec![false; self.n];
        for i in 0..self.n {
            r[i] = self.root[i] && i != removed;
        }
        for _ in 0..self.n {
            for i in 0..self.n {
                if r[i] {
                    for j in 0..self.n {
                        if self.adj[i][j] && j != removed {
                            r[j] = true;
                        }
                    }
                }
            }
        }
        r
    }
    /// dom[v][w]: every path from the roots to w goes through v (w reachable).
    pub fn dom(&self) -> Vec<Vec<bool>> {
        let all = self.reach(ROOT);
        (0..self.n)
            .map(|v| {
                let r = self.reach(v);
                (0..self.n).map(|w| all[v] && all[w] && !r[w]).collect()
            })
            .collect()
    }
    /// Immediate dominators: None for unreachable items, Some(ROOT) for the meta root.
    pub fn idom(&self) -> Vec<Option<usize>> {
        let all = self.reach(ROOT);
        let dom = self.dom();
        (0..self.n)
            .map(|w| {
                if !all[w] {
                    return None;
                }
                let mut best = ROOT;
                let mut bd = 0;
                for v in 0..self.n {
                    if v != w && dom[v][w] {
                        let c = (0..self.n).filter(|u| dom[*u][v]).count();
                        if c > bd {
                            bd = c;
                            best = v;
                        }
                    }
                }
                Some(best)
            })
            .collect()
    }
    pub fn retained(&self) -> Vec<u32> {
        let dom = self.dom();
        let all = self.reach(ROOT);
        (0..self.n)
            .map(|v| {
                let mut s = 0u32;
                for w in 0..self.n {
                    if (w == v && !all[v]) || dom[v][w] {
                        s += self.size[w];
                    }
                }
                s
            })
            .collect()
    }
    pub fn root_retained(&self) -> u32 {
        let all = self.reach(ROOT);
        let mut s = 0u32;
        for w in 0..self.n {
            if all[w] {
                s += self.size[w];
            }
        }
        s
    }
    pub fn by_name(&self, s: &str) -> Option<usize> {
        (0..self.n).find(|i| self.name[*i] == s)
    }
    pub fn pct(&self, x: u32) -> f64 {
        f64::from(x) / f64::from(self.total) * 100.0
    }
}

/// Keep a formula from being folded away into the path (both operands evaluated, no short cut).
pub fn both(a: bool, b: bool) -> bool {
    a & b
}

pub fn render(e: &Box<dyn Emit>, items: &Items, f: OutputFormat) -> Vec<u8> {
    let mut out = Vec::new();
    if e.emit(items, &mut out, f).is_err() {
        fail("emit returned an error");
    }
    out
}
pub fn text(e: &Box<dyn Emit>, items: &Items) -> String {
    match String::from_utf8(render(e, items, OutputFormat::Text)) {
        Ok(s) => s,
        Err(_) => fail("text output is not UTF-8"),
    }
}

// ---- numbers ----
fn tokval(s: &str) -> Option<u64> {
    let b = s.as_bytes();
    if b.len() >= 6 && b[0] == b'@' {
        let mut k = 0;
        for c in &b[2..6] {
            k = k * 10 + (*c - b'0') as u32;
        }
        Some(sym_token_val(k))
    } else {
        None
    }
}
pub fn int(s: &str) -> u64 {
    let s = s.trim();
    if let Some(v) = tokval(s) {
        if s.len() != 6 {
            fail("trailing characters after a number");
        }
        if s.as_bytes()[1] == b'F' {
            return f64::from_bits(v) as u64;
        }
        return v;
    }
    match s.parse::<u64>() {
        Ok(v) => v,
        Err(_) => match s.parse::<f64>() {
            Ok(v) if v >= 0.0 && v == (v as u64) as f64 => v as u64,
            _ => fail("not a number"),
        },
    }
}
/// An integer with an optional sign.
pub fn sint(s: &str) -> i64 {
    let s = s.trim();
    if let Some(r) = s.strip_prefix('-') {
        (int(r) as i64).wrapping_neg()
    } else if let Some(r) = s.strip_prefix('+') {
        int(r) as i64
    } else {
        int(s) as i64
    }
}
pub fn flt(s: &str) -> f64 {
    let s = s.trim();
    let (neg, t) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let v = if let Some(v) = tokval(t) {
        if t.len() != 6 {
            fail("trailing characters after a number");
        }
        if t.as_bytes()[1] == b'F' {
            f64::from_bits(v)
        } else {
            v as f64
        }
    } else {
        match t.parse::<f64>() {
            Ok(v) => v,
            Err(_) => fail("not a number"),
        }
    };
    if neg {
        -v
    } else {
        v
    }
}
pub fn pct(s: &str) -> f64 {
    match s.trim().strip_suffix('%') {
        Some(r) => flt(r),
        None => fail("percentage without %"),
    }
}

// ---- text tables ----
pub struct Table {
    pub header: Vec<String>,
    pub rows: Vec<Vec<String>>,
}
/// Decode a text table: cells are cut at the separators and trimmed on the aligned side only.
pub fn table(t: &str) -> Table {
    let mut lines: Vec<&str> = t.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    } else {
        fail("table does not end with a newline");
    }
    if lines.len() < 2 {
        fail("table without header");
    }
    let header: Vec<String> = lines[0].split(" │ ").map(|c| c.trim().to_string()).collect();
    for c in lines[1].chars() {
        if c != '─' && c != '┼' {
            fail("bad rule");
        }
    }
    let k = header.len();
    let rows = lines[2..]
        .iter()
        .map(|l| {
            let cells: Vec<String> = l.splitn(k, " ┊ ").map(|c| c.to_string()).collect();
            if cells.len() != k {
                fail("row with a wrong number of cells");
            }
            cells
        })
        .collect();
    Table { header, rows }
}

// ---- JSON ----
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn f(&self, k: &str) -> &J {
        match self.get(k) {
            Some(j) => j,
            None => fail("missing JSON field"),
        }
    }
    pub fn s(&self, k: &str) -> &str {
        match self.f(k) {
            J::Str(s) => s,
            _ => fail("JSON field is not a string"),
        }
    }
    pub fn num(&self, k: &str) -> &str {
        match self.f(k) {
            J::Num(s) => s,
            _ => fail("JSON field is not a number"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => fail("JSON value is not an array"),
        }
    }
    pub fn keys(&self) -> Vec<&str> {
        match self {
            J::Obj(v) => v.iter().map(|x| x.0.as_str()).collect(),
            _ => fail("JSON value is not an object"),
        }
    }
}
pub fn json(b: &[u8]) -> J {
    let mut p = P { b, i: 0 };
    let v = p.value();
    p.ws();
    if p.i != b.len() {
        fail("JSON: trailing bytes");
    }
    v
}
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        if self.i >= self.b.len() {
            fail("JSON: ends early")
        }
        self.b[self.i]
    }
    fn expect(&mut self, c: u8) {
        if self.peek() != c {
            fail("JSON: unexpected character");
        }
        self.i += 1;
    }
    fn lit(&mut self, s: &str, v: J) -> J {
        for c in s.bytes() {
            self.expect(c);
        }
        v
    }
    fn value(&mut self) -> J {
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return J::Obj(v);
                }
                loop {
                    self.ws();
                    let k = self.string();
                    self.ws();
                    self.expect(b':');
                    let x = self.value();
                    v.push((k, x));
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                        continue;
                    }
                    self.expect(b'}');
                    return J::Obj(v);
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return J::Arr(v);
                }
                loop {
                    v.push(self.value());
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                        continue;
                    }
                    self.expect(b']');
                    return J::Arr(v);
                }
            }
            b'"' => J::Str(self.string()),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'n' => self.lit("null", J::Null),
            _ => {
                let s = self.i;
                if self.b[self.i] == b'-' {
                    self.i += 1;
                }
                let t = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'0'..=b'9' | b'.' | b'e' | b'E' | b'+' | b'-' | b'@' | b'T' | b'F') {
                    self.i += 1;
                }
                if self.i == t {
                    fail("JSON: unexpected character");
                }
                let d = &self.b[t..self.i];
                if d[0] == b'@' {
                    if d.len() != 6 {
                        eprintln!("{}", String::from_utf8_lossy(self.b));
                        fail("JSON: bad number");
                    }
                } else {
                    // -? (0 | [1-9][0-9]*) (. [0-9]+)? ([eE] [+-]? [0-9]+)?
                    let mut k = 0;
                    let dig = |k: &mut usize| {
                        let s = *k;
                        while *k < d.len() && d[*k].is_ascii_digit() {
                            *k += 1;
                        }
                        *k > s
                    };
                    let mut ok = dig(&mut k);
                    ok &= k == 1 || d[0] != b'0';
                    if k < d.len() && d[k] == b'.' {
                        k += 1;
                        ok &= dig(&mut k);
                    }
                    if k < d.len() && (d[k] == b'e' || d[k] == b'E') {
                        k += 1;
                        if k < d.len() && (d[k] == b'+' || d[k] == b'-') {
                            k += 1;
                        }
                        ok &= dig(&mut k);
                    }
                    if !ok || k != d.len() {
                        eprintln!("{}", String::from_utf8_lossy(self.b));
                        fail("JSON: bad number");
                    }
                }
                J::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap())
            }
        }
    }
    fn hex4(&mut self) -> u32 {
        let mut v = 0;
        for _ in 0..4 {
            let c = self.peek();
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => fail("JSON: bad \\u escape"),
            };
            v = v * 16 + d as u32;
            self.i += 1;
        }
        v
    }
    fn string(&mut self) -> String {
        self.expect(b'"');
        let mut out = vec![];
        loop {
            let c = self.peek();
            self.i += 1;
            if c == b'"' {
                break;
            }
            if c < 0x20 {
                fail("JSON: raw control character in a string");
            }
            if c != b'\\' {
                out.push(c);
                continue;
            }
            let e = self.peek();
            self.i += 1;
            let ch = match e {
                b'"' => '"',
                b'\\' => '\\',
                b'/' => '/',
                b'b' => '\u{8}',
                b'f' => '\u{c}',
                b'n' => '\n',
                b'r' => '\r',
                b't' => '\t',
                b'u' => {
                    let mut u = self.hex4();
                    if (0xd800..0xdc00).contains(&u) {
                        self.expect(b'\\');
                        self.expect(b'u');
                        let l = self.hex4();
                        if !(0xdc00..0xe000).contains(&l) {
                            fail("JSON: bad surrogate");
                        }
                        u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                    }
                    match char::from_u32(u) {
                        Some(c) => c,
                        None => fail("JSON: bad code point"),
                    }
                }
                _ => fail("JSON: bad escape"),
            };
            let mut t = [0; 4];
            out.extend_from_slice(ch.encode_utf8(&mut t).as_bytes());
        }
        match String::from_utf8(out) {
            Ok(s) => s,
            Err(_) => fail("JSON: string is not UTF-8"),
        }
    }
}

// ---- CSV (RFC 4180) ----
pub fn csv(b: &[u8]) -> Vec<Vec<String>> {
    let mut rows = vec![];
    let mut row: Vec<String> = vec![];
    let mut i = 0;
    let utf = |v: Vec<u8>| match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => fail("CSV: not UTF-8"),
    };
    while i < b.len() {
        let mut f = vec![];
        if b[i] == b'"' {
            i += 1;
            loop {
                if i >= b.len() {
                    fail("CSV: unterminated quote");
                }
                if b[i] == b'"' {
                    if i + 1 < b.len() && b[i + 1] == b'"' {
                        f.push(b'"');
                        i += 2;
                        continue;
                    }
                    i += 1;
                    break;
                }
                f.push(b[i]);
                i += 1;
            }
        } else {
            while i < b.len() && b[i] != b',' && b[i] != b'\n' && b[i] != b'\r' {
                if b[i] == b'"' {
                    fail("CSV: quote inside an unquoted field");
                }
                f.push(b[i]);
                i += 1;
            }
        }
        row.push(utf(f));
        if i >= b.len() {
            fail("CSV: last record not terminated");
        }
        match b[i] {
            b',' => {
                i += 1;
                if i >= b.len() {
                    fail("CSV: last record not terminated");
                }
                // an empty last field
                if b[i] == b'\n' || b[i] == b'\r' {
                    row.push(String::new());
                    if b[i] == b'\r' {
                        i += 1;
                    }
                    i += 1;
                    rows.push(std::mem::take(&mut row));
                }
            }
            b'\n' => {
                i += 1;
                rows.push(std::mem::take(&mut row));
            }
            b'\r' => {
                if i + 1 >= b.len() || b[i + 1] != b'\n' {
                    fail("CSV: bare carriage return");
                }
                i += 2;
                rows.push(std::mem::take(&mut row));
            }
            _ => fail("CSV: text after a closing quote"),
        }
    }
    if !row.is_empty() {
        fail("CSV: last record not terminated");
    }
    rows
}
pub struct Csv {
    pub header: Vec<String>,
    pub rows: Vec<Vec<String>>,
}
impl Csv {
    pub fn col(&self, r: usize, name: &str) -> &str {
        match self.header.iter().position(|h| h == name) {
            Some(c) => &self.rows[r][c],
            None => fail("CSV: missing column"),
        }
    }
}
/// Decoded records; the header row is there only when there is at least one record.
pub fn csv_table(b: &[u8]) -> Csv {
    let mut rows = csv(b);
    if rows.is_empty() {
        return Csv { header: vec![], rows };
    }
    let header = rows.remove(0);
    for r in &rows {
        if r.len() != header.len() {
            fail("CSV: record with a different number of fields");
        }
    }
    Csv { header, rows }
}

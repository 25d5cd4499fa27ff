//! C01-C03 (and C25's parsing half): modules of symbolic shape and content against an independent account of
//! what they hold.
use crate::sym::*;
use crate::util::*;
use twiggy_ir::*;

pub fn leb(v: u64, pad: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut n = v;
    loop {
        let b = (n & 127) as u8;
        n >>= 7;
        if n == 0 {
            o.push(b);
            break;
        }
        o.push(b | 128);
    }
    for _ in 0..pad {
        *o.last_mut().unwrap() |= 128;
        o.push(0);
    }
    o
}
pub fn string(s: &str) -> Vec<u8> {
    let mut o = leb(s.len() as u64, 0);
    o.extend(s.as_bytes());
    o
}

/// What an item must look like, by name (names are unique in these modules).
struct Ex {
    name: String,
    size: usize,
    root: bool,
}
#[derive(Default)]
struct Mb {
    out: Vec<u8>,
    ex: Vec<Ex>,
    edges: Vec<(String, String)>,
    group: u64,
    deep: bool,
    pads: Vec<(usize, usize)>,
    sites: usize,
}
impl Mb {
    /// Is this part of the module one that varies in this run?
    fn on(&self, g: u64) -> bool {
        self.group & (1 << g) != 0
    }
    fn pick(&self, g: u64, tag: &str, n: usize, default: usize) -> usize {
        if self.on(g) {
            choose(tag, n)
        } else {
            default
        }
    }
    /// By how many bytes the next length or count is longer than needed.
    fn pad(&mut self) -> usize {
        if !self.on(9) {
            return 0;
        }
        if self.deep {
            return choose("padded", 2);
        }
        self.sites += 1;
        self.pads.iter().filter(|p| p.0 == self.sites).map(|p| p.1).sum()
    }
    fn item(&mut self, name: &str, size: usize, root: bool) {
        self.ex.push(Ex { name: name.to_string(), size, root });
    }
    fn edge(&mut self, a: &str, b: &str) {
        if !self.edges.iter().any(|(x, y)| x == a && y == b) {
            self.edges.push((a.to_string(), b.to_string()));
        }
    }
    /// The bytes of a section; the number of bytes it takes in all.
    fn section(&mut self, id: u8, body: &[u8]) -> usize {
        let pad = self.pad();
        let n = self.out.len();
        self.out.push(id);
        self.out.extend(leb(body.len() as u64, pad));
        self.out.extend(body);
        self.out.len() - n
    }
    /// A section of entries, each an item of its own; what is left is the section's item.
    fn entries(&mut self, id: u8, header: &str, roots: bool, l: &[(String, Vec<u8>)]) {
        let pad = self.pad();
        let mut b = leb(l.len() as u64, pad);
        let mut sum = 0;
        for (n, e) in l {
            b.extend(e);
            sum += e.len();
            self.item(n, e.len(), roots);
        }
        let t = self.section(id, &b);
        self.item(header, t - sum, true);
    }
    fn custom(&mut self, name: &str, data: &[u8]) {
        let mut b = string(name);
        b.extend(data);
        let t = self.section(0, &b);
        self.item(&format!("custom section '{}'", name), data.len(), false);
        self.item(&format!("custom section '{}' headers", name), t - data.len(), true);
    }
}
fn limits() -> Vec<u8> {
    if flag("max") {
        vec![1, u8_in("min", 0, 0x7f), u8_in("max", 0, 0x7f)]
    } else {
        vec![0, u8_in("min", 0, 0x7f)]
    }
}
const VT: [(u8, &str); 7] = [(0x7f, "i32"), (0x7e, "i64"), (0x7d, "f32"), (0x7c, "f64"), (0x7b, "v128"), (0x70, "funcref"), (0x6f, "externref")];
const PLAIN: usize = 7; // (of all opcodes without immediates used below)

/// A constant expression.
fn init(k: usize, nglobals: usize, nfuncs: usize) -> Vec<u8> {
    let mut o = match k {
        0 => vec![0x41, u8_in("const", 0, 0x7f)],
        1 => vec![0x42, u8_in("const", 0x80, 0xff), u8_in("const", 0, 0x7f)],
        2 => vec![0x43, u8v("f"), u8v("f"), u8v("f"), u8v("f")],
        3 => vec![0x44, u8v("f"), u8v("f"), u8v("f"), u8v("f"), u8v("f"), u8v("f"), u8v("f"), 0x0b],
        4 if nglobals > 0 => vec![0x23, u8_in("global", 0, nglobals as u8 - 1)],
        5 if nfuncs > 0 => vec![0xd2, u8_in("func", 0, nfuncs as u8 - 1)],
        _ => vec![0xd0, 0x70],
    };
    o.push(0x0b);
    o
}

fn module(group: u64) -> Mb {
    let mut m = Mb { group, deep: param("deep", 0) == 1, ..Default::default() };
    if m.on(9) && !m.deep {
        for _ in 0..param("pads", 1) {
            let at = choose("padded", 32);
            m.pads.push((at, choose("by", 2) + 1));
        }
    }
    m.out.extend(b"\0asm\x01\0\0\0");
    m.item("wasm magic bytes", 8, true);
    let mid = m.pick(6, "customs", 3, 0);
    if mid == 1 {
        m.custom("front", &[u8v("custom"), u8v("custom")]);
    }

    // types
    let nt = m.pick(0, "types", 3, 1) + 1;
    let mut l = vec![];
    let mut tnames = vec![];
    for i in 0..nt {
        let (np, nr) = if i == 0 { (m.pick(0, "params", 3, 0), m.pick(0, "results", 3, 1)) } else { (i % 2, 0) };
        let mut b = vec![0x60];
        let mut n = format!("type[{}]: (", i);
        b.push(np as u8);
        for k in 0..np {
            let t = if i == 0 { VT[choose("valtype", 7)] } else { VT[1] };
            b.push(t.0);
            if k > 0 {
                n += ", ";
            }
            n += t.1;
        }
        n += ") -> ";
        b.push(nr as u8);
        if nr == 0 {
            n += "nil";
        }
        if nr > 1 {
            n += "(";
        }
        for k in 0..nr {
            let t = if k == 0 && m.on(0) { VT[choose("valtype", 7)] } else { VT[3] };
            b.push(t.0);
            if k > 0 {
                n += ", ";
            }
            n += t.1;
        }
        if nr > 1 {
            n += ")";
        }
        tnames.push(n.clone());
        l.push((n, b));
    }
    m.entries(1, "type section headers", false, &l);

    // imports
    let (mut funcs, mut tables, mut mems, mut globals): (Vec<String>, Vec<String>, Vec<String>, Vec<String>) = (vec![], vec![], vec![], vec![]);
    let ni = if m.on(12) { 2 } else { m.pick(1, "imports", if m.deep { 4 } else { 3 }, 1) };
    let mut l = vec![];
    for i in 0..ni {
        let field = ["a", "bb", ""][i % 3];
        let n = format!("import m{}::{}", i, field);
        let mut b = string(&format!("m{}", i));
        b.extend(string(field));
        let kind = if m.on(1) || m.on(12) { choose("import kind", 5) } else { 0 };
        match kind {
            0 => {
                b.extend([0, if m.on(1) { u8_in("type", 0, nt as u8 - 1) } else { 0 }]);
                funcs.push(n.clone());
            }
            1 => {
                b.extend([1, 0x70]);
                b.extend(limits());
                tables.push(n.clone());
            }
            2 => {
                b.push(2);
                b.extend(limits());
                mems.push(n.clone());
            }
            3 => {
                b.extend([3, VT[4].0 + u8_in("valtype", 0, 4), u8_in("mutable", 0, 1)]);
                globals.push(n.clone());
            }
            _ => b.extend([4, 0, u8_in("type", 0, nt as u8 - 1)]),
        }
        l.push((n, b));
    }
    if ni > 0 || m.on(9) {
        m.entries(2, "import section headers", false, &l);
    }
    let nif = funcs.len();
    if mid == 2 {
        m.custom("m\u{e9}d", &[u8v("custom")]);
    }

    // what the name section says
    let nf = if m.on(2) { choose("functions", if m.deep { 4 } else { 3 }) } else { 2 };
    let names = m.pick(5, "names", 3, 1); // 0 none, 1 at the end, 2 before the code section
    let mut fnames: Vec<Option<String>> = vec![];
    for i in 0..nif + nf + 1 {
        let y = if names == 0 {
            false
        } else if m.on(5) {
            flag("named")
        } else {
            i % 2 == 1
        };
        fnames.push(if y { Some(format!("fn{}", i)) } else { None });
    }
    let nd = m.pick(4, "datas", 3, 1);
    let mut dnames: Vec<Option<String>> = vec![];
    for i in 0..nd + 1 {
        dnames.push(if names > 0 && m.on(5) && flag("data named") { Some(format!("dn{}", i)) } else { None });
    }
    for i in 0..nf {
        funcs.push(fnames[nif + i].clone().unwrap_or(format!("code[{}]", i)));
    }

    // function section: its bytes belong to the function items
    let mut ftype: Vec<(usize, Vec<u8>)> = vec![];
    for _ in 0..nf {
        let vary = m.on(2) && (m.deep || ftype.is_empty());
        let t = if vary { choose("type", nt) } else { nt - 1 };
        let pad = if vary { choose("padded type", 2) } else { 0 };
        ftype.push((t, leb(t as u64, pad)));
    }
    let pad = m.pad();
    let mut b = leb(nf as u64, pad);
    for (_, e) in &ftype {
        b.extend(e);
    }
    let fsec = m.section(3, &b);

    // tables, memories, globals
    let mut l = vec![];
    for i in 0..m.pick(3, "tables", 3, if m.on(11) { 2 } else { 1 }) {
        let mut b = vec![0x70 - m.pick(3, "externref", 2, 0) as u8];
        if m.on(3) {
            b.extend(limits());
        } else {
            b.extend([0, 1]);
        }
        let n = format!("table[{}]", i);
        tables.push(n.clone());
        l.push((n, b));
    }
    if !l.is_empty() {
        m.entries(4, "table section headers", true, &l);
    }
    let mut l = vec![];
    for i in 0..m.pick(7, "memories", 3, 1) {
        let n = format!("memory[{}]", i);
        mems.push(n.clone());
        l.push((n, if m.on(7) { limits() } else { vec![0, 1] }));
    }
    if !l.is_empty() {
        m.entries(5, "memory section headers", false, &l);
    }
    let mut l = vec![];
    for i in 0..m.pick(7, "globals", 3, 1) {
        let mut b = vec![VT[4].0 + if m.on(7) { u8_in("valtype", 0, 4) } else { 3 }, if m.on(7) { u8_in("mutable", 0, 1) } else { 1 }];
        b.extend(init(if m.on(7) { choose("init", 7) } else { 0 }, globals.len(), funcs.len()));
        let n = format!("global[{}]", i);
        globals.push(n.clone());
        l.push((n, b));
    }
    if !l.is_empty() {
        m.entries(6, "global section headers", false, &l);
    }

    // exports and the start function
    let mut l = vec![];
    let ne = m.pick(8, "exports", 3, 1);
    for i in 0..ne {
        let nm = ["x", "y z"][i % 2];
        let n = format!("export \"{}\"", nm);
        let mut b = string(nm);
        let k = if m.on(8) || m.on(12) { choose("export kind", 5) } else { 0 };
        let none = vec![];
        let space = match k {
            0 => &funcs,
            1 => &tables,
            2 => &mems,
            3 => &globals,
            _ => &none,
        };
        b.push(k as u8);
        if k == 4 {
            // a tag
            b.push(0);
        } else {
            assume(!space.is_empty());
            let x = choose("exported", space.len());
            b.extend(leb(x as u64, m.pick(8, "padded index", 2, 0)));
            let t = space[x].clone();
            m.edge(&n, &t);
        }
        l.push((n, b));
    }
    if ne > 0 {
        m.entries(7, "export section headers", true, &l);
    }
    if !funcs.is_empty() && m.pick(8, "start", 2, 0) == 1 {
        let x = choose("start", funcs.len());
        let b = leb(x as u64, choose("padded index", 2));
        let t = m.section(8, &b);
        m.item("start section headers", t, true);
        let f = funcs[x].clone();
        m.edge("start section headers", &f);
    }

    // elements
    let nel = m.pick(11, "elements", 3, 1);
    let mut l = vec![];
    for i in 0..nel {
        let n = format!("elem[{}]", i);
        let kind = if m.on(11) && i == 0 { choose("element kind", 8) } else if m.on(12) { 2 } else { 0 };
        let mut b = vec![kind as u8];
        if kind & 1 == 0 {
            let mut t = 0;
            if kind & 2 != 0 {
                assume(!tables.is_empty());
                t = choose("table", tables.len());
                b.extend(leb(t as u64, 0));
            }
            assume(!tables.is_empty());
            b.extend([0x41, u8_in("const", 0, 0x3f), 0x0b]);
            let t = tables[t].clone();
            m.edge(&t, &n);
        }
        if kind & 3 != 0 {
            b.push(if kind & 4 != 0 { 0x70 } else { 0 });
        }
        let k = if m.on(11) && i == 0 { choose("element functions", if m.deep { 4 } else { 3 }) } else { 1 };
        b.push(k as u8);
        for _ in 0..k {
            if kind & 4 != 0 && flag("null") {
                b.extend([0xd0, 0x70, 0x0b]);
                continue;
            }
            assume(!funcs.is_empty());
            let f = if m.on(11) { choose("element function", funcs.len()) } else { 0 };
            if kind & 4 != 0 {
                b.extend([0xd2, f as u8, 0x0b]);
            } else {
                b.extend(leb(f as u64, m.pick(11, "padded index", 2, 0)));
            }
            let f = funcs[f].clone();
            m.edge(&n, &f);
        }
        l.push((n, b));
    }
    if nel > 0 {
        m.entries(9, "element section headers", false, &l);
    }
    if m.pick(4, "data count", 2, 0) == 1 {
        let t = m.section(12, &[nd as u8]);
        m.item("data count section headers", t, true);
    }
    if names == 2 {
        name_section(&mut m, &fnames, &dnames);
    }

    // code
    let pad = m.pad();
    let mut b = leb(nf as u64, pad);
    let mut sum = 0;
    for i in 0..nf {
        let n = funcs[nif + i].clone();
        let mut c = vec![];
        if (m.on(2) || m.on(10)) && i == 0 && flag("locals") {
            c.extend([1, u8_in("locals", 0, 0x7f), VT[4].0 + u8_in("valtype", 0, 4)]);
        } else {
            c.push(0);
        }
        let nops = if m.on(2) && i == 0 { choose("operators", 3) } else if m.on(1) { 2 } else { 1 };
        for k in 0..nops {
            let op = if m.on(2) && i == 0 { choose("operator", 8) } else { k };
            match op {
                0 => {
                    let f = if m.on(1) || m.on(2) { choose("call", funcs.len()) } else { 0 };
                    c.push(0x10);
                    c.extend(leb(f as u64, m.pick(2, "padded index", 2, 0)));
                    let t = funcs[f].clone();
                    m.edge(&n, &t);
                }
                1 | 2 => {
                    if !globals.is_empty() {
                        let f = if m.on(1) || m.on(2) { choose("global", globals.len()) } else { 0 };
                        c.push(0x22 + op as u8);
                        c.extend(leb(f as u64, 0));
                        let t = globals[f].clone();
                        m.edge(&n, &t);
                    }
                }
                3 => c.extend([0x11, u8_in("type", 0, nt as u8 - 1), 0]),
                4 => c.extend([0x41, u8_in("const", 0, 0x7f), 0x1a]),
                5 => c.extend([0x44, u8v("f"), 0x10, 0x10, 0x10, u8v("f"), 0x23, 0, u8v("f"), 0x1a]),
                6 => c.extend([0x02, 0x40, 0x0c, 0, 0x0b]),
                _ => c.extend([0x36, u8_in("align", 0, 2), u8_in("offset", 0, 0x7f)]),
            }
        }
        // sizes on both sides of a second length byte
        let fill = if m.on(10) && i == 0 { choose("filler", 4) } else { 0 };
        if fill > 0 {
            let want = 125 + fill;
            while c.len() + 1 < want {
                c.push(1);
            }
        }
        c.push(0x0b);
        let mut e = leb(c.len() as u64, if m.on(10) && i == 1 { choose("padded body", 3) } else { 0 });
        e.extend(&c);
        m.item(&n, e.len() + ftype[i].1.len(), false);
        sum += e.len() + ftype[i].1.len();
        let t = tnames[ftype[i].0].clone();
        m.edge(&n, &t);
        b.extend(&e);
    }
    let csec = m.section(10, &b);
    m.item("code section headers", csec + fsec - sum, true);

    // data
    let mut l = vec![];
    for i in 0..nd {
        let n = match &dnames[i] {
            Some(n) => format!("data segment \"{}\"", n),
            None => format!("data[{}]", i),
        };
        let mut b = vec![];
        match m.pick(4, "data kind", 3, 0) {
            0 => {
                b.push(0);
                b.extend(init(if m.on(4) { choose("init", 5) } else { 0 }, globals.len(), 0));
            }
            1 => b.push(1),
            _ => {
                b.extend([2, 0]);
                b.extend(init(0, 0, 0));
            }
        }
        let k = if m.on(4) { choose("data bytes", 3) } else { 1 };
        b.push(k as u8);
        for _ in 0..k {
            b.push(u8v("data"));
        }
        l.push((n, b));
    }
    if nd > 0 || m.on(4) {
        m.entries(11, "data section headers", false, &l);
    }
    if m.on(6) {
        let k = choose("custom bytes", 3);
        m.custom("", &[7u8, 8][..k.min(2)]);
    }
    if names == 1 {
        name_section(&mut m, &fnames, &dnames);
    }
    if m.on(6) && flag("custom at the end") {
        m.custom("end'", &[]);
    }
    let _ = PLAIN;
    m
}

fn name_section(m: &mut Mb, fnames: &[Option<String>], dnames: &[Option<String>]) {
    let mut b = string("name");
    let head = b.len();
    let mut sub = |m: &mut Mb, id: u8, title: &str, c: Vec<u8>| {
        let mut s = vec![id];
        s.extend(leb(c.len() as u64, m.pick(5, "padded subsection", 2, 0)));
        s.extend(&c);
        m.item(&format!("\"{}\" subsection", title), s.len(), true);
        b.extend(&s);
    };
    let map = |l: &[Option<String>]| {
        let mut c = leb(l.iter().filter(|n| n.is_some()).count() as u64, 0);
        for (i, n) in l.iter().enumerate() {
            if let Some(n) = n {
                c.extend(leb(i as u64, 0));
                c.extend(string(n));
            }
        }
        c
    };
    if m.on(6) && flag("module name") {
        sub(m, 0, "module name", string("mod"));
    }
    if fnames.iter().any(|n| n.is_some()) || m.on(5) {
        sub(m, 1, "function names", map(fnames));
    }
    if m.on(6) {
        match choose("other names", 10) {
            0 => {}
            1 => sub(m, 2, "local names", vec![1, u8_in("function", 0, 0x7f), 1, u8_in("local", 0, 0x7f), 1, b'l']),
            2 => sub(m, 3, "label names", vec![1, 0, 1, 0, 1, b'l']),
            3 => sub(m, 4, "type names", vec![1, u8_in("index", 0, 0x7f), 1, b't']),
            4 => sub(m, 5, "table names", vec![1, 0, 1, b't']),
            5 => sub(m, 6, "memory names", vec![1, 0, 1, b't']),
            6 => sub(m, 7, "global names", vec![1, 0, 1, b't']),
            7 => sub(m, 8, "element names", vec![1, 0, 1, b't']),
            8 => sub(m, u8_in("subsection", 10, 0x7f), "unknown name", vec![u8v("custom"), u8v("custom")]),
            _ => sub(m, u8_in("subsection", 10, 0x7f), "unknown name", vec![]),
        }
    }
    if dnames.iter().any(|n| n.is_some()) {
        sub(m, 9, "data names", map(dnames));
    }
    let n = b.len();
    let t = m.section(0, &b);
    m.item("custom section 'name' headers", t - (n - head), true);
}

pub fn parse(b: &[u8]) -> Items {
    match twiggy_parser::parse(b) {
        Ok(i) => i,
        Err(_) => fail("a well-formed module is rejected"),
    }
}

/// prop 1: sizes; 2: names (and which items there are); 3: edges and roots; 11: ids; 25: parsing twice.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_wasm() {
    let prop = param("prop", 0);
    let m = module(param("group", 0));
    let it = parse(&m.out);
    let n = it.iter().filter(|x| x.id() != it.meta_root()).count();
    let find = |name: &str| -> &Item {
        let mut l = it.iter().filter(|x| x.id() != it.meta_root() && x.name() == name);
        let r = match l.next() {
            Some(x) => x,
            None => {
                if !sym_engine() {
                    println!("NO ITEM {:?}", name);
                }
                fail("an item is missing or misnamed")
            }
        };
        if l.next().is_some() {
            fail("two items for one thing");
        }
        r
    };
    check(it.size() as usize == m.out.len(), "the total size is that of the file");
    if prop == 1 || prop == 0 {
        let mut sum = 0usize;
        for x in it.iter() {
            sum += x.size() as usize;
        }
        check(sum == m.out.len(), "the item sizes add up to the size of the file");
    }
    if prop == 2 || prop == 0 {
        check(n == m.ex.len(), "the items are the module's parts");
    }
    for e in &m.ex {
        let x = find(&e.name);
        if (prop == 1 || prop == 0) && x.size() as usize != e.size {
            if !sym_engine() {
                println!("SIZE of {:?}: {} want {}", e.name, x.size(), e.size);
            }
            fail("an item's size is that of its own encoding");
        }
        if prop == 3 || prop == 0 {
            let root = it.neighbors(it.meta_root()).any(|i| i == x.id());
            if root != e.root {
                fail("roots are the exports, tables, section headers and name subsections");
            }
            let nb: Vec<Id> = it.neighbors(x.id()).collect();
            let mut k = 0;
            for (a, b) in &m.edges {
                if *a == e.name {
                    k += 1;
                    let t = find(b).id();
                    if !nb.contains(&t) {
                        if !sym_engine() {
                            println!("NO EDGE {:?} {:?}", a, b);
                        }
                        fail("an edge is missing");
                    }
                }
            }
            check(k == nb.len(), "an edge the module has no reference for");
        }
    }
    if prop == 11 || prop == 0 {
        let v: Vec<Id> = it.iter().map(|x| x.id()).collect();
        for w in v.windows(2) {
            check(w[0] < w[1] && w[0].serializable() < w[1].serializable(), "ids are unique and ordered");
        }
        for i in &v {
            check(it[*i].id() == *i, "lookup by id");
            for j in it.neighbors(*i) {
                check(v.contains(&j), "an edge leads to an item");
            }
        }
    }
    if prop == 25 || prop == 0 {
        let u = parse(&m.out);
        check(u.iter().count() == it.iter().count(), "parsing again gives the same number of items");
        for (a, b) in it.iter().zip(u.iter()) {
            check(a.id() == b.id() && a.size() == b.size() && a.name() == b.name() && a.kind() == b.kind(), "parsing again gives the same items");
            check(it.neighbors(a.id()).eq(u.neighbors(b.id())), "parsing again gives the same edges");
        }
    }
    let _ = ROOT;
    reach("end");
}

/// C02: names of arbitrary characters.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c02_chars() {
    let n = param("len", 2) as usize;
    let which = choose("which", 7);
    let mut l: Vec<Vec<u8>> = vec![];
    for i in 0..7 {
        let mut s = vec![];
        let mut k = 0;
        while i == which && k < n {
            if flag("two-byte character") {
                s.push(u8_in("char", 0xc2, 0xdf));
                s.push(u8_in("char", 0x80, 0xbf));
            } else {
                s.push(u8_in("char", 0, 0x7f));
            }
            k += 1;
        }
        if i != which {
            s = vec![b'a', b'0' + i as u8];
        }
        l.push(s);
    }
    let st = |s: &[u8]| {
        let mut o = leb(s.len() as u64, 0);
        o.extend(s);
        o
    };
    let mut b = b"\0asm\x01\0\0\0".to_vec();
    let mut s = |id: u8, body: &[u8]| {
        b.push(id);
        b.extend(leb(body.len() as u64, 0));
        b.extend(body);
    };
    s(1, &[1, 0x60, 0, 0]);
    let mut i = vec![1];
    i.extend(st(&l[0]));
    i.extend(st(&l[1]));
    i.extend([0, 0]);
    s(2, &i);
    s(3, &[1, 0]);
    let mut e = vec![1];
    e.extend(st(&l[2]));
    e.extend([0, 0]);
    s(7, &e);
    s(10, &[1, 2, 0, 0x0b]);
    s(11, &[1, 1, 1, 9]);
    let mut c = st(&l[3]);
    c.push(5);
    s(0, &c);
    let mut c = string("name");
    let mut f = vec![2, 0];
    f.extend(st(&l[4]));
    f.push(1);
    f.extend(st(&l[5]));
    c.push(1);
    c.extend(leb(f.len() as u64, 0));
    c.extend(f);
    let mut f = vec![1, 0];
    f.extend(st(&l[6]));
    c.push(9);
    c.extend(leb(f.len() as u64, 0));
    c.extend(f);
    s(0, &c);
    let it = parse(&b);
    let v: Vec<&Item> = it.iter().collect();
    let want = |l: &[&[u8]]| l.concat();
    // (in the order of the sections)
    let names: Vec<Vec<u8>> = vec![
        want(&[b"wasm magic bytes"]),
        want(&[b"type[0]: () -> nil"]),
        want(&[b"type section headers"]),
        want(&[b"import ", &l[0], b"::", &l[1]]),
        want(&[b"import section headers"]),
        want(&[b"export \"", &l[2], b"\""]),
        want(&[b"export section headers"]),
        want(&[&l[5]]),
        want(&[b"code section headers"]),
        want(&[b"data segment \"", &l[6], b"\""]),
        want(&[b"data section headers"]),
        want(&[b"custom section '", &l[3], b"'"]),
        want(&[b"custom section '", &l[3], b"' headers"]),
        want(&[b"\"function names\" subsection"]),
        want(&[b"\"data names\" subsection"]),
        want(&[b"custom section 'name' headers"]),
        want(&[b"<meta root>"]),
    ];
    check(v.len() == names.len(), "the items are the module's parts");
    for (x, n) in v.iter().zip(&names) {
        let y = x.name().as_bytes();
        check(y.len() == n.len(), "a name is complete");
        for (p, q) in y.iter().zip(n) {
            check(p == q, "a name is exact");
        }
    }
    reach("end");
}

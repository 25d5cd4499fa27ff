//! C07: object files with DWARF.
use crate::sym::*;
use crate::wasm::leb;
use twiggy_ir::*;
use twiggy_traits::ParseMode;

fn put(o: &mut Vec<u8>, v: u64, n: usize, be: bool) {
    for i in 0..n {
        let k = if be { n - 1 - i } else { i };
        o.push((v >> (8 * k)) as u8);
    }
}

/// An ELF file with these sections.
pub fn elf(sections: &[(&str, Vec<u8>)], bits64: bool, be: bool) -> Vec<u8> {
    let w = if bits64 { 8 } else { 4 };
    let eh = if bits64 { 64 } else { 52 };
    let sh = if bits64 { 64 } else { 40 };
    let mut names = vec![0u8];
    let mut body = vec![];
    let mut heads = vec![(0usize, 0usize, 0usize, 0u64)];
    for (n, d) in sections {
        heads.push((names.len(), eh + body.len(), d.len(), 1));
        names.extend(n.as_bytes());
        names.push(0);
        body.extend(d);
    }
    let at = names.len();
    names.extend(b".shstrtab\0");
    heads.push((at, eh + body.len(), names.len(), 3));
    body.extend(&names);
    while body.len() % 8 != 0 {
        body.push(0);
    }
    let mut o = vec![0x7f, b'E', b'L', b'F', if bits64 { 2 } else { 1 }, if be { 2 } else { 1 }, 1, 0];
    o.extend([0; 8]);
    put(&mut o, 2, 2, be);
    put(&mut o, if bits64 { 62 } else { 3 }, 2, be);
    put(&mut o, 1, 4, be);
    put(&mut o, 0, w, be);
    put(&mut o, 0, w, be);
    put(&mut o, (eh + body.len()) as u64, w, be);
    put(&mut o, 0, 4, be);
    put(&mut o, eh as u64, 2, be);
    put(&mut o, 0, 2, be);
    put(&mut o, 0, 2, be);
    put(&mut o, sh as u64, 2, be);
    put(&mut o, heads.len() as u64, 2, be);
    put(&mut o, heads.len() as u64 - 1, 2, be);
    o.extend(&body);
    for (n, a, l, t) in heads {
        put(&mut o, n as u64, 4, be);
        put(&mut o, t, 4, be);
        put(&mut o, 0, w, be);
        put(&mut o, 0, w, be);
        put(&mut o, a as u64, w, be);
        put(&mut o, l as u64, w, be);
        put(&mut o, 0, 4, be);
        put(&mut o, 0, 4, be);
        put(&mut o, if t == 0 { 0 } else { 1 }, w, be);
        put(&mut o, 0, w, be);
    }
    o
}

/// A description of what the entries of one unit must become.
struct Dw {
    be: bool,
    addr: usize,
    version: u16,
    abbrev: Vec<u8>,
    codes: u64,
    info: Vec<u8>,
    ranges: Vec<u8>,
    lists: u64,
    addrs: Vec<u8>,
    strs: Vec<u8>,
    /// (unit, entry, name, size in bytes if it makes sense)
    expect: Vec<(u32, u32, String, Option<u64>)>,
    /// an error is allowed
    err: bool,
}
impl Dw {
    fn die(&mut self, tag: u64, children: bool, attrs: &[(u64, u64)]) {
        self.codes += 1;
        let c = self.codes;
        self.abbrev.extend(leb(c, 0));
        self.abbrev.extend(leb(tag, 0));
        self.abbrev.push(children as u8);
        for (a, f) in attrs {
            self.abbrev.extend(leb(*a, 0));
            self.abbrev.extend(leb(*f, 0));
        }
        self.abbrev.extend([0, 0]);
        self.info.extend(leb(c, 0));
    }
    fn address(&mut self, n: &str) -> (u64, Vec<u8>) {
        let bits = param("abits", 8 * self.addr as u64);
        let hi = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let v = u64_in(n, 0, hi);
        let mut b = vec![];
        put(&mut b, v, self.addr, self.be);
        (v, b)
    }
}

const SUBPROGRAM: u64 = 0x2e;
const LOW: u64 = 0x11;
const HIGH: u64 = 0x12;
const RANGES: u64 = 0x55;
const NAME: u64 = 0x03;
const LINKAGE: u64 = 0x6e;
const ADDR: u64 = 0x01;
const STRING: u64 = 0x08;
const STRP: u64 = 0x0e;

/// One entry, its location given in the way `loc`, its names in the way `nm`.
fn entry(d: &mut Dw, unit: u32, k: u32, tag: u64, children: bool, loc: usize, nm: usize) {
    let mut at = vec![];
    let mut v: Vec<u8> = vec![];
    let mut size: Option<Option<u64>> = None;
    let t = |s: &str| format!("{} {}.{}", s, unit, k);
    // names before and after the location
    let mut name = format!("Subroutine[{}][{}]", unit, k);
    let label = |c: char| format!("{}{}{}", c, unit, k);
    if nm & 1 != 0 {
        at.push((NAME, STRING));
        name = label('n');
        v.extend(name.as_bytes());
        v.push(0);
    }
    match loc {
        // a declaration
        0 => {}
        1 => {
            let (a, x) = d.address(&t("low"));
            let (b, y) = d.address(&t("high"));
            at.push((LOW, ADDR));
            v.extend(x);
            at.push((HIGH, ADDR));
            v.extend(y);
            size = Some(if b >= a { Some(b - a) } else { None });
        }
        // an offset of each constant form
        2..=7 => {
            let (_, x) = d.address(&t("low"));
            let be = d.be;
            let lowfirst = flag(&t("low first"));
            if lowfirst {
                at.push((LOW, ADDR));
                v.extend(&x);
            }
            let n = [1, 2, 4, 8, 0, 0][loc - 2];
            if n > 0 {
                let o = u64_in(&t("offset"), 0, if n == 8 { u64::MAX } else { (1 << (8 * n)) - 1 });
                at.push((HIGH, [0, 0x0b, 0x05, 0, 0x06, 0, 0, 0, 0x07][n]));
                put(&mut v, o, n, be);
                size = Some(Some(o));
            } else if loc == 6 {
                // udata of three bytes
                let o = u64_in(&t("offset"), 0, (1 << 21) - 1);
                at.push((HIGH, 0x0f));
                v.extend([(o & 127) as u8 | 128, (o >> 7 & 127) as u8 | 128, (o >> 14) as u8]);
                size = Some(Some(o));
            } else {
                let o = u64_in(&t("offset"), 0, (1 << 14) - 1);
                at.push((HIGH, 0x0d));
                v.extend([(o & 127) as u8 | 128, (o >> 7) as u8]);
                size = Some(if o < 1 << 13 { Some(o) } else { None });
            }
            if !lowfirst {
                at.push((LOW, ADDR));
                v.extend(&x);
            }
        }
        // ranges
        8 | 17 => {
            let n = choose(&t("ranges"), param("rmax", 1) as usize + 1);
            let be = d.be;
            let off = d.ranges.len() as u64;
            if loc == 17 {
                at.push((RANGES, 0x23));
                v.push(d.lists as u8);
                let mut b = vec![];
                put(&mut b, off - 12, 4, be);
                let p = 12 + 4 * d.lists as usize;
                d.ranges[p..p + 4].copy_from_slice(&b);
                d.lists += 1;
            } else {
                at.push((RANGES, 0x17));
                put(&mut v, off, 4, be);
            }
            let mut sum = Some(0u64);
            let max = if d.addr == 8 { u64::MAX } else { u64::from(u32::MAX) };
            let mut cut = false;
            for i in 0..n {
                let (a, x) = d.address(&t(&format!("begin {}", i)));
                let (b, y) = d.address(&t(&format!("end {}", i)));
                // (the two largest mark ranges that were removed)
                assume(a < max - 1);
                if d.version >= 5 {
                    d.ranges.push(0x06);
                    d.ranges.extend(x);
                    d.ranges.extend(y);
                } else {
                    // (0, 0) ends a list, a largest begin sets the base
                    if a == 0 && b == 0 {
                        cut = true;
                    }
                    d.ranges.extend(x);
                    d.ranges.extend(y);
                }
                if !cut {
                    sum = match sum {
                        Some(s) if b >= a => s.checked_add(b - a),
                        _ => None,
                    };
                }
            }
            if d.version >= 5 {
                d.ranges.push(0);
            } else {
                let w = d.addr;
                d.ranges.extend(vec![0; 2 * w]);
            }
            size = Some(sum);
        }
        // an address alone
        9 => {
            let (_, x) = d.address(&t("low"));
            at.push((LOW, ADDR));
            v.extend(x);
        }
        10 => {
            let (_, x) = d.address(&t("high"));
            at.push((HIGH, ADDR));
            v.extend(x);
        }
        // forms that make no sense
        11 => {
            at.push((LOW, STRING));
            v.extend(b"a\0");
            at.push((HIGH, 0x0b));
            v.push(u8v(&t("offset")));
            size = Some(None);
        }
        12 => {
            let (_, x) = d.address(&t("low"));
            at.push((LOW, ADDR));
            v.extend(x);
            at.push((HIGH, STRING));
            v.extend(b"a\0");
            size = Some(None);
        }
        13 => {
            at.push((RANGES, STRING));
            v.extend(b"a\0");
            size = Some(None);
        }
        // addresses by index
        15 | 16 => {
            let (a, x) = d.address(&t("low"));
            let k = (d.addrs.len() - 8) / d.addr;
            d.addrs.extend(x);
            at.push((LOW, 0x1b));
            v.push(k as u8);
            if loc == 15 {
                let o = u64_in(&t("offset"), 0, 255);
                at.push((HIGH, 0x0b));
                v.push(o as u8);
                size = Some(Some(o));
            } else {
                let (b, y) = d.address(&t("high"));
                d.addrs.extend(y);
                at.push((HIGH, 0x29));
                v.push(k as u8 + 1);
                size = Some(if b >= a { Some(b - a) } else { None });
            }
        }
        // a range list anywhere
        _ => {
            at.push((RANGES, 0x17));
            let be = d.be;
            let o = u64_in(&t("list"), 0, u64::from(u32::MAX));
            put(&mut v, o, 4, be);
            let inside = o <= d.ranges.len() as u64;
            if tag == SUBPROGRAM {
                d.err = true;
            }
            let _ = inside;
            size = Some(None);
        }
    }
    if nm & 2 != 0 {
        at.push((LINKAGE, STRING));
        name = label('l');
        v.extend(name.as_bytes());
        v.push(0);
    }
    if nm & 4 != 0 {
        at.push((0x2007, STRP));
        if nm & 2 == 0 {
            // the attribute older producers write is not one of the two
        }
        let be = d.be;
        put(&mut v, 0, 4, be);
    }
    if nm & 8 != 0 {
        let l = d.strs.len() as u64;
        at.push((if nm & 1 == 0 { NAME } else { LINKAGE }, STRP));
        let be = d.be;
        put(&mut v, l, 4, be);
        if nm & 1 == 0 && nm & 2 != 0 {
            // the linkage name stays
        } else {
            name = label('s');
        }
        d.strs.extend(label('s').as_bytes());
        d.strs.push(0);
    }
    d.die(tag, children, &at);
    d.info.extend(v);
    if tag == SUBPROGRAM {
        if let Some(z) = size {
            d.expect.push((unit, k, name, z));
        }
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c07() {
    let be = param("be", 0) > 0;
    let bits64 = param("bits32", 0) == 0;
    let units = param("units", 1) as u32;
    let n = param("n", 2) as u32;
    let locs = param("locs", 0) as usize;
    let names = param("names", 0) as usize;
    let shapes = param("shapes", 0);
    let version = param("version", 4) as u16;
    let addr = param("addr", 8) as usize;
    let mut d = Dw { be, addr, version, abbrev: vec![], codes: 0, info: vec![], ranges: vec![], lists: 0, addrs: vec![], strs: b"z\0".to_vec(), expect: vec![], err: false };
    if version >= 5 {
        // a header of the range lists
        put(&mut d.ranges, 0, 4, be);
        put(&mut d.ranges, 5, 2, be);
        d.ranges.push(addr as u8);
        d.ranges.push(0);
        put(&mut d.ranges, 4, 4, be);
        d.ranges.extend([0; 16]);
        put(&mut d.addrs, 0, 4, be);
        put(&mut d.addrs, 5, 2, be);
        d.addrs.push(addr as u8);
        d.addrs.push(0);
    }
    for u in 0..units {
        let start = d.info.len();
        put(&mut d.info, 0, 4, be);
        put(&mut d.info, u64::from(version), 2, be);
        if version >= 5 {
            d.info.push(1);
            d.info.push(addr as u8);
            put(&mut d.info, 0, 4, be);
        } else {
            put(&mut d.info, 0, 4, be);
            d.info.push(addr as u8);
        }
        // the root may set the base that the ranges are relative to; here it is zero or absent
        let mut at = vec![];
        if version >= 5 {
            at.extend([(0x73, 0x17), (0x74, 0x17)]);
        }
        let based = flag(&format!("base {}", u));
        if based {
            at.push((LOW, ADDR));
        }
        d.die(0x11, true, &at);
        if version >= 5 {
            put(&mut d.info, 8, 4, be);
            put(&mut d.info, 12, 4, be);
        }
        if based {
            let a = d.addr;
            put(&mut d.info, 0, a, be);
        }
        let mut k = 0;
        let mut open = 0;
        for i in 0..n {
            let t = |s: &str| format!("{} {}.{}", s, u, i);
            let shape = if shapes > 0 { choose(&t("shape"), 4) } else { 0 };
            let (tag, children) = [(SUBPROGRAM, false), (SUBPROGRAM, true), (0x39, true), (0x34, false)][shape];
            let loc = if locs > 0 { choose(&t("location"), locs) } else { 1 };
            let nm = if names > 0 { [1, 0, 2, 3, 8, 9, 5, 10][choose(&t("names"), names)] } else { 1 };
            entry(&mut d, u, k, tag, children, if tag == 0x39 { 0 } else { loc }, nm);
            k += 1;
            if children {
                if flag(&t("nested")) {
                    open += 1;
                } else {
                    d.info.push(0);
                }
            } else if open > 0 && flag(&t("closed")) {
                open -= 1;
                d.info.push(0);
            }
        }
        for _ in 0..open {
            d.info.push(0);
        }
        d.info.push(0);
        let len = (d.info.len() - start - 4) as u64;
        let mut b = vec![];
        put(&mut b, len, 4, be);
        d.info[start..start + 4].copy_from_slice(&b);
    }
    d.abbrev.push(0);
    let rn = if version >= 5 { ".debug_rnglists" } else { ".debug_ranges" };
    if version >= 5 {
        let mut b = vec![];
        put(&mut b, d.ranges.len() as u64 - 4, 4, be);
        d.ranges[..4].copy_from_slice(&b);
        let mut b = vec![];
        put(&mut b, d.addrs.len() as u64 - 4, 4, be);
        d.addrs[..4].copy_from_slice(&b);
    }
    let file = elf(&[(".debug_abbrev", d.abbrev.clone()), (".debug_info", d.info.clone()), (rn, d.ranges.clone()), (".debug_addr", d.addrs.clone()), (".debug_str", d.strs.clone())], bits64, be);
    let total: Option<u64> = d.expect.iter().fold(Some(0u64), |s, e| match (s, e.3) {
        (Some(s), Some(z)) => s.checked_add(z),
        _ => None,
    });
    let fits = total.map_or(false, |t| t <= u64::from(u32::MAX));
    match dwarf(&file) {
        Err(m) => {
            check(!m.is_empty(), "an error says what is wrong");
            check(!fits || d.err, "attributes that make sense are no error");
            reach("error");
        }
        Ok(items) => {
            check(items.size() as usize == file.len(), "the total size is that of the input");
            let mut l: Vec<(Id, &str, u32)> = items.iter().filter(|i| i.id() != items.meta_root()).map(|i| (i.id(), i.name(), i.size())).collect();
            l.sort();
            let mut p = 0;
            for (u, k, name, z) in &d.expect {
                let id = Id::entry(*u as usize, *k as usize);
                let here = p < l.len() && l[p].0 == id;
                match z {
                    Some(z) if *z <= u64::from(u32::MAX) => {
                        check(here, "an entry with code has an item");
                        check(u64::from(l[p].2) == *z, "the item is as large as the entry's code");
                    }
                    _ => {
                        if !here {
                            continue;
                        }
                        check(d.err, "an entry whose addresses make no sense is skipped");
                    }
                }
                check(l[p].1 == name, "the item is named after the entry");
                p += 1;
            }
            check(p == l.len(), "every item is an entry with code");
            reach("items");
        }
    }
    reach("end");
}
fn dwarf(file: &[u8]) -> Result<Items, String> {
    crate::cli::parse_file(b"f.o", file, ParseMode::Dwarf)
}

/// An object file with one function.
pub fn small() -> Vec<u8> {
    let mut d = Dw { be: false, addr: 8, version: 4, abbrev: vec![], codes: 0, info: vec![], ranges: vec![], lists: 0, addrs: vec![], strs: vec![], expect: vec![], err: false };
    put(&mut d.info, 0, 4, false);
    put(&mut d.info, 4, 2, false);
    put(&mut d.info, 0, 4, false);
    d.info.push(8);
    d.die(0x11, true, &[]);
    d.die(SUBPROGRAM, false, &[(NAME, STRING), (LOW, ADDR), (HIGH, 0x0b)]);
    d.info.extend(b"main\0");
    put(&mut d.info, 0x1000, 8, false);
    d.info.push(7);
    d.info.push(0);
    d.info[0] = d.info.len() as u8 - 4;
    d.abbrev.push(0);
    elf(&[(".debug_abbrev", d.abbrev.clone()), (".debug_info", d.info.clone())], true, false)
}

/// A small object file of which `len` bytes anywhere have any value (in its DWARF, with `all` also in its ELF
/// structure), or which ends early: items or an error.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c07_bytes() {
    let mut f = small();
    let n = param("len", 1) as usize;
    let dwarf_end = f.len() - 4 * 64 - 48;
    let (lo, hi) = if param("all", 0) > 0 { (0, f.len()) } else { (64, dwarf_end) };
    if param("cut", 0) > 0 {
        f.truncate(choose("length", f.len() + 1));
    } else {
        let k = lo + choose("position", hi - lo - n + 1);
        for i in 0..n {
            f[k + i] = u8v("byte");
        }
    }
    match dwarf(&f) {
        Ok(i) => {
            check(i.size() as usize == f.len(), "the total size is that of the input");
            reach("items");
        }
        Err(_) => reach("error"),
    }
    reach("end");
}

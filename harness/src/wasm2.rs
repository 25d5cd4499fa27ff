//! C05 (and C01 on whatever parses): arbitrary bytes. C04: loads from constant addresses.
use crate::sym::*;
use crate::wasm::{leb, string};
use twiggy_ir::*;

pub fn section(o: &mut Vec<u8>, id: u8, body: &[u8]) {
    o.push(id);
    o.extend(leb(body.len() as u64, 0));
    o.extend(body);
}
pub const HEAD: &[u8] = b"\0asm\x01\0\0\0";

/// A module with one of everything; where its sections start.
fn full() -> (Vec<u8>, Vec<usize>) {
    let mut o = HEAD.to_vec();
    let mut at = vec![];
    let mut s = |id: u8, body: &[u8]| {
        at.push(o.len());
        section(&mut o, id, body);
    };
    s(1, &[2, 0x60, 0, 1, 0x7f, 0x60, 1, 0x7e, 0]);
    s(2, &[2, 1, b'm', 1, b'f', 0, 1, 1, b'm', 1, b'g', 3, 0x7f, 1]);
    s(3, &[2, 0, 1]);
    s(4, &[1, 0x70, 0, 1]);
    s(5, &[1, 1, 0, 9]);
    s(6, &[1, 0x7f, 0, 0x41, 5, 0x0b]);
    s(7, &[2, 1, b'a', 0, 1, 1, b'b', 3, 0]);
    s(8, &[2]);
    s(9, &[2, 0, 0x41, 0, 0x0b, 1, 1, 5, 0x70, 1, 0xd2, 0, 0x0b]);
    s(12, &[2]);
    s(10, &[2, 7, 0, 0x41, 3, 0x28, 2, 0, 0x0b, 15, 1, 2, 0x7f, 0x10, 0, 0x23, 0, 0x24, 1, 0x11, 1, 0, 0xd2, 0, 0x0b]);
    s(11, &[2, 0, 0x41, 1, 0x0b, 3, b'x', b'y', b'z', 1, 1, b'w']);
    let mut b = string("name");
    b.extend([0, 2, 1, b'q', 1, 7, 2, 0, 1, b'i', 1, 1, b'f', 9, 4, 1, 0, 1, b'd']);
    s(0, &b);
    let mut b = string("c");
    b.push(9);
    s(0, &b);
    at.push(o.len());
    (o, at)
}

/// What every outcome has to satisfy; are there items?
fn judge(b: &[u8]) -> bool {
    let it = match twiggy_parser::parse(b) {
        Ok(i) => i,
        Err(_) => return false,
    };
    check(it.size() as usize == b.len(), "the total size is that of the input");
    let mut sum = 0u64;
    let ids: Vec<Id> = it.iter().map(|x| x.id()).collect();
    for x in it.iter() {
        sum += u64::from(x.size());
        for t in it.neighbors(x.id()) {
            check(ids.contains(&t), "an edge leads to an item");
        }
    }
    check(sum == b.len() as u64, "the item sizes add up to the size of the input");
    for w in ids.windows(2) {
        check(w[0] < w[1], "ids are unique");
    }
    true
}

/// kind 0: arbitrary short inputs; 1: a section of arbitrary id and contents somewhere in a module;
/// 2: an arbitrary function body; 3: arbitrary name section contents; 4: a complete module truncated anywhere;
/// 5: a complete module with `len` bytes replaced anywhere; 6: a complete module without or with a repeated
/// section, or with two of them exchanged; 7: arbitrary contents of the section `sec` of a complete module;
/// 8: any of its numbers at any 32-bit value.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c05() {
    let n = param("len", 4) as usize;
    let kind = param("kind", 0);
    let (f, at) = full();
    let mut b = vec![];
    match kind {
        0 => {
            let k = choose("length", n + 1);
            for i in 0..k {
                b.push(if i < param("fixed", 0) as usize { HEAD[i] } else { u8v("byte") });
            }
        }
        1 => {
            let p = at[choose("position", at.len())];
            b.extend(&f[..p]);
            b.push(u8v("section"));
            let k = choose("payload", n + 1);
            b.push(if param("exact", 0) == 1 { k as u8 } else { u8v("size") });
            for _ in 0..k {
                b.push(u8v("byte"));
            }
            b.extend(&f[p..]);
        }
        2 => {
            b.extend(HEAD);
            section(&mut b, 1, &[1, 0x60, 0, 0]);
            section(&mut b, 2, &[1, 0, 0, 0, 0]);
            section(&mut b, 3, &[1, 0]);
            section(&mut b, 5, &[1, 0, 1]);
            section(&mut b, 6, &[1, 0x7f, 0, 0x41, 5, 0x0b]);
            let mut c = vec![1, n as u8];
            for _ in 0..n {
                c.push(u8v("byte"));
            }
            section(&mut b, 10, &c);
            section(&mut b, 11, &[1, 0, 0x41, 1, 0x0b, 3, b'x', b'y', b'z']);
        }
        3 => {
            b.extend(&f[..at[at.len() - 3]]);
            let mut c = string("name");
            for _ in 0..n {
                c.push(u8v("byte"));
            }
            section(&mut b, 0, &c);
        }
        4 => {
            let k = choose("length", f.len() + 1);
            b.extend(&f[..k]);
            for _ in 0..n {
                b.push(u8v("byte"));
            }
        }
        5 => {
            let k = choose("position", f.len() - n + 1);
            b.extend(&f);
            for i in 0..n {
                b[k + i] = u8v("byte");
            }
        }
        6 => {
            let s = at.len() - 1;
            let x = choose("section", s);
            let y = choose("other", s + 1);
            b.extend(HEAD);
            for i in 0..s {
                let j = if y == s {
                    if i == x {
                        continue;
                    }
                    i
                } else if i == x {
                    y
                } else if i == y && flag("exchanged") {
                    x
                } else {
                    i
                };
                b.extend(&f[at[j]..at[j + 1]]);
            }
        }
        8 => {
            // any number (or other byte) of a module as a five-byte number of any value; lengths follow
            let s = choose("section", at.len() - 1);
            let mut c = f[at[s] + 2..at[s + 1]].to_vec();
            let k = choose("position", c.len());
            let named = f[at[s]] == 0 && c[0] == 4;
            if f[at[s]] == 10 || named {
                let mut p = if named { 5 } else { 1 };
                while p < c.len() {
                    let q = if named { p + 1 } else { p };
                    let l = c[q] as usize;
                    if k > q && k <= q + l {
                        c[q] += 4;
                        break;
                    }
                    p = q + 1 + l;
                }
            }
            let v = match choose("magnitude", 4) {
                0 if param("free", 0) > 0 => u32_in("value", 128, u32::MAX),
                0 => u32::MAX,
                1 => 1 << 31,
                2 => (1 << 31) - 1,
                _ => 100_000,
            };
            let w: Vec<u8> = (0..5).map(|i| (v >> (7 * i)) as u8 & 127 | if i < 4 { 128 } else { 0 }).collect();
            c.splice(k..k + 1, w);
            b.extend(&f[..at[s]]);
            section(&mut b, f[at[s]], &c);
            b.extend(&f[at[s + 1]..]);
        }
        _ => {
            let s = param("sec", 0) as usize;
            b.extend(&f[..at[s]]);
            let mut c = vec![];
            for i in 0..n {
                c.push(if i < param("fixed", 0) as usize { f[at[s] + 2 + i] } else { u8v("byte") });
            }
            section(&mut b, f[at[s]], &c);
            b.extend(&f[at[s + 1]..]);
        }
    }
    if judge(&b) {
        reach("parsed");
    } else {
        reach("rejected");
    }
    reach("end");
}

const LOADS: [u8; 14] = [0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35];

/// A padded five-byte LEB128 of a 32-bit value (signed encodings sign-extend into the last byte).
fn leb5(v: u32, signed: bool) -> [u8; 5] {
    let top = (v >> 28) as u8;
    let last = if signed && top & 8 != 0 { top | 0x70 } else { top };
    [(v & 127) as u8 | 128, (v >> 7 & 127) as u8 | 128, (v >> 14 & 127) as u8 | 128, (v >> 21 & 127) as u8 | 128, last]
}

/// C04. Data segments at symbolic addresses of up to two bytes, a function that loads from a
/// symbolic constant address with a symbolic static offset.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c04() {
    let nd = choose("segments", param("segments", 2) as usize + 1);
    let mut b = HEAD.to_vec();
    section(&mut b, 1, &[1, 0x60, 0, 0]);
    section(&mut b, 3, &[2, 0, 0]);
    section(&mut b, 5, &[1, 0, 1]);
    section(&mut b, 6, &[1, 0x7f, 0, 0x41, 5, 0x0b]);
    let mut ds: Vec<(Option<u64>, u64)> = vec![];
    let mut l = vec![nd as u8];
    for _ in 0..nd {
        let len = choose("length", param("length", 3) as usize) as u64 + param("least", 0);
        match choose("data kind", param("kinds", 3) as usize) {
            0 => {
                let a = u32_in("data address", 0, u32::MAX);
                l.push(0);
                l.push(0x41);
                l.extend(leb5(a, true));
                l.push(0x0b);
                ds.push((Some(u64::from(a)), len));
            }
            1 => {
                l.push(1);
                ds.push((None, len));
            }
            _ => {
                // the address is not known
                l.extend([0, 0x23, 0, 0x0b]);
                ds.push((None, len));
            }
        }
        l.push(len as u8);
        for _ in 0..len {
            l.push(7);
        }
    }
    // active segments do not overlap, and each ends within the address space
    for i in 0..nd {
        if let (Some(a), n) = ds[i] {
            assume(a + n <= 1 << 32);
            for j in 0..i {
                if let (Some(c), m) = ds[j] {
                    assume((a + n <= c) | (c + m <= a));
                }
            }
        }
    }
    let value = u32_in("constant", 0, u32::MAX);
    let off = u32_in("offset", 0, u32::MAX);
    let addr = u64::from(value) + u64::from(off);
    // the function
    let mut f = vec![0];
    let mut loads = true;
    match choose("body", param("bodies", 5) as usize) {
        0 => {
            f.push(0x41);
            f.extend(leb5(value, true));
        }
        1 => {
            // the address is not a constant
            f.extend([0x23, 0]);
            loads = false;
        }
        2 => {
            f.push(0x41);
            f.extend(leb5(value, true));
            f.extend([0x41, 1, 0x6a]);
            loads = false;
        }
        3 => {
            // other constants, other loads around it
            f.extend([0x23, 0, 0x28, 2, 0, 0x1a, 0x42, 3, 0x1a, 0x41]);
            f.extend(leb5(value, true));
        }
        _ => {
            f.extend([0x41, 0, 0x23, 0, 0x28, 2, 0, 0x36, 2, 0, 0x41]);
            f.extend(leb5(value, true));
        }
    }
    let op = LOADS[choose("load", 14)];
    f.extend([op, 0]);
    f.extend(leb5(off, false));
    f.extend([0x1a, 0x0b]);
    let mut c = vec![2, 2, 0, 0x0b];
    c.extend(leb(f.len() as u64, 0));
    c.extend(&f);
    section(&mut b, 10, &c);
    if nd > 0 {
        section(&mut b, 11, &l);
    }
    let it = match twiggy_parser::parse(&b) {
        Ok(i) => i,
        Err(_) => fail("a well-formed module is rejected"),
    };
    let find = |name: &str| it.iter().find(|x| x.name() == name).unwrap().id();
    let body = find("code[1]");
    let ty = find("type[0]: () -> nil");
    let glob = find("global[0]");
    let nb: Vec<Id> = it.neighbors(body).collect();
    let other = it.neighbors(find("code[0]")).count();
    check(other == 1, "a function without loads refers to no data");
    check(nb.contains(&ty), "the function refers to its type");
    // the first segment that starts at or after the address, as the lookup has it (see known_findings.txt)
    let mut next: Option<usize> = None;
    for i in 0..nd {
        if let Some(a) = ds[i].0 {
            if ds[i].1 > 0 && sym_conc((a >= addr) as u64) == 1 {
                next = match next {
                    Some(j) if sym_conc((ds[j].0.unwrap() <= a) as u64) == 1 => Some(j),
                    _ => Some(i),
                };
            }
        }
    }
    let mut k = 0;
    for i in 0..nd {
        let id = find(&format!("data[{}]", i));
        let got = nb.contains(&id);
        if got {
            k += 1;
        }
        let want = match ds[i].0 {
            Some(a) if loads => sym_conc(((a <= addr) & (addr < a + ds[i].1)) as u64) == 1,
            _ => false,
        };
        if got != want {
            let start = loads && ds[i].0.map_or(false, |a| sym_conc((a == addr) as u64) == 1);
            let known = loads && !start && got == (next == Some(i));
            if known && param("known", 0) == 0 {
                // another configuration reports this
                reach("known finding");
                continue;
            }
            if known {
                fail("KNOWN a load inside or before a segment is taken for a load from the next segment");
            }
            if !sym_engine() {
                println!("data[{}] {:?} address {} edge {} want {}", i, ds[i], addr, got, want);
            }
            fail("the edge is to the segment that holds the address");
        }
    }
    check(nb.len() == 1 + k + nb.contains(&glob) as usize, "no other edges");
    reach("end");
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_full() {
    match twiggy_parser::parse(&full().0) {
        Ok(_) => println!("ok"),
        Err(e) => println!("{:?}", e),
    }
}

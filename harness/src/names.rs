//! C12 names of generics, C19-C21 names with arbitrary characters in the three formats, C22 formats agree.
use crate::reports::*;
use crate::reports2::*;
use crate::sym::*;
use crate::util::*;
use twiggy_ir::*;

/// A symbolic string of at most `max` characters: every character of each UTF-8 length class.
pub fn symstr(tag: &str, max: usize, lo: u8) -> String {
    let k = choose("chars", max + 1);
    let mut v: Vec<u8> = vec![];
    for _ in 0..k {
        match choose("char", param("classes", 4) as usize) {
            0 => v.push(u8_in(tag, lo, 0x7f)),
            1 => {
                v.push(u8_in(tag, 0xc2, 0xdf));
                v.push(u8_in(tag, 0x80, 0xbf));
            }
            2 => {
                v.push(u8_in(tag, 0xe1, 0xec));
                v.push(u8_in(tag, 0x80, 0xbf));
                v.push(u8_in(tag, 0x80, 0xbf));
            }
            _ => {
                v.push(u8_in(tag, 0xf1, 0xf3));
                v.push(u8_in(tag, 0x80, 0xbf));
                v.push(u8_in(tag, 0x80, 0xbf));
                v.push(u8_in(tag, 0x80, 0xbf));
            }
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Byte equality as one assertion, without forking at every byte.
pub fn same(a: &str, b: &str, m: &str) {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    check(a.len() == b.len(), m);
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    check(ok, m);
}

pub const TOP: u64 = 0;
pub const DOM: u64 = 1;
pub const PATHS: u64 = 2;
pub const MONOS: u64 = 3;
pub const DIFF: u64 = 4;
pub const GARBAGE: u64 = 5;

/// plain -> s; roots plain and other (nothing is a root for the garbage report).
fn graph(cmd: u64, s: &str, sizes: [u32; 3]) -> Gr {
    if cmd == MONOS {
        // the text before a trailing ::h... component is the generic's name: C12
        let mut ok = true;
        for c in s.bytes() {
            ok &= c != b':';
        }
        assume(ok);
    }
    let mut g = Gr {
        n: 3,
        size: sizes.to_vec(),
        name: vec![s.to_string(), "plain".into(), "other".into()],
        kind: vec![2; 3],
        adj: vec![vec![false; 3]; 3],
        root: vec![false, cmd != GARBAGE, cmd != GARBAGE],
        total: 2_000_000,
    };
    g.adj[1][0] = true;
    if cmd == MONOS {
        for i in 0..3 {
            g.name[i] = format!("f<{}>", g.name[i]);
            g.kind[i] = 0;
        }
    }
    g
}
fn report(cmd: u64, g: &Gr, it: &mut Items) -> Box<dyn Emit> {
    let r = match cmd {
        TOP => twiggy_analyze::top(it, &twiggy_opt::Top::new()),
        DOM => twiggy_analyze::dominators(it, &dominators_opts(&[], None, None, false)),
        PATHS => twiggy_analyze::paths(it, &paths_opts(&[], false, false)),
        MONOS => twiggy_analyze::monos(it, &monos_opts(&["in.wasm"])),
        DIFF => {
            let mut e = g.clone();
            e.size = vec![0; 3];
            let mut old = e.build();
            let r = twiggy_analyze::diff(&mut old, it, &diff_opts(&[]));
            std::mem::forget(old);
            r
        }
        _ => twiggy_analyze::garbage(it, &twiggy_opt::Garbage::new()),
    };
    match r {
        Ok(e) => e,
        Err(_) => fail("the report fails"),
    }
}

// ---------------------------------------------------------------- JSON
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c19() {
    let cmd = param("cmd", 0);
    let s = symstr("byte", param("chars", 2) as usize, 0);
    let g = graph(cmd, &s, [20, 10, 5]);
    let mut it = g.build();
    let e = report(cmd, &g, &mut it);
    let b = render(&e, &it, OutputFormat::Json);
    let j = json(&b);
    fn names<'a>(j: &'a J, out: &mut Vec<&'a str>) {
        match j {
            J::Arr(v) => {
                for x in v {
                    names(x, out);
                }
            }
            J::Obj(v) => {
                for (k, x) in v {
                    if k == "name" || k == "generic" {
                        match x {
                            J::Str(s) => out.push(s),
                            _ => fail("a name is not a string"),
                        }
                    } else {
                        names(x, out);
                    }
                }
            }
            _ => {}
        }
    }
    let mut got = vec![];
    names(&j, &mut got);
    let (s, p, o) = (g.name[0].as_str(), g.name[1].as_str(), g.name[2].as_str());
    let want: Vec<&str> = match cmd {
        TOP => vec![s, p, o],
        DOM => vec!["<meta root>", p, s, o],
        PATHS => vec![s, p, p, o],
        MONOS => vec!["f", s, p, o, "Σ [4 Total Rows]"],
        DIFF => vec![s, p, o, "Σ [3 Total Rows]"],
        _ => vec![s, p, o, "Σ [3 Total Rows]"],
    };
    check(got.len() == want.len(), "number of names in the JSON document");
    for i in 0..want.len() {
        same(got[i], want[i], "JSON name");
    }
    reach("end");
}

// ---------------------------------------------------------------- CSV
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c20() {
    let cmd = param("cmd", 0);
    let s = symstr("byte", param("chars", 2) as usize, 0);
    let g = graph(cmd, &s, [20, 10, 5]);
    let mut it = g.build();
    let e = report(cmd, &g, &mut it);
    let b = render(&e, &it, OutputFormat::Csv);
    let c = csv_table(&b);
    let (s, p, o) = (g.name[0].as_str(), g.name[1].as_str(), g.name[2].as_str());
    let (want, col, sz, vals): (Vec<&str>, &str, &str, Vec<i64>) = match cmd {
        TOP => (vec![s, p, o], "Name", "ShallowSize", vec![20, 10, 5]),
        DOM => (vec!["<meta root>", p, s, o], "Name", "RetainedSize", vec![35, 30, 20, 5]),
        PATHS => (vec![s, p, p, o], "Name", "ShallowSize", vec![20, 10, 10, 5]),
        MONOS => (vec!["f", "Σ [4 Total Rows]"], "Generic", "TotalSize", vec![35, 35]),
        GARBAGE => (vec![s, p, o, "Σ [3 Total Rows]"], "Name", "Bytes", vec![20, 10, 5, 35]),
        _ => (vec![s, p, o, "Σ [3 Total Rows]"], "Item", "DeltaBytes", vec![20, 10, 5, 0]),
    };
    check(c.rows.len() == want.len(), "number of CSV records");
    for i in 0..want.len() {
        same(c.col(i, col), want[i], "CSV name");
        check(sint(c.col(i, sz)) == vals[i], "CSV size");
    }
    if cmd == PATHS {
        same(c.col(0, "Path"), &format!("plain -> {}", s), "CSV path");
    }
    if cmd == MONOS {
        same(c.col(0, "Monomorphizations"), &format!("{}, {}, {}", s, p, o), "CSV instantiations");
    }
    reach("end");
}

// ---------------------------------------------------------------- text
/// Column layout: every separator at the header's position, numbers flush right, the last cell unpadded.
/// `last` are the cells of the last column, in order; returns the other cells of each row.
pub fn layout(t: &str, last: &[String]) -> Vec<Vec<String>> {
    let b = t.as_bytes();
    let head = match b.iter().position(|c| *c == b'\n') {
        Some(p) => &t[..p],
        None => fail("no header"),
    };
    // columns in characters; everything left of the last separator is one byte per character but the separators
    let hc: Vec<char> = head.chars().collect();
    let seps: Vec<usize> = (0..hc.len()).filter(|i| hc[*i] == '│').collect();
    check(!hc.is_empty() && hc[0] == ' ', "table starts with a space");
    check(*hc.last().unwrap() != ' ', "last header cell is not padded");
    let mut pos = head.len() + 1;
    let rule_end = match b[pos..].iter().position(|c| *c == b'\n') {
        Some(p) => pos + p,
        None => fail("no rule"),
    };
    let rc: Vec<char> = t[pos..rule_end].chars().collect();
    for (i, c) in rc.iter().enumerate() {
        check(*c == if seps.contains(&i) { '┼' } else { '─' }, "rule");
    }
    check(rc.len() >= hc.len(), "rule is as wide as the header");
    pos = rule_end + 1;
    let w = seps.last().map_or(0, |p| p + 2);
    let mut rows: Vec<Vec<String>> = vec![];
    for l in last {
        // the cells before the last one: w characters
        let mut cells: Vec<String> = vec![];
        let mut cur = String::new();
        let mut i = 0;
        while i < w {
            if pos >= b.len() {
                fail("a row is missing");
            }
            if seps.contains(&i) {
                check(t[pos..].starts_with('┊'), "separator at the header's column");
                pos += '┊'.len_utf8();
                cells.push(std::mem::take(&mut cur));
            } else {
                check(b[pos] < 0x80 && b[pos] != b'\n', "separator at the header's column");
                cur.push(b[pos] as char);
                pos += 1;
            }
            i += 1;
        }
        check(cur == " " || seps.is_empty(), "one space after the last separator");
        for c in &cells {
            check(c.starts_with(' ') && c.ends_with(' '), "cells are surrounded by spaces");
            let inner = &c[1..c.len() - 1];
            check(inner.trim().is_empty() || !inner.ends_with(' '), "numbers are right-aligned");
        }
        // the last cell, intact and unpadded
        if pos + l.len() + 1 > b.len() {
            fail("a row is missing");
        }
        let mut ok = true;
        for k in 0..l.len() {
            ok &= b[pos + k] == l.as_bytes()[k];
        }
        check(ok, "cell text is intact");
        pos += l.len();
        check(b[pos] == b'\n', "last column is not padded");
        pos += 1;
        rows.push(cells.iter().map(|c| c.trim().to_string()).collect());
    }
    check(pos == b.len(), "further rows");
    // no column is wider than its widest cell
    let hcells: Vec<String> = head.split(" │ ").map(|s| s.trim().to_string()).collect();
    let mut from = 1;
    for (k, s) in seps.iter().enumerate() {
        let width = s - 1 - from;
        let m = rows.iter().map(|r| r[k].len()).max().unwrap_or(0).max(hcells[k].len());
        check(m == width, "a column fits its widest cell");
        from = s + 2;
    }
    rows
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c21() {
    let cmd = param("cmd", 0);
    let s = symstr("byte", param("chars", 1) as usize, 0);
    let w = [7u32, 123, 98765];
    let s0 = w[choose("size0", 3)];
    let s1 = [12u32, 1_234_567][choose("size1", 2)];
    let g = graph(cmd, &s, [s0, s1, 5]);
    let mut it = g.build();
    let e = report(cmd, &g, &mut it);
    let t = text(&e, &it);
    let nm = |i: usize| g.name[i].clone();
    let p2 = |x: u32| format!("{:.2}%", g.pct(x));
    let mut ord = if s0 > s1 { vec![0, 1, 2] } else { vec![1, 0, 2] };
    let sum = s0 + s1 + 5;
    let mut last: Vec<String> = vec![];
    let mut want: Vec<Vec<String>> = vec![];
    match cmd {
        TOP | GARBAGE => {
            for i in ord {
                last.push(nm(i));
                want.push(vec![g.size[i].to_string(), p2(g.size[i])]);
            }
            last.push("Σ [3 Total Rows]".into());
            want.push(vec![sum.to_string(), p2(sum)]);
        }
        DOM => {
            last = vec![nm(1), format!("  ⤷ {}", nm(0)), nm(2)];
            want = vec![s0 + s1, s0, 5].iter().map(|x| vec![x.to_string(), p2(*x)]).collect();
        }
        PATHS => {
            for i in ord {
                last.push(nm(i));
                want.push(vec![g.size[i].to_string(), p2(g.size[i])]);
                if i == 0 {
                    last.push(format!("  ⬑ {}", nm(1)));
                    want.push(vec!["".into(), "".into()]);
                }
            }
        }
        MONOS => {
            let bloat = (sum - s0.max(s1)).min(sum / 3 * 2);
            last.push("f".into());
            want.push(vec![bloat.to_string(), p2(bloat), sum.to_string(), p2(sum)]);
            for i in ord {
                last.push(format!("    {}", nm(i)));
                want.push(vec!["".into(), "".into(), g.size[i].to_string(), p2(g.size[i])]);
            }
            last.push("Σ [4 Total Rows]".into());
            want.push(vec![bloat.to_string(), p2(bloat), sum.to_string(), p2(sum)]);
        }
        _ => {
            for i in ord.drain(..) {
                last.push(nm(i));
                want.push(vec![format!("+{}", g.size[i])]);
            }
            last.push("Σ [3 Total Rows]".into());
            want.push(vec!["+0".into()]);
        }
    }
    let rows = layout(&t, &last);
    for (r, w) in rows.iter().zip(&want) {
        check(r == w, "cell text is intact");
    }
    reach("end");
}

// ---------------------------------------------------------------- formats agree
/// (name, bytes, percentage) of the rows of a report in one format, summary rows left out.
fn rows_of(cmd: u64, f: u64, e: &Box<dyn Emit>, it: &Items) -> Vec<(String, u64, Option<f64>)> {
    let mut out = vec![];
    let (sz, pc, nm): (&str, &str, &str) = match cmd {
        TOP => ("ShallowSize", "ShallowSizePercent", "Name"),
        DOM => ("RetainedSize", "RetainedSizePercent", "Name"),
        PATHS => ("ShallowSize", "ShallowSizePercent", "Name"),
        MONOS => ("TotalSize", "TotalSizePercent", "Generic"),
        GARBAGE => ("Bytes", "SizePercent", "Name"),
        _ => ("DeltaBytes", "", "Item"),
    };
    match f {
        0 => {
            let t = table(&text(e, it));
            for r in &t.rows {
                let k = r.len() - 1;
                if cmd == MONOS && r[0].trim().is_empty() {
                    continue;
                }
                let mut n = r[k].as_str();
                let mut below = false;
                for a in ["⤷ ", "⬑ ", "↳ "] {
                    if let Some(p) = n.find(a) {
                        n = &n[p + a.len()..];
                        below = true;
                    }
                }
                if below && cmd == PATHS {
                    out.push((n.to_string(), u64::MAX, None));
                    continue;
                }
                let b = if cmd == MONOS { 2 } else { 0 };
                if cmd == DIFF {
                    out.push((n.to_string(), u64::MAX, Some(sint(&r[0]) as f64)));
                } else {
                    out.push((n.to_string(), int(&r[b]), Some(pct(&r[b + 1]))));
                }
            }
        }
        1 => {
            let b = render(e, it, OutputFormat::Json);
            let j = json(&b);
            fn walk(cmd: u64, o: &J, top: bool, out: &mut Vec<(String, u64, Option<f64>)>) {
                let (n, s, p) = match cmd {
                    TOP => ("name", "shallow_size", "shallow_size_percent"),
                    DOM => ("name", "retained_size", "retained_size_percent"),
                    PATHS => ("name", "shallow_size", "shallow_size_percent"),
                    MONOS => ("generic", "total_size", "total_size_percent"),
                    GARBAGE => ("name", "bytes", "size_percent"),
                    _ => ("name", "delta_bytes", ""),
                };
                if o.s(n) != "<meta root>" {
                    let v = if cmd == DIFF { u64::MAX } else { int(o.num(s)) };
                    let p = Some(flt(o.num(if cmd == DIFF { s } else { p })));
                    if cmd == PATHS && !top {
                        out.push((o.s(n).to_string(), u64::MAX, None));
                    } else {
                        out.push((o.s(n).to_string(), v, p));
                    }
                }
                for k in ["children", "callers"] {
                    if let Some(c) = o.get(k) {
                        for x in c.arr() {
                            walk(cmd, x, false, out);
                        }
                    }
                }
            }
            let a = if cmd == DOM { j.f("items").arr() } else { j.arr() };
            for o in a {
                walk(cmd, o, true, &mut out);
            }
            if cmd == DOM {
                if let Some(s) = j.get("summary") {
                    let o = &s.arr()[0];
                    out.push((o.s("name").to_string(), int(o.num("retained_size")), Some(flt(o.num("retained_size_percent")))));
                }
            }
        }
        _ => {
            let b = render(e, it, OutputFormat::Csv);
            let c = csv_table(&b);
            for r in 0..c.rows.len() {
                let n = c.col(r, nm);
                if n == "<meta root>" {
                    continue;
                }
                if cmd == DIFF {
                    out.push((n.to_string(), u64::MAX, Some(sint(c.col(r, sz)) as f64)));
                } else {
                    out.push((n.to_string(), int(c.col(r, sz)), Some(flt(c.col(r, pc)))));
                }
            }
        }
    }
    out
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c22() {
    let cmd = param("cmd", 0);
    let n = param("n", 3) as usize;
    let mut g = Gr::sizes(n);
    if cmd == MONOS {
        for i in 0..n {
            g.name[i] = ["f<A>", "g<A>", "f<B>"][choose("name", 3)].to_string();
            g.kind[i] = 0;
        }
    } else if cmd == DIFF {
        for i in 0..n {
            g.name[i] = ["a", "b", "c"][choose("name", 3)].to_string();
        }
    } else if cmd == DOM || cmd == PATHS || cmd == GARBAGE {
        g.edges(param("mode", 1));
    }
    let mut it = g.build();
    let e = match cmd {
        TOP => {
            let mut o = twiggy_opt::Top::new();
            o.set_retained(false);
            twiggy_analyze::top(&mut it, &o)
        }
        DOM => {
            let a: &[&str] = if flag("args") { &["n1", "n0"] } else { &[] };
            twiggy_analyze::dominators(&mut it, &dominators_opts(a, None, None, false))
        }
        PATHS => {
            let mut o = paths_opts(if flag("args") { &["n1", "n0"] } else { &[] }, flag("descending"), false);
            o.set_max_depth(2);
            twiggy_analyze::paths(&mut it, &o)
        }
        MONOS => twiggy_analyze::monos(&mut it, &monos_opts(&["in.wasm", "-m", "1"])),
        GARBAGE => {
            let mut o = twiggy_opt::Garbage::new();
            o.set_max_items(2);
            twiggy_analyze::garbage(&it, &o)
        }
        _ => {
            let mut h = Gr::sizes(2);
            h.name = vec!["a".into(), "b".into()];
            let mut old = h.build();
            let r = twiggy_analyze::diff(&mut old, &mut it, &diff_opts(&["-n", "2"]));
            std::mem::forget(old);
            r
        }
    };
    let e = match e {
        Ok(e) => e,
        Err(_) => fail("the report fails"),
    };
    let mut all: Vec<Vec<(String, u64, Option<f64>)>> = (0..3).map(|f| rows_of(cmd, f, &e, &it)).collect();
    if cmd == TOP {
        // the text form alone has a total row
        all[0].pop();
    }
    for f in 1..3 {
        check(all[0].len() == all[f].len(), "the formats list the same number of rows");
        for k in 0..all[0].len() {
            check(all[0][k].0 == all[f][k].0, "the formats list the same items in the same order");
            if all[0][k].1 != u64::MAX && all[f][k].1 != u64::MAX {
                check(all[0][k].1 == all[f][k].1, "the formats give the same sizes");
            }
            if let (Some(a), Some(b)) = (all[0][k].2, all[f][k].2) {
                close(a, b, "the formats give the same percentages");
            }
        }
    }
    reach("end");
}

// ---------------------------------------------------------------- C12
fn find_all(s: &[u8], p: &[u8]) -> Option<usize> {
    let mut r = None;
    if s.len() >= p.len() {
        for i in 0..=s.len() - p.len() {
            let mut eq = true;
            for k in 0..p.len() {
                eq &= s[i + k] == p[k];
            }
            if eq {
                r = Some(i);
            }
        }
    }
    r
}
fn want_generic(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    if let Some(i) = find_all(b, b"::h") {
        if find_all(b, b"::") == Some(i) {
            return Some(i);
        }
    }
    let mut lt = None;
    let mut gt = None;
    for (i, c) in b.iter().enumerate() {
        if *c == b'<' && lt.is_none() {
            lt = Some(i);
        }
        if *c == b'>' {
            gt = Some(i);
        }
    }
    match (lt, gt) {
        (Some(l), Some(g)) if l > 0 && g > l => Some(l),
        _ => None,
    }
}
/// Plain (not mangled) names: bytes from the characters the rules look at.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c12_plain() {
    let n = param("len", 6) as usize;
    let mut v: Vec<u8> = vec![];
    for _ in 0..n {
        let c = u8_in("c", 0x20, 0x7e);
        if param("any", 0) == 0 {
            assume((c == b':') | (c == b'h') | (c == b'<') | (c == b'>') | (c == b'a'));
        }
        v.push(c);
    }
    if param("any", 0) == 2 {
        // not a mangled name
        assume((v[0] != b'_') & (v[0] != b'Z') & (v[0] != b'R'));
    }
    if param("utf8", 0) == 1 {
        v.splice(1..1, "é".bytes());
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    generic_of(&s, &s);
    reach("end");
}
fn generic_of(name: &str, shown: &str) {
    let it = Item::new(Id::entry(0, 0), name.to_string(), 1, Code::new(name));
    same(it.name(), shown, "name of a function");
    match (want_generic(shown), it.monomorphization_of()) {
        (None, None) => {}
        (Some(i), Some(g)) => same(g, &shown[..i], "the generic's name"),
        (None, Some(_)) => fail("a generic is reported for a function that is none"),
        (Some(_), None) => fail("the generic is not recognised"),
    }
}
/// Mangled names: a prefix and symbolic bytes behind it, against the demanglers themselves.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c12_mangled() {
    let n = param("len", 3) as usize;
    let pre = match param("prefix", 0) {
        0 => "_ZN",
        1 => "_Z",
        2 => "__Z",
        3 => "_GLOBAL_",
        4 => "_R",
        5 => "_ZN3foo17h",
        6 => "_ZN1a1b",
        7 => "ZN",
        8 => "_Z1fI",
        9 => "_ZN1f17h0123456789abcde",
        _ => "_",
    };
    let post = match param("suffix", 0) {
        0 => "",
        1 => "E",
        2 => "Ev",
        _ => "v",
    };
    let mut v: Vec<u8> = pre.bytes().collect();
    for _ in 0..n {
        v.push(u8_in("c", 0x21, 0x7e));
    }
    v.extend(post.bytes());
    let s = unsafe { String::from_utf8_unchecked(v) };
    // the definition: the demangled form of a valid symbol, else the name itself
    let cpp = s.starts_with("_Z") || s.starts_with("__Z") || s.starts_with("_GLOBAL_");
    let shown = match rustc_demangle::try_demangle(&s) {
        Ok(d) => d.to_string(),
        Err(_) if cpp => match cpp_demangle::Symbol::new(s.as_str()) {
            Ok(d) => {
                use std::fmt::Write;
                let mut o = String::new();
                if write!(o, "{}", d).is_ok() {
                    o
                } else {
                    s.clone()
                }
            }
            Err(_) => s.clone(),
        },
        Err(_) => s.clone(),
    };
    generic_of(&s, &shown);
    reach("end");
}

// ---------------------------------------------------------------- C18 with arbitrary names
/// An item of any name of at most `chars` characters is selected exactly when the argument is that name.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c18_exact() {
    let cmd = param("cmd", PATHS);
    let s = symstr("byte", param("chars", 2) as usize, 1);
    if cmd == MONOS {
        // the text before a trailing ::h... component is the generic's name: C12
        let mut ok = !s.is_empty();
        for c in s.bytes() {
            ok &= (c != b':') & (c != b'<') & (c != b'_');
        }
        assume(ok);
    }
    let mut g = Gr {
        n: 2,
        size: vec![20, 10],
        name: vec![s.clone(), "zz".into()],
        kind: vec![0; 2],
        adj: vec![vec![false; 2]; 2],
        root: vec![true; 2],
        total: 100,
    };
    if cmd != MONOS {
        g.kind[0] = 2;
    }
    let pool = ["b", " b", "b ", "B", "\u{e9}"];
    let arg = match cmd {
        PATHS => symstr("arg", 1, 1),
        _ => pool[choose("arg", pool.len())].to_string(),
    };
    let sel = (s.len() == arg.len()) && {
        let mut ok = true;
        for (a, b) in s.bytes().zip(arg.bytes()) {
            ok &= a == b;
        }
        ok
    };
    if cmd == MONOS {
        g.name[0] = format!("{}<T>", s);
    }
    let mut it = g.build();
    let e = match cmd {
        PATHS => {
            let mut o = twiggy_opt::Paths::new();
            o.add_function(arg.clone());
            twiggy_analyze::paths(&mut it, &o)
        }
        DOM => twiggy_analyze::dominators(&mut it, &dominators_opts(&[&arg], None, None, false)),
        MONOS => twiggy_analyze::monos(&mut it, &monos_opts(&["in.wasm", &arg])),
        _ => {
            let mut z = g.clone();
            z.size = vec![0; 2];
            let mut old = z.build();
            let r = twiggy_analyze::diff(&mut old, &mut it, &diff_opts(&[&arg]));
            std::mem::forget(old);
            r
        }
    };
    let e = match e {
        Ok(e) => e,
        Err(_) => fail("the report fails"),
    };
    let b = render(&e, &it, OutputFormat::Csv);
    let c = csv_table(&b);
    let col = match cmd {
        MONOS => "Generic",
        DIFF => "Item",
        _ => "Name",
    };
    // without the total row of monos and diff
    let n = c.rows.len() - if cmd == MONOS || cmd == DIFF { 1 } else { 0 };
    check(n == sel as usize, "exactly the item of the given name is selected");
    if n == 1 {
        same(c.col(0, col), &arg, "the selected item has the given name");
    }
    reach("end");
}

// ---------------------------------------------------------------- C25
fn run_report(k: usize, it: &mut Items, g: &Gr) -> Box<dyn Emit> {
    let r = match k {
        0 | 1 => {
            let mut o = twiggy_opt::Top::new();
            o.set_retained(k == 1);
            twiggy_analyze::top(it, &o)
        }
        2 => twiggy_analyze::dominators(it, &dominators_opts(&[], None, None, false)),
        3 => twiggy_analyze::dominators(it, &dominators_opts(&["n1"], None, None, false)),
        4 => twiggy_analyze::paths(it, &paths_opts(&[], false, false)),
        5 => twiggy_analyze::paths(it, &paths_opts(&["n1", "n0"], true, false)),
        6 => twiggy_analyze::monos(it, &monos_opts(&["in.wasm"])),
        7 => {
            let mut old = g.build();
            let r = twiggy_analyze::diff(&mut old, it, &diff_opts(&[]));
            std::mem::forget(old);
            r
        }
        8 => {
            let mut old = g.build();
            let r = twiggy_analyze::diff(it, &mut old, &diff_opts(&[]));
            std::mem::forget(old);
            r
        }
        _ => twiggy_analyze::garbage(it, &twiggy_opt::Garbage::new()),
    };
    match r {
        Ok(e) => e,
        Err(_) => fail("the report fails"),
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c25_reports() {
    let n = param("n", 2) as usize;
    let mut g = Gr {
        n,
        size: [20, 300, 300, 7][..n].to_vec(),
        name: (0..n).map(|i| format!("n{}", i)).collect(),
        kind: vec![0; n],
        adj: vec![vec![false; n]; n],
        root: vec![false; n],
        total: 2_000_000,
    };
    if flag("generics") {
        g.name[0] = "f<A>".into();
    }
    g.edges(param("mode", 0));
    let last = choose("report", 10);
    let mut fresh = g.build();
    let want = run_report(last, &mut fresh, &g);
    let mut used = g.build();
    for _ in 0..param("before", 1) {
        let k = choose("report before", 10);
        let e = run_report(k, &mut used, &g);
        if flag("printed") {
            render(&e, &used, OutputFormat::Text);
        }
    }
    let got = run_report(last, &mut used, &g);
    for f in [OutputFormat::Text, OutputFormat::Json, OutputFormat::Csv] {
        let w = render(&want, &fresh, f);
        let a = render(&got, &used, f);
        check(a == w, "a report depends on what was computed before");
        let b = render(&got, &used, f);
        check(a == b, "a report differs when printed again");
    }
    reach("end");
}

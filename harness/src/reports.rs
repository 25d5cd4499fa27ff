//! C10 garbage, C13 top, C14 dominators, C15 paths: reports against the definitions.
use crate::sym::*;
use crate::util::*;

pub fn idx(g: &Gr, name: &str) -> usize {
    match g.by_name(name) {
        Some(i) => i,
        None => fail("row names no item of the binary"),
    }
}
fn check_pct(g: &Gr, v: f64, size: u32) {
    close(v, g.pct(size), "percentage");
}
/// "... and N more" style rows.
pub fn count_in(s: &str, pre: &str, post: &str) -> u64 {
    match s.strip_prefix(pre).and_then(|r| r.strip_suffix(post)) {
        Some(n) => int(n),
        None => fail("unexpected summary row"),
    }
}
fn sum(v: &[u32]) -> u32 {
    v.iter().fold(0u32, |a, b| a + *b)
}

// ---------------------------------------------------------------- top
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c13() {
    let n = param("n", 4) as usize;
    let mut g = Gr::sizes(n);
    // an item that is only called like the meta root
    g.name[0] = "<meta root>".to_string();
    let retained = match param("retained", 2) {
        0 => false,
        1 => true,
        _ => flag("retained"),
    };
    if retained {
        g.edges(param("mode", 2));
    }
    let mut o = twiggy_opt::Top::new();
    o.set_retained(retained);
    let mut lim = n;
    if flag("limited") {
        let l = u32_in("max_items", 0, u32::MAX);
        o.set_max_items(l);
        lim = n.min(l as usize);
        lim = sym_conc(lim as u64) as usize;
    }
    let mut it = g.build();
    o.set_retaining_paths(true);
    check(twiggy_analyze::top(&mut it, &o).is_err(), "retaining paths are an error");
    o.set_retaining_paths(false);
    let t = match twiggy_analyze::top(&mut it, &o) {
        Ok(t) => t,
        Err(_) => fail("top returned an error"),
    };
    let ret = if retained { g.retained() } else { g.size.clone() };
    let order = |v: &[usize]| {
        check(v.len() == lim, "number of rows");
        for (k, i) in v.iter().enumerate() {
            check(!v[..k].contains(i), "an item is listed twice");
            for j in 0..n {
                if !v[..=k].contains(&j) {
                    check(ret[*i] >= ret[j], "rows are ordered by decreasing size");
                }
            }
        }
    };
    match choose("format", 3) {
        0 => {
            let s = text(&t, &it);
            let t = table(&s);
            check(t.header.len() == 3 && t.header[2] == "Item", "header");
            check(t.header[0] == if retained { "Retained Bytes" } else { "Shallow Bytes" }, "header");
            let mut rows = t.rows;
            let last = match rows.pop() {
                Some(r) => r,
                None => fail("no total row"),
            };
            check(count_in(&last[2], "Σ [", " Total Rows]") == n as u64, "total row counts all items");
            if retained {
                check(last[0].trim() == "...", "no sum of retained sizes");
            } else {
                check(int(&last[0]) == sum(&g.size) as u64, "total row sums all items");
                check_pct(&g, pct(&last[1]), sum(&g.size));
            }
            let mut rem = None;
            if lim < n {
                rem = rows.pop();
            }
            let v: Vec<usize> = rows.iter().map(|r| idx(&g, &r[2])).collect();
            order(&v);
            for (r, i) in rows.iter().zip(&v) {
                check(int(&r[0]) == ret[*i] as u64, "size of a row");
                check_pct(&g, pct(&r[1]), ret[*i]);
            }
            if lim < n {
                let r = match rem {
                    Some(r) => r,
                    None => fail("no remainder row"),
                };
                check(count_in(&r[2], "... and ", " more.") == (n - lim) as u64, "remainder row counts what is left");
                if retained {
                    check(r[0].trim() == "...", "no sum of retained sizes");
                } else {
                    let mut s = 0u32;
                    for j in 0..n {
                        if !v.contains(&j) {
                            s += g.size[j];
                        }
                    }
                    check(int(&r[0]) == s as u64, "remainder row sums what is left");
                    check_pct(&g, pct(&r[1]), s);
                }
            }
        }
        1 => {
            let b = render(&t, &it, OutputFormat::Json);
            let j = json(&b);
            let v: Vec<usize> = j.arr().iter().map(|o| idx(&g, o.s("name"))).collect();
            order(&v);
            for (o, i) in j.arr().iter().zip(&v) {
                check(int(o.num("shallow_size")) == g.size[*i] as u64, "JSON shallow size");
                check_pct(&g, flt(o.num("shallow_size_percent")), g.size[*i]);
                if retained {
                    check(o.keys() == ["name", "shallow_size", "shallow_size_percent", "retained_size", "retained_size_percent"], "JSON fields");
                    check(int(o.num("retained_size")) == ret[*i] as u64, "JSON retained size");
                    check_pct(&g, flt(o.num("retained_size_percent")), ret[*i]);
                } else {
                    check(o.keys() == ["name", "shallow_size", "shallow_size_percent"], "JSON fields");
                }
            }
        }
        _ => {
            let b = render(&t, &it, OutputFormat::Csv);
            let c = csv_table(&b);
            let v: Vec<usize> = (0..c.rows.len()).map(|r| idx(&g, c.col(r, "Name"))).collect();
            order(&v);
            for (r, i) in v.iter().enumerate() {
                check(int(c.col(r, "ShallowSize")) == g.size[*i] as u64, "CSV shallow size");
                check_pct(&g, flt(c.col(r, "ShallowSizePercent")), g.size[*i]);
                if retained {
                    check(int(c.col(r, "RetainedSize")) == ret[*i] as u64, "CSV retained size");
                    check_pct(&g, flt(c.col(r, "RetainedSizePercent")), ret[*i]);
                } else {
                    check(c.col(r, "RetainedSize").is_empty() && c.col(r, "RetainedSizePercent").is_empty(), "no CSV retained size");
                }
            }
        }
    }
    reach("end");
}

// ---------------------------------------------------------------- garbage
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c10() {
    let n = param("n", 3) as usize;
    let show = flag("show_data_segments");
    let args: &[&str] = if show { &["twiggy", "garbage", "in.wasm", "--show-data-segments"] } else { &["twiggy", "garbage", "in.wasm"] };
    let mut o = match <twiggy_opt::Options as structopt::StructOpt>::from_iter_safe(args) {
        Ok(twiggy_opt::Options::Garbage(d)) => d,
        _ => fail("options"),
    };
    let mut g = Gr::sizes(n);
    g.edges(param("mode", 1));
    let all = g.reach(ROOT);
    for i in 0..n {
        g.kind[i] = if !all[i] && flag("is_data") { 1 } else if i % 2 == 0 { 2 } else { 0 };
    }
    let gar: Vec<usize> = (0..n).filter(|i| !all[*i] && (show || g.kind[*i] != 1)).collect();
    let seg: Vec<usize> = (0..n).filter(|i| !all[*i] && !show && g.kind[*i] == 1).collect();
    let l = u32_in("max_items", 0, u32::MAX);
    o.set_max_items(l);
    let lim = sym_conc(gar.len().min(l as usize) as u64) as usize;
    let it = g.build();
    let t = match twiggy_analyze::garbage(&it, &o) {
        Ok(t) => t,
        Err(_) => fail("garbage returned an error"),
    };
    // (size, percent, name) of every row, all formats alike
    let rows: Vec<(u64, f64, String)> = if flag("csv") {
        let b = render(&t, &it, OutputFormat::Csv);
        let c = csv_table(&b);
        check(c.header == ["Name", "Bytes", "SizePercent"], "CSV header");
        (0..c.rows.len()).map(|r| (int(c.col(r, "Bytes")), flt(c.col(r, "SizePercent")), c.col(r, "Name").to_string())).collect()
    } else if flag("json") {
        let b = render(&t, &it, OutputFormat::Json);
        json(&b)
            .arr()
            .iter()
            .map(|o| {
                check(o.keys() == ["name", "bytes", "size_percent"], "JSON fields");
                (int(o.num("bytes")), flt(o.num("size_percent")), o.s("name").to_string())
            })
            .collect()
    } else {
        let s = text(&t, &it);
        let t = table(&s);
        check(t.header == ["Bytes", "Size %", "Garbage Item"], "header");
        t.rows.iter().map(|r| (int(&r[0]), pct(&r[1]), r[2].clone())).collect()
    };
    let sz = |v: &[usize]| v.iter().fold(0u32, |a, i| a + g.size[*i]);
    let mut shown: Vec<usize> = vec![];
    let mut k = 0;
    for _ in 0..lim {
        if k >= rows.len() {
            fail("row missing");
        }
        let i = idx(&g, &rows[k].2);
        check(gar.contains(&i), "a listed item is reachable or a data segment");
        check(!shown.contains(&i), "an item is listed twice");
        shown.push(i);
        for j in &gar {
            if !shown.contains(j) {
                check(g.size[i] >= g.size[*j], "rows are ordered by decreasing size");
            }
        }
        check(rows[k].0 == g.size[i] as u64, "size of a row");
        check_pct(&g, rows[k].1, g.size[i]);
        k += 1;
    }
    let mut summary = |items: &[usize], what: &str| {
        if k >= rows.len() {
            fail("summary row missing");
        }
        check(rows[k].0 == sz(items) as u64, what);
        check_pct(&g, rows[k].1, sz(items));
        k += 1;
        rows[k - 1].2.clone()
    };
    if lim < gar.len() {
        let rest: Vec<usize> = gar.iter().cloned().filter(|i| !shown.contains(i)).collect();
        let s = summary(&rest, "remainder row sums what is left");
        check(count_in(&s, "... and ", " more") == rest.len() as u64, "remainder row counts what is left");
    }
    let s = summary(&gar, "total row sums all garbage");
    check(count_in(&s, "Σ [", " Total Rows]") == gar.len() as u64, "total row counts all garbage");
    if !seg.is_empty() {
        let s = summary(&seg, "data segment row sums the unreachable segments");
        check(count_in(&s, "", " potential false-positive data segments") == seg.len() as u64, "data segment row counts the unreachable segments");
    }
    check(k == rows.len(), "unexpected further row");
    reach("end");
}

// ---------------------------------------------------------------- dominators
struct Dn {
    i: usize, // ROOT: the meta root
    depth: usize,
    sh: Option<u64>,
    shp: Option<f64>,
    rt: u64,
    rtp: f64,
}
/// Rows in pre-order must be a walk of the dominator tree below `starts`. Depth MAX: not shown.
fn check_walk(g: &Gr, rows: &[Dn], starts: &[(usize, usize)], maxdepth: usize, complete: bool, hide_root: bool) {
    let idom = g.idom();
    let ret = g.retained();
    let rr = g.root_retained();
    let rv = |i: usize| if i == ROOT { rr } else { ret[i] };
    let mut k = 0;
    fn go(g: &Gr, idom: &[Option<usize>], rv: &dyn Fn(usize) -> u32, rows: &[Dn], k: &mut usize, p: usize, depth: usize, maxdepth: usize, complete: bool) {
        // the subtree below p, whose children are at `depth`
        if depth > maxdepth {
            return;
        }
        let ch: Vec<usize> = (0..g.n).filter(|j| idom[*j] == Some(p)).collect();
        let mut done: Vec<usize> = vec![];
        while done.len() < ch.len() {
            if *k >= rows.len() {
                check(!complete, "an item of the requested subtrees is missing");
                return;
            }
            let r = &rows[*k];
            check(r.depth == usize::MAX || r.depth == depth, "indentation is the depth in the tree");
            check(ch.contains(&r.i) && !done.contains(&r.i), "a row is not a child of the one above");
            done.push(r.i);
            for j in &ch {
                if !done.contains(j) {
                    check(rv(r.i) >= rv(*j), "siblings are ordered by decreasing retained size");
                }
            }
            *k += 1;
            go(g, idom, rv, rows, k, r.i, depth + 1, maxdepth, complete);
        }
    }
    for (s, d) in starts {
        if *d > maxdepth {
            continue;
        }
        if *s != ROOT || !hide_root {
            if k >= rows.len() {
                check(!complete, "a requested item is missing");
                break;
            }
            check(rows[k].i == *s, "requested item is missing or out of order");
            check(rows[k].depth == usize::MAX || rows[k].depth == *d, "depth of a requested item");
            k += 1;
        }
        go(g, &idom, &rv, rows, &mut k, *s, d + 1, maxdepth, complete);
    }
    check(k == rows.len(), "a row is not part of the requested subtrees");
    for r in rows {
        check(r.rt == rv(r.i) as u64, "retained size of a row");
        close(r.rtp, g.pct(rv(r.i)), "retained percentage");
        if let Some(s) = r.sh {
            let sz = if r.i == ROOT { 0 } else { g.size[r.i] };
            check(s == sz as u64, "shallow size of a row");
            close(r.shp.unwrap(), g.pct(sz), "shallow percentage");
        }
    }
}

pub fn dominators_opts(args: &[&str], depth: Option<u32>, rows: Option<u32>, regex: bool) -> twiggy_opt::Dominators {
    let mut v = vec!["twiggy", "dominators", "in.wasm"];
    v.extend(args);
    let mut o = match <twiggy_opt::Options as structopt::StructOpt>::from_iter_safe(v) {
        Ok(twiggy_opt::Options::Dominators(d)) => d,
        _ => fail("options"),
    };
    if let Some(d) = depth {
        o.set_max_depth(d);
    }
    if let Some(d) = rows {
        o.set_max_rows(d);
    }
    o.set_using_regexps(regex);
    o
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c14() {
    let n = param("n", 3) as usize;
    let args = param("args", 0);
    let fmt = param("format", 0);
    let mut maxd = None;
    let mut maxr = None;
    if fmt == 0 && param("limits", 1) == 1 {
        maxd = Some(u32_in("max_depth", 0, u32::MAX));
        maxr = Some(u32_in("max_rows", 0, u32::MAX));
    }
    let list: &[&str] = match args {
        0 => &[],
        1 => match choose("args", 3) {
            0 => &["n0"],
            1 => &["n2", "n1"],
            _ => &["n1", "nope", "n0"],
        },
        _ => &["n1", "<meta root>"],
    };
    let o = dominators_opts(list, maxd, maxr, false);
    let mut g = Gr::sizes(n);
    g.edges(param("mode", 1));
    let mut it = g.build();
    let t = match twiggy_analyze::dominators(&mut it, &o) {
        Ok(t) => t,
        Err(_) => fail("dominators returned an error"),
    };
    // requested items and the depth they are shown at
    let mut starts: Vec<(usize, usize)> = vec![];
    if list.is_empty() {
        starts.push((ROOT, 0));
    }
    for a in list {
        if *a == "<meta root>" {
            starts.push((ROOT, 0));
        } else if let Some(i) = g.by_name(a) {
            starts.push((i, 1));
        }
    }
    let all = g.reach(ROOT);
    let unr: Vec<usize> = (0..n).filter(|i| !all[*i]).collect();
    let us = unr.iter().fold(0u32, |a, i| a + g.size[*i]);
    let want_summary = list.is_empty() && us > 0;
    let name_idx = |s: &str| if s == "<meta root>" { ROOT } else { idx(&g, s) };
    match fmt {
        0 => {
            let s = text(&t, &it);
            let t = table(&s);
            check(t.header == ["Retained Bytes", "Retained %", "Dominator Tree"], "header");
            let mut raw = t.rows;
            if want_summary {
                let r = match raw.pop() {
                    Some(r) => r,
                    None => fail("no unreachable items row"),
                };
                check(count_in(&r[2], "[", " Unreachable Items]") == unr.len() as u64, "unreachable items are counted");
                check(int(&r[0]) == us as u64, "unreachable items are summed");
                check_pct(&g, pct(&r[1]), us);
            }
            let mut rows: Vec<Dn> = vec![];
            for r in &raw {
                let (ind, name) = match r[2].find("⤷ ") {
                    Some(p) => (p, &r[2][p + "⤷ ".len()..]),
                    None => (0, r[2].as_str()),
                };
                let depth = if ind == 0 {
                    1
                } else {
                    check(ind % 4 == 2, "indentation");
                    2 + (ind - 2) / 4
                };
                rows.push(Dn { i: name_idx(name), depth, sh: None, shp: None, rt: int(&r[0]), rtp: pct(&r[1]) });
            }
            let md = match maxd {
                Some(d) => sym_conc(d.min(n as u32 + 2) as u64) as usize,
                None => n + 2,
            };
            let complete = match maxr {
                Some(r) => {
                    check(rows.len() as u64 <= r as u64, "more rows than the row limit");
                    (rows.len() as u64) < r as u64
                }
                None => true,
            };
            check_walk(&g, &rows, &starts, md, complete, true);
        }
        1 => {
            let b = render(&t, &it, OutputFormat::Json);
            let j = json(&b);
            let mut rows: Vec<Dn> = vec![];
            fn walk(o: &J, depth: usize, rows: &mut Vec<Dn>, ix: &dyn Fn(&str) -> usize) {
                let i = ix(o.s("name"));
                rows.push(Dn {
                    i,
                    depth,
                    sh: Some(int(o.num("shallow_size"))),
                    shp: Some(flt(o.num("shallow_size_percent"))),
                    rt: int(o.num("retained_size")),
                    rtp: flt(o.num("retained_size_percent")),
                });
                if let Some(c) = o.get("children") {
                    for x in c.arr() {
                        walk(x, depth + 1, rows, ix);
                    }
                }
            }
            for o in j.f("items").arr() {
                walk(o, if o.s("name") == "<meta root>" { 0 } else { 1 }, &mut rows, &name_idx);
            }
            check_walk(&g, &rows, &starts, n + 2, true, false);
            match j.get("summary") {
                Some(s) => {
                    check(want_summary && s.arr().len() == 1, "unexpected summary");
                    let o = &s.arr()[0];
                    check(count_in(o.s("name"), "[", " Unreachable Items]") == unr.len() as u64, "unreachable items are counted");
                    check(int(o.num("retained_size")) == us as u64, "unreachable items are summed");
                    check_pct(&g, flt(o.num("retained_size_percent")), us);
                }
                None => check(!want_summary, "summary is missing"),
            }
        }
        _ => {
            let b = render(&t, &it, OutputFormat::Csv);
            let c = csv_table(&b);
            let mut k = c.rows.len();
            if want_summary {
                if k == 0 {
                    fail("summary is missing");
                }
                k -= 1;
                check(count_in(c.col(k, "Name"), "[", " Unreachable Items]") == unr.len() as u64, "unreachable items are counted");
                check(int(c.col(k, "RetainedSize")) == us as u64, "unreachable items are summed");
                check_pct(&g, flt(c.col(k, "RetainedSizePercent")), us);
                check(c.col(k, "Id").is_empty() && c.col(k, "ImmediateDominator").is_empty(), "summary has no id");
            }
            let idom = g.idom();
            let mut rows: Vec<Dn> = vec![];
            for r in 0..k {
                let i = name_idx(c.col(r, "Name"));
                check(int(c.col(r, "Id")) == Gr::id(i).serializable(), "CSV id");
                let d = if i == ROOT { None } else { idom[i] };
                let want = match d {
                    Some(d) => Gr::id(d),
                    None => Gr::id(i),
                };
                check(int(c.col(r, "ImmediateDominator")) == want.serializable(), "CSV immediate dominator");
                let depth = usize::MAX;
                rows.push(Dn {
                    i,
                    depth,
                    sh: Some(int(c.col(r, "ShallowSize"))),
                    shp: Some(flt(c.col(r, "ShallowSizePercent"))),
                    rt: int(c.col(r, "RetainedSize")),
                    rtp: flt(c.col(r, "RetainedSizePercent")),
                });
            }
            check_walk(&g, &rows, &starts, n + 2, true, false);
        }
    }
    reach("end");
}

// ---------------------------------------------------------------- paths
pub struct Pn {
    pub i: usize,
    pub sh: Option<u64>,
    pub shp: Option<f64>,
    pub kids: Vec<Pn>,
}
pub fn paths_opts(args: &[&str], desc: bool, regex: bool) -> twiggy_opt::Paths {
    let mut o = twiggy_opt::Paths::new();
    for a in args {
        o.add_function(a.to_string());
    }
    o.set_descending(desc);
    o.set_using_regexps(regex);
    o
}
fn check_paths(g: &Gr, p: &Pn, desc: bool, depth: usize, maxd: usize, maxp: usize, chain: &mut Vec<usize>) {
    check(!chain.contains(&p.i), "a chain visits an item twice");
    chain.push(p.i);
    if let Some(s) = p.sh {
        check(s == g.size[p.i] as u64, "shallow size");
        close(p.shp.unwrap(), g.pct(g.size[p.i]), "shallow percentage");
    }
    let cand: Vec<usize> = (0..g.n).filter(|j| (if desc { g.adj[p.i][*j] } else { g.adj[*j][p.i] }) && !chain.contains(j)).collect();
    let want = if depth < maxd { cand.len().min(maxp) } else { 0 };
    check(p.kids.len() <= want, "a shown reference does not exist or exceeds a limit");
    check(p.kids.len() >= want, "a reference chain is left out");
    for (k, c) in p.kids.iter().enumerate() {
        check(cand.contains(&c.i), "a shown reference does not exist");
        check(!p.kids[..k].iter().any(|d| d.i == c.i), "a reference is shown twice");
        check_paths(g, c, desc, depth + 1, maxd, maxp, chain);
    }
    chain.pop();
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c15() {
    let n = param("n", 3) as usize;
    let mut g = Gr::sizes(n);
    if param("flat", 0) == 1 {
        for i in 0..n {
            g.size[i] = 4 * (n - i) as u32;
        }
        g.total = 1000;
    }
    let desc = flag("descending");
    let list: &[&str] = match choose("args", param("args", 3) as usize) {
        0 => &[],
        1 => &["n0"],
        _ => &["n2", "nope", "n1"],
    };
    if list.is_empty() {
        g.name[0] = "<meta root>".to_string();
    }
    if list.is_empty() && param("rootsame", 0) == 0 {
        g.roots();
    } else {
        // which items are roots matters only through the meta root: none or all
        let r = flag("root");
        for i in 0..n {
            g.root[i] = r;
        }
    }
    g.adjs(param("mode", 0));
    let mut o = paths_opts(list, desc, false);
    let (mut md, mut mp) = (10usize, 10usize);
    if param("limits", 1) == 1 {
        let d = u32_in("max_depth", 0, u32::MAX);
        o.set_max_depth(d);
        md = sym_conc(d.min(n as u32 + 1) as u64) as usize;
        let p = u32_in("max_paths", 0, u32::MAX);
        o.set_max_paths(p);
        mp = sym_conc(p.min(n as u32 + 1) as u64) as usize;
    }
    let mut it = g.build();
    let t = match twiggy_analyze::paths(&mut it, &o) {
        Ok(t) => t,
        Err(_) => fail("paths returned an error"),
    };
    // selected items
    let mut sel: Vec<usize> = vec![];
    if list.is_empty() {
        for i in 0..n {
            if !desc || g.root[i] {
                sel.push(i);
            }
        }
    } else {
        for a in list {
            if let Some(i) = g.by_name(a) {
                sel.push(i);
            }
        }
    }
    let mut tops: Vec<Pn> = vec![];
    let fmt = match param("format", 3) {
        3 => choose("format", 3),
        f => f as usize,
    };
    // flat rows (depth, node) to trees
    fn tree(rows: &mut std::iter::Peekable<std::vec::IntoIter<(usize, Pn)>>, depth: usize) -> Vec<Pn> {
        let mut v = vec![];
        while let Some((d, _)) = rows.peek() {
            if *d < depth {
                break;
            }
            check(*d == depth, "indentation skips a level");
            let mut p = rows.next().unwrap().1;
            p.kids = tree(rows, depth + 1);
            v.push(p);
        }
        v
    }
    match fmt {
        0 => {
            let s = text(&t, &it);
            let t = table(&s);
            check(t.header == ["Shallow Bytes", "Shallow %", "Retaining Paths"], "header");
            let arrow = if desc { "↳ " } else { "⬑ " };
            let mut rows = vec![];
            for r in &t.rows {
                match r[2].find(arrow) {
                    Some(p) => {
                        check(p % 4 == 2, "indentation");
                        check(r[0].trim().is_empty() && r[1].trim().is_empty(), "sizes only on the selected items");
                        rows.push((1 + (p - 2) / 4, Pn { i: idx(&g, &r[2][p + arrow.len()..]), sh: None, shp: None, kids: vec![] }));
                    }
                    None => rows.push((0, Pn { i: idx(&g, &r[2]), sh: Some(int(&r[0])), shp: Some(pct(&r[1])), kids: vec![] })),
                }
            }
            let mut rows = rows.into_iter().peekable();
            tops = tree(&mut rows, 0);
        }
        1 => {
            let b = render(&t, &it, OutputFormat::Json);
            fn conv(o: &J, g: &Gr) -> Pn {
                check(o.keys() == ["name", "shallow_size", "shallow_size_percent", "callers"], "JSON fields");
                Pn {
                    i: idx(g, o.s("name")),
                    sh: Some(int(o.num("shallow_size"))),
                    shp: Some(flt(o.num("shallow_size_percent"))),
                    kids: o.f("callers").arr().iter().map(|c| conv(c, g)).collect(),
                }
            }
            for o in json(&b).arr() {
                tops.push(conv(o, &g));
            }
        }
        _ => {
            // CSV carries no depth: rebuild the walk from the Path field
            let b = render(&t, &it, OutputFormat::Csv);
            let c = csv_table(&b);
            let mut k = 0;
            fn conv(g: &Gr, c: &Csv, k: &mut usize, desc: bool, depth: usize, md: usize, mp: usize, chain: &mut Vec<usize>) -> Pn {
                if *k >= c.rows.len() {
                    fail("CSV record missing");
                }
                let r = *k;
                *k += 1;
                let i = idx(g, c.col(r, "Name"));
                check(!chain.contains(&i), "a chain visits an item twice");
                chain.push(i);
                let cand: Vec<usize> = (0..g.n).filter(|j| (if desc { g.adj[i][*j] } else { g.adj[*j][i] }) && !chain.contains(j)).collect();
                // Path: the referring items, then the item itself
                let path = c.col(r, "Path");
                if cand.is_empty() {
                    check(path.is_empty(), "CSV path of an item without references");
                } else {
                    let parts: Vec<&str> = path.split(" -> ").collect();
                    check(parts.len() == cand.len() + 1 && parts[cand.len()] == g.name[i], "CSV path");
                    for j in &cand {
                        check(parts[..cand.len()].contains(&g.name[*j].as_str()), "CSV path lacks a reference");
                    }
                }
                let want = if depth < md { cand.len().min(mp) } else { 0 };
                let mut kids = vec![];
                for _ in 0..want {
                    kids.push(conv(g, c, k, desc, depth + 1, md, mp, chain));
                }
                chain.pop();
                Pn { i, sh: Some(int(c.col(r, "ShallowSize"))), shp: Some(flt(c.col(r, "ShallowSizePercent"))), kids }
            }
            while k < c.rows.len() {
                tops.push(conv(&g, &c, &mut k, desc, 0, md, mp, &mut vec![]));
            }
        }
    }
    check(tops.len() == sel.len(), "number of selected items");
    for (k, p) in tops.iter().enumerate() {
        if list.is_empty() {
            check(sel.contains(&p.i) && !tops[..k].iter().any(|q| q.i == p.i), "selected items");
        } else {
            check(p.i == sel[k], "selected items");
        }
        check_paths(&g, p, desc, 0, md, mp, &mut vec![]);
    }
    reach("end");
}

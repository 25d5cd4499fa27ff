//! C16 monos, C17 diff, C18 item arguments.
use crate::reports::*;
use crate::sym::*;
use crate::util::*;
use twiggy_ir::*;

pub fn opt_from(v: &[&str]) -> twiggy_opt::Options {
    match <twiggy_opt::Options as structopt::StructOpt>::from_iter_safe(v.iter()) {
        Ok(o) => o,
        Err(_) => fail("options are rejected"),
    }
}
pub fn monos_opts(v: &[&str]) -> twiggy_opt::Monos {
    let mut a = vec!["twiggy", "monos"];
    a.extend(v);
    match opt_from(&a) {
        twiggy_opt::Options::Monos(m) => m,
        _ => fail("options of another command"),
    }
}
pub fn diff_opts(v: &[&str]) -> twiggy_opt::Diff {
    let mut a = vec!["twiggy", "diff", "old.wasm", "new.wasm"];
    a.extend(v);
    match opt_from(&a) {
        twiggy_opt::Options::Diff(m) => m,
        _ => fail("options of another command"),
    }
}

/// A decoded monos row: a generic with its instantiations (name, size, percentage).
struct Grp {
    name: String,
    bloat: u64,
    bloatp: f64,
    size: u64,
    sizep: f64,
    insts: Vec<(String, Option<u64>, Option<f64>)>,
}
/// The full set of arguments a limit can take: its value cut off at `cap`.
fn limit(name: &str, cap: usize) -> (u32, usize) {
    let l = u32_in(name, 0, u32::MAX);
    (l, sym_conc(l.min(cap as u32) as u64) as usize)
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c16() {
    let n = param("n", 3) as usize;
    let fmt = param("format", 0);
    let nm = param("names", 5) as usize;
    let mut g = Gr::sizes(n);
    let names = ["f<A>", "f<B>", "g<A>", "h", "f<A>"];
    let generic = ["f", "f", "g", "", ""];
    let mut gi = vec![""; n];
    for i in 0..n {
        let k = choose("name", nm);
        g.name[i] = names[k].to_string();
        // the last one is a data item that only looks like an instantiation
        g.kind[i] = if k == 4 { 1 } else { 0 };
        gi[i] = generic[k];
    }
    let only = param("only", 1) == 1 && flag("only_generics");
    let (mut mg, mut mm) = (10usize, 10usize);
    let mut o;
    if param("limits", 1) == 1 {
        o = monos_opts(&["in.wasm"]);
        let (a, b) = limit("max_generics", 3);
        o.set_max_generics(a);
        mg = b;
        let (a, b) = limit("max_monos", n + 1);
        o.set_max_monos(a);
        mm = b;
    } else {
        match choose("all", 4) {
            0 => o = monos_opts(&["in.wasm"]),
            1 => {
                o = monos_opts(&["in.wasm", "-m", "1", "-n", "1", "-a"]);
                mg = usize::MAX;
                mm = usize::MAX;
            }
            2 => {
                o = monos_opts(&["in.wasm", "-m", "1", "-n", "1", "--all-generics"]);
                mg = usize::MAX;
                mm = 1;
            }
            _ => {
                o = monos_opts(&["in.wasm", "-m", "1", "-n", "1", "--all-monos"]);
                mg = 1;
                mm = usize::MAX;
            }
        }
    }
    o.set_only_generics(only);
    let sel: fn(&str) -> bool = |_| true;
    let mut it = g.build();
    run_monos(&g, &gi, &mut it, &o, mg, mm, only, fmt, sel);
    reach("end");
}

fn run_monos(g: &Gr, gi: &[&str], it: &mut Items, o: &twiggy_opt::Monos, mg: usize, mm: usize, only: bool, fmt: u64, sel: fn(&str) -> bool) {
    let e = match twiggy_analyze::monos(it, o) {
        Ok(e) => e,
        Err(_) => fail("monos returned an error"),
    };
    let mut rows: Vec<Grp> = vec![];
    match fmt {
        0 => {
            let t = table(&text(&e, it));
            check(t.header == ["Apprx. Bloat Bytes", "Apprx. Bloat %", "Bytes", "%", "Monomorphizations"], "header");
            for r in &t.rows {
                if r[0].trim().is_empty() {
                    check(r[1].trim().is_empty(), "an instantiation has no bloat");
                    let nm = match r[4].strip_prefix("    ") {
                        Some(s) => s.to_string(),
                        None => fail("instantiation is not indented"),
                    };
                    match rows.last_mut() {
                        Some(p) => p.insts.push((nm, Some(int(&r[2])), Some(pct(&r[3])))),
                        None => fail("instantiation before any generic"),
                    }
                } else {
                    rows.push(Grp { name: r[4].clone(), bloat: int(&r[0]), bloatp: pct(&r[1]), size: int(&r[2]), sizep: pct(&r[3]), insts: vec![] });
                }
            }
        }
        1 => {
            let b = render(&e, it, OutputFormat::Json);
            for j in json(&b).arr() {
                check(
                    j.keys()
                        == [
                            "generic",
                            "approximate_monomorphization_bloat_bytes",
                            "approximate_monomorphization_bloat_percent",
                            "total_size",
                            "total_size_percent",
                            "monomorphizations",
                        ],
                    "JSON fields",
                );
                let mut p = Grp {
                    name: j.s("generic").to_string(),
                    bloat: int(j.num("approximate_monomorphization_bloat_bytes")),
                    bloatp: flt(j.num("approximate_monomorphization_bloat_percent")),
                    size: int(j.num("total_size")),
                    sizep: flt(j.num("total_size_percent")),
                    insts: vec![],
                };
                for k in j.f("monomorphizations").arr() {
                    check(k.keys() == ["name", "shallow_size", "shallow_size_percent"], "JSON fields");
                    p.insts.push((k.s("name").to_string(), Some(int(k.num("shallow_size"))), Some(flt(k.num("shallow_size_percent")))));
                }
                rows.push(p);
            }
        }
        _ => {
            let b = render(&e, it, OutputFormat::Csv);
            let c = csv_table(&b);
            for r in 0..c.rows.len() {
                let m = c.col(r, "Monomorphizations");
                rows.push(Grp {
                    name: c.col(r, "Generic").to_string(),
                    bloat: int(c.col(r, "ApproximateMonomorphizationBloatBytes")),
                    bloatp: flt(c.col(r, "ApproximateMonomorphizationBloatPercent")),
                    size: int(c.col(r, "TotalSize")),
                    sizep: flt(c.col(r, "TotalSizePercent")),
                    insts: if m.is_empty() { vec![] } else { m.split(", ").map(|s| (s.to_string(), None, None)).collect() },
                });
            }
        }
    }
    // the groups there are
    struct Want {
        name: &'static str,
        size: u32,
        bloat: u32,
        rows: usize,
    }
    let mut want: Vec<Want> = vec![];
    for name in ["f", "g"] {
        if !sel(name) {
            continue;
        }
        let m: Vec<u32> = (0..g.n).filter(|i| gi[*i] == name).map(|i| g.size[i]).collect();
        if m.is_empty() {
            continue;
        }
        let mut tot = 0u32;
        let mut max = 0u32;
        for s in &m {
            tot += *s;
            max = max.max(*s);
        }
        let k = m.len() as u32;
        let bloat = (tot - max).min(tot / k * (k - 1));
        let r = if only {
            0
        } else if m.len() > mm {
            mm + 1
        } else {
            m.len()
        };
        want.push(Want { name, size: tot, bloat, rows: 1 + r });
    }
    let shown = want.len().min(mg);
    let over = want.len() > mg;
    check(rows.len() == shown + over as usize + 1, "number of generic rows");
    let num = |p: &Grp, size: u32, bloat: u32| {
        check(p.size == size as u64, "total size of a row");
        check(p.bloat == bloat as u64, "bloat of a row");
        close(p.sizep, g.pct(size), "size percentage");
        close(p.bloatp, g.pct(bloat), "bloat percentage");
    };
    // the total row
    let (mut ts, mut tb, mut tr) = (0u32, 0u32, 0usize);
    for w in &want {
        ts += w.size;
        tb += w.bloat;
        tr += w.rows;
    }
    let last = rows.pop().unwrap();
    check(count_in(&last.name, "Σ [", " Total Rows]") == tr as u64, "count of the total row");
    num(&last, ts, tb);
    check(last.insts.is_empty(), "total row has no instantiations");
    let rem = if over { rows.pop() } else { None };
    let mut used: Vec<&str> = vec![];
    let mut prev: Option<u32> = None;
    for p in &rows {
        let w = match want.iter().find(|w| w.name == p.name) {
            Some(w) => w,
            None => fail("a row names no generic of the binary"),
        };
        check(!used.contains(&w.name), "a generic is listed twice");
        used.push(w.name);
        num(p, w.size, w.bloat);
        if let Some(b) = prev {
            check(b >= w.bloat, "generics are ordered by decreasing bloat");
        }
        prev = Some(w.bloat);
        // instantiations: by decreasing size
        let mut m: Vec<usize> = (0..g.n).filter(|i| gi[*i] == w.name).collect();
        for a in 1..m.len() {
            for b in (1..=a).rev() {
                if g.size[m[b]] > g.size[m[b - 1]] {
                    m.swap(b, b - 1);
                }
            }
        }
        let k = m.len();
        let show = if only { 0 } else { k.min(mm) };
        let more = !only && k > mm;
        check(p.insts.len() == show + more as usize, "number of instantiations");
        let mut left = m.clone();
        for x in 0..show {
            let (nm, sz, sp) = &p.insts[x];
            // any not yet shown instantiation of that name and size
            let want_sz = g.size[m[x]];
            match left.iter().position(|i| g.name[*i] == *nm && g.size[*i] == want_sz) {
                Some(q) => {
                    left.remove(q);
                }
                None => fail("instantiations are listed by decreasing size"),
            }
            if let Some(sz) = sz {
                check(*sz == want_sz as u64, "size of an instantiation");
                close(sp.unwrap(), g.pct(want_sz), "percentage of an instantiation");
            }
        }
        if more {
            let (nm, sz, sp) = &p.insts[show];
            check(count_in(nm, "... and ", " more.") == (k - show) as u64, "remainder row counts the instantiations left out");
            let mut s = 0u32;
            for i in &m[show..] {
                s += g.size[*i];
            }
            if let Some(sz) = sz {
                check(*sz == s as u64, "remainder row sums the instantiations left out");
                close(sp.unwrap(), g.pct(s), "percentage of the remainder");
            }
        }
    }
    let (mut rs, mut rb, mut rr) = (0u32, 0u32, 0usize);
    for w in &want {
        if !used.contains(&w.name) {
            rs += w.size;
            rb += w.bloat;
            rr += w.rows;
            if let Some(b) = prev {
                check(b >= w.bloat, "generics are ordered by decreasing bloat");
            }
        }
    }
    if let Some(p) = rem {
        check(count_in(&p.name, "... and ", " more.") == rr as u64, "remainder row counts what is left");
        num(&p, rs, rb);
    }
}

// ---------------------------------------------------------------- diff
fn side(n: usize, tag: &str) -> (Gr, Vec<usize>) {
    let mut g = Gr::sizes(n);
    let names = ["a", "b", "c"];
    let mut v = vec![];
    for i in 0..n {
        let k = choose(tag, 3);
        g.name[i] = names[k].to_string();
        v.push(k);
    }
    (g, v)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c17() {
    let (o, on) = side(param("old", 2) as usize, "old");
    let (w, wn) = side(param("new", 2) as usize, "new");
    let fmt = param("format", 0);
    let mut sel = [true; 3];
    let mut args: Vec<&str> = vec![];
    let mut regex = false;
    match choose("args", param("args", 4) as usize) {
        0 => {}
        1 => {
            args = vec!["b"];
            sel = [false, true, false];
        }
        2 => {
            args = vec!["c", "nope", "a"];
            sel = [true, false, true];
        }
        _ => {
            args = vec!["^a", "zz", "c$"];
            regex = true;
            sel = [true, false, true];
        }
    }
    let with = !args.is_empty();
    let mut opts = diff_opts(&args);
    opts.set_using_regexps(regex);
    let mut lim = 20usize;
    if param("limits", 1) == 1 {
        let (a, b) = limit("max_items", 4);
        opts.set_max_items(a);
        lim = b;
    } else if flag("all") {
        args.extend(["-n", "0", "-a"]);
        opts = diff_opts(&args);
        opts.set_using_regexps(regex);
        lim = usize::MAX;
    }
    let (mut oi, mut wi) = (o.build(), w.build());
    let e = match twiggy_analyze::diff(&mut oi, &mut wi, &opts) {
        Ok(e) => e,
        Err(_) => fail("diff returned an error"),
    };
    // the changes there are
    let names = ["a", "b", "c"];
    let mut want: Vec<(&str, i64)> = vec![];
    let mut sum = 0i64;
    for k in 0..3 {
        if !sel[k] {
            continue;
        }
        let mut d = 0i64;
        for i in 0..w.n {
            if wn[i] == k {
                d += w.size[i] as i64;
            }
        }
        for i in 0..o.n {
            if on[i] == k {
                d -= o.size[i] as i64;
            }
        }
        sum += d;
        if d != 0 {
            want.push((names[k], d));
        }
    }
    for a in 1..want.len() {
        for b in (1..=a).rev() {
            if want[b].1.abs() > want[b - 1].1.abs() {
                want.swap(b, b - 1);
            }
        }
    }
    let total = if with { sum } else { w.total as i64 - o.total as i64 };
    let shown = want.len().min(lim);
    let mut rest = 0i64;
    for x in &want[shown..] {
        rest += x.1;
    }
    let n = shown + (want.len() > shown) as usize + 1;
    let expect = |k: usize, name: &str| -> i64 {
        if k < shown {
            check(name == want[k].0, "rows are ordered by decreasing magnitude, then name");
            want[k].1
        } else if k + 1 < n {
            check(count_in(name, "... and ", " more.") == (want.len() - shown) as u64, "remainder row counts what is left");
            rest
        } else {
            check(count_in(name, "Σ [", " Total Rows]") == want.len() as u64, "total row counts the changed names");
            total
        }
    };
    match fmt {
        0 => {
            let t = table(&text(&e, &wi));
            check(t.header == ["Delta Bytes", "Item"], "header");
            check(t.rows.len() == n, "number of rows");
            for (k, r) in t.rows.iter().enumerate() {
                let v = expect(k, &r[1]);
                check(sint(&r[0]) == v, "delta of a row");
                check(r[0].trim().starts_with(if v < 0 { '-' } else { '+' }), "sign of a row");
            }
        }
        1 => {
            let b = render(&e, &wi, OutputFormat::Json);
            let j = json(&b);
            check(j.arr().len() == n, "number of rows");
            for (k, x) in j.arr().iter().enumerate() {
                check(x.keys() == ["delta_bytes", "name"], "JSON fields");
                close(flt(x.num("delta_bytes")), expect(k, x.s("name")) as f64, "delta of a row");
            }
        }
        _ => {
            let b = render(&e, &wi, OutputFormat::Csv);
            let c = csv_table(&b);
            check(c.header == ["DeltaBytes", "Item"], "CSV header");
            check(c.rows.len() == n, "number of rows");
            for k in 0..n {
                check(sint(c.col(k, "DeltaBytes")) == expect(k, c.col(k, "Item")), "delta of a row");
            }
        }
    }
    reach("end");
}

// ---------------------------------------------------------------- item arguments
/// The items (of names a, ab, b, b or x<T>) whose rows a report shows at the top level, for exact and regex arguments.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c18() {
    let n = param("n", 3) as usize;
    let cmd = param("cmd", 0);
    // no expression below matches the meta root's name
    let pool = ["b", "bc", "c("];
    let mut g = Gr::sizes_lo(n, 1);
    for i in 0..n {
        g.name[i] = pool[choose("name", 3)].to_string();
        g.root[i] = true;
    }
    let (args, regex, pick): (&[&str], bool, fn(&str) -> bool) = match choose("args", 7) {
        0 => (&["b"], false, |s| s == "b"),
        1 => (&["bc", "b"], false, |s| s == "b" || s == "bc"),
        2 => (&["c("], false, |s| s == "c("),
        3 => (&["b.*", "nope"], false, |_| false),
        4 => (&["b"], true, |s| s == "b" || s == "bc"),
        5 => (&["^b$", "^c"], true, |s| s == "b" || s == "c("),
        _ => (&["c("], true, |_| false),
    };
    let bad = regex && args[0] == "c(";
    let mut it = g.build();
    let mut want = vec![0usize; 3];
    for i in 0..n {
        if pick(&g.name[i]) {
            want[pool.iter().position(|p| *p == g.name[i]).unwrap()] += 1;
        }
    }
    let e = match cmd {
        0 => twiggy_analyze::paths(&mut it, &paths_opts(args, flag("descending"), regex)),
        _ => twiggy_analyze::dominators(&mut it, &dominators_opts(args, None, None, regex)),
    };
    let e = match e {
        Ok(e) => e,
        Err(_) => {
            check(bad, "the report fails");
            reach("end");
            return;
        }
    };
    check(!bad, "an invalid expression is an error");
    let mut rows: Vec<String> = vec![];
    match param("format", 0) {
        0 => {
            let t = table(&text(&e, &it));
            for r in &t.rows {
                // dominators' and paths' nested rows carry an arrow; here nothing is nested
                let c = r.last().unwrap();
                rows.push(c.clone());
            }
        }
        1 => {
            let b = render(&e, &it, OutputFormat::Json);
            let j = json(&b);
            let a = if cmd == 0 { j.arr() } else { j.f("items").arr() };
            for x in a {
                rows.push(x.s("name").to_string());
            }
        }
        _ => {
            let b = render(&e, &it, OutputFormat::Csv);
            let c = csv_table(&b);
            for k in 0..c.rows.len() {
                rows.push(c.col(k, "Name").to_string());
            }
        }
    }
    let mut got = vec![0usize; 3];
    for r in &rows {
        match pool.iter().position(|p| p == r) {
            Some(k) => got[k] += 1,
            None => fail("a row that names no item"),
        }
    }
    check(got == want, "the report covers exactly the selected items");
    reach("end");
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c18_monos() {
    let n = param("n", 3) as usize;
    let fmt = param("format", 0);
    let mut g = Gr::sizes(n);
    let names = ["f<A>", "g<A>"];
    let mut gi = vec![""; n];
    for i in 0..n {
        let k = choose("name", 2);
        g.name[i] = names[k].to_string();
        g.kind[i] = 0;
        gi[i] = ["f", "g"][k];
    }
    let (args, regex, pick): (&[&str], bool, fn(&str) -> bool) = match choose("args", 7) {
        0 => (&["f"], false, |s| s == "f"),
        1 => (&["g", "f"], false, |_| true),
        2 => (&["f("], false, |_| false),
        3 => (&["f|g", "nope"], false, |_| false),
        4 => (&["f|g"], true, |_| true),
        5 => (&["nope", "^.$"], true, |_| true),
        _ => (&["f", "("], true, |_| false),
    };
    let mut a = vec!["in.wasm"];
    a.extend(args);
    if regex {
        a.push("--regex");
    }
    let o = monos_opts(&a);
    let mut it = g.build();
    if regex && args.len() == 2 && args[1] == "(" {
        check(twiggy_analyze::monos(&mut it, &o).is_err(), "an invalid expression is an error");
        reach("end");
        return;
    }
    run_monos(&g, &gi, &mut it, &o, 10, 10, false, fmt, pick);
    reach("end");
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c18_diff() {
    let g = Gr::sizes(1);
    let h = Gr::sizes(1);
    let o = diff_opts(&["n0", "(", "--regex"]);
    let (mut a, mut b) = (g.build(), h.build());
    check(twiggy_analyze::diff(&mut a, &mut b, &o).is_err(), "an invalid expression is an error");
    let o = diff_opts(&["(", "["]);
    match twiggy_analyze::diff(&mut a, &mut b, &o) {
        Ok(e) => check(table(&text(&e, &b)).rows.len() == 1, "an unknown name selects nothing"),
        Err(_) => fail("diff returned an error"),
    }
    reach("end");
}

//! C26: the JavaScript API, on the options as it has them, against the command's reports.
use crate::sym::*;
use crate::util::*;
use structopt::StructOpt;
use twiggy_ir as ir;
use twiggy_opt_api as js;

#[path = "."]
mod api {
    include!(concat!(env!("OUT_DIR"), "/api.rs"));
}

/// The API's items from an item graph (its only other constructor parses a module).
fn wrap(items: ir::Items) -> api::Items {
    if std::mem::size_of::<api::Items>() != std::mem::size_of::<ir::Items>() {
        fail("the API's items are not just the items");
    }
    let mut items = std::mem::ManuallyDrop::new(items);
    unsafe { std::mem::transmute_copy::<ir::Items, api::Items>(&mut items) }
}

/// Equal up to numbers that are written as tokens, whose values have to be equal.
fn same(a: &[u8], b: &[u8]) {
    let (mut i, mut j) = (0, 0);
    let number = |s: &[u8], i: usize| s[i] == b'@' && i + 6 <= s.len() && (s[i + 1] == b'T' || s[i + 1] == b'F');
    loop {
        if i == a.len() || j == b.len() {
            check(i == a.len() && j == b.len(), "one report is longer");
            return;
        }
        if number(a, i) && number(b, j) {
            check(a[i + 1] == b[j + 1], "a number is of another kind");
            let v = |s: &[u8]| unsafe { std::str::from_utf8_unchecked(s) }.trim_start_matches("@T").trim_start_matches("@F").parse::<u32>().unwrap_or(0);
            check(sym_token_val(v(&a[i..i + 6])) == sym_token_val(v(&b[j..j + 6])), "a number differs");
            i += 6;
            j += 6;
        } else {
            check(a[i] == b[j], "the API's report is the command's");
            i += 1;
            j += 1;
        }
    }
}

fn sample(n: usize, k: usize, mode: u64) -> Gr {
    let mut g = Gr::sizes(n);
    g.name = (0..n).map(|i| ["f<A>", "f<B>", "g", "d"][(i + k) % 4].to_string()).collect();
    g.kind = vec![0; n];
    if mode < 9 {
        g.edges(mode);
    } else {
        g.root = vec![true; n];
    }
    g
}

/// cmd: the report; parse: over a parsed module
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c26() {
    use twiggy_opt::Options::*;
    let cmd = param("cmd", 0) as usize;
    let n = param("n", 2) as usize;
    let parsed = param("parse", 0) > 0;
    let mode = param("mode", if cmd == 3 || cmd == 4 { 9 } else { 0 });
    let (mut x, mut y, mut ours, mut ours_new);
    if parsed {
        let a = crate::cli::module(false);
        let b = crate::cli::module(true);
        let (a, b) = if flag("exchanged") { (b, a) } else { (a, b) };
        x = api::Items::parse(&a);
        y = api::Items::parse(&b);
        ours = twiggy_parser::parse(&a).unwrap();
        ours_new = twiggy_parser::parse(&b).unwrap();
    } else {
        let g = sample(n, 0, mode);
        x = wrap(g.build());
        ours = g.build();
        if cmd == 4 {
            let g = sample(n, 1, mode);
            y = wrap(g.build());
            ours_new = g.build();
        } else {
            y = wrap(g.build());
            ours_new = g.build();
        }
    }
    let args: &[&str] = [&["twiggy", "top", "in.wasm"][..], &["twiggy", "dominators", "in.wasm"], &["twiggy", "paths", "in.wasm"], &["twiggy", "monos", "in.wasm"], &["twiggy", "diff", "in.wasm", "new.wasm"]][cmd];
    let mut o = match twiggy_opt::Options::from_iter_safe(args.iter()) {
        Ok(o) => o,
        Err(_) => fail("the command's options are accepted"),
    };
    let limit = |t: &str| if flag(&format!("{} given", t)) { Some(u32_in(t, 0, u32::MAX)) } else { None };
    let switch = |t: &str| if flag(&format!("{} given", t)) { Some(flag(t)) } else { None };
    let times = 1 + choose("times", param("times", 2) as usize);
    macro_rules! set {
        ($($v:expr => $a:expr, $b:expr, $f:ident;)*) => { $(if let Some(v) = $v { $a.$f(v); $b.$f(v); })* };
    }
    let mut got = String::new();
    let want = match &mut o {
        Top(c) => {
            let mut j = js::Top::new();
            set! { limit("items") => c, j, set_max_items; switch("retained") => c, j, set_retained; }
            for _ in 0..times {
                got = x.top(&j);
            }
            twiggy_analyze::top(&mut ours, c)
        }
        Dominators(c) => {
            let mut j = js::Dominators::new();
            set! { limit("depth") => c, j, set_max_depth; limit("rows") => c, j, set_max_rows; switch("regex") => c, j, set_using_regexps; }
            for _ in 0..times {
                got = x.dominators(&j);
            }
            twiggy_analyze::dominators(&mut ours, c)
        }
        Paths(c) => {
            let mut j = js::Paths::new();
            set! { limit("depth") => c, j, set_max_depth; limit("paths") => c, j, set_max_paths; switch("descending") => c, j, set_descending; switch("regex") => c, j, set_using_regexps; }
            for t in ["g", "f<A>"].iter() {
                if flag("function") {
                    c.add_function(t.to_string());
                    j.add_function(t.to_string());
                }
            }
            for _ in 0..times {
                got = x.paths(&j);
            }
            twiggy_analyze::paths(&mut ours, c)
        }
        Monos(c) => {
            let mut j = js::Monos::new();
            set! { switch("generics") => c, j, set_only_generics; limit("generics") => c, j, set_max_generics; limit("monos") => c, j, set_max_monos; }
            for _ in 0..times {
                got = x.monos(&j);
            }
            twiggy_analyze::monos(&mut ours, c)
        }
        Diff(c) => {
            let mut j = js::Diff::default();
            set! { limit("items") => c, j, set_max_items; switch("regex") => c, j, set_using_regexps; }
            for _ in 0..times {
                got = x.diff(&mut y, &j);
            }
            twiggy_analyze::diff(&mut ours, &mut ours_new, c)
        }
        Garbage(_) => fail("the API has no garbage report"),
    };
    let want = match want {
        Ok(e) => render(&e, &ours, OutputFormat::Json),
        Err(_) => fail("the command's report fails"),
    };
    same(got.as_bytes(), &want);
    reach("end");
}

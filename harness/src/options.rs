//! C24: options on the command line and through the setters.
use crate::sym::*;
use structopt::StructOpt;
use twiggy_opt::*;
use twiggy_traits::{OutputFormat, ParseMode};

/// What a command is told, in the order of the table below.
struct Told {
    nums: Vec<Option<u64>>,
    flags: Vec<bool>,
    words: Vec<String>,
    mode: Option<usize>,
    format: Option<usize>,
    out: Option<usize>,
    bad: bool,
}
/// numeric options with their defaults and flags: (short, long)
type Num = (&'static str, &'static str, u32);
const MAX: u32 = u32::MAX;
fn table(cmd: usize) -> (&'static str, &'static [Num], &'static [(&'static str, &'static str)], bool) {
    match cmd {
        0 => ("top", &[("-n", "", MAX)], &[("-r", "--retaining-paths"), ("", "--retained")], false),
        1 => ("dominators", &[("-d", "", MAX), ("-r", "", MAX)], &[("", "--regex")], true),
        2 => ("paths", &[("-d", "", 10), ("-r", "", 10)], &[("", "--descending"), ("", "--regex")], true),
        3 => ("monos", &[("-m", "--max-generics", 10), ("-n", "--max-monos", 10)], &[("-g", "--only-generics"), ("-a", "--all"), ("", "--all-generics"), ("", "--all-monos"), ("", "--regex")], true),
        4 => ("garbage", &[("-n", "", 10)], &[("-a", "--all"), ("", "--show-data-segments")], false),
        _ => ("diff", &[("-n", "", 20)], &[("", "--regex"), ("-a", "--all")], true),
    }
}

/// The number a string denotes.
fn number(s: &[u8]) -> Option<u64> {
    let d = if s.len() > 1 && s[0] == b'+' { &s[1..] } else { s };
    let mut v = 0u64;
    let mut ok = !d.is_empty();
    for c in d {
        ok = crate::util::both(ok, crate::util::both(*c >= b'0', *c <= b'9'));
        v = v.wrapping_mul(10).wrapping_add(u64::from(c.wrapping_sub(b'0')));
    }
    if ok && v <= u64::from(u32::MAX) {
        Some(v)
    } else {
        None
    }
}

fn value(t: &str) -> Vec<u8> {
    match param("values", 0) {
        // three arbitrary characters
        0 => (0..1 + choose(&format!("{} length", t), param("len", 2) as usize)).map(|i| u8_in(&format!("{} char {}", t, i), 0x21, 0x7e)).collect(),
        // around the limit
        1 => {
            let mut v = b"4294967".to_vec();
            for i in 0..3 {
                v.push(u8_in(&format!("{} digit {}", t, i), b'0', b'9'));
            }
            if flag(&format!("{} longer", t)) {
                v.insert(0, u8_in(&format!("{} first", t), b'0', b'9'));
            }
            v
        }
        // any number of a few digits
        _ => (0..2).map(|i| u8_in(&format!("{} digit {}", t, i), b'0', b'9')).collect(),
    }
}

fn given(o: &Options, cmd: usize, t: &Told) {
    let (_, nums, _, _) = table(cmd);
    let n = |k: usize| t.nums[k].unwrap_or(u64::from(nums[k].2)) as u32;
    let f = |k: usize| t.flags[k];
    let all = |a: bool, v: u32| if a { MAX } else { v };
    let words = |w: &[String]| check(w == &t.words[..], "the arguments are the ones given");
    match o {
        Options::Top(x) if cmd == 0 => {
            check(x.max_items() == n(0), "-n is the number of items of top");
            check(x.retaining_paths() == f(0), "top's retaining paths");
            check(x.retained() == f(1), "top's retained sizes");
        }
        Options::Dominators(x) if cmd == 1 => {
            check(x.max_depth() == n(0), "-d is the depth of dominators");
            check(x.max_rows() == n(1), "-r is the number of rows of dominators");
            check(x.using_regexps() == f(0), "dominators' regular expressions");
            words(x.items());
        }
        Options::Paths(x) if cmd == 2 => {
            check(x.max_depth() == n(0), "-d is the depth of paths");
            check(x.max_paths() == n(1), "-r is the number of paths");
            check(x.descending() == f(0), "paths' direction");
            check(x.using_regexps() == f(1), "paths' regular expressions");
            words(x.functions());
        }
        Options::Monos(x) if cmd == 3 => {
            check(x.only_generics() == f(0), "monos' generics only");
            check(x.max_generics() == all(f(1) || f(2), n(0)), "the number of generics of monos");
            check(x.max_monos() == all(f(1) || f(3), n(1)), "the number of instantiations of monos");
            check(x.using_regexps() == f(4), "monos' regular expressions");
            words(x.functions());
        }
        Options::Garbage(x) if cmd == 4 => {
            check(x.max_items() == all(f(0), n(0)), "the number of items of garbage");
            check(x.show_data_segments() == f(1), "garbage's data segments");
        }
        Options::Diff(x) if cmd == 5 => {
            check(x.max_items() == all(f(1), n(0)), "the number of items of diff");
            check(x.using_regexps() == f(0), "diff's regular expressions");
            check(x.new_input() == std::path::Path::new("new.wasm"), "diff's new input");
            words(x.items());
        }
        _ => fail("the command is the one given"),
    }
    check(o.input() == std::path::Path::new("in.wasm"), "the input is the one given");
    let mode = match o.parse_mode() {
        ParseMode::Auto => 0,
        ParseMode::Wasm => 1,
        ParseMode::Dwarf => 2,
    };
    check(mode == t.mode.unwrap_or(0), "the mode is the one given");
    let format = match o.output_format() {
        OutputFormat::Text => 0,
        OutputFormat::Json => 1,
        OutputFormat::Csv => 2,
    };
    check(format == t.format.unwrap_or(0), "the format is the one given");
    match o.output_destination() {
        OutputDestination::Stdout => check(t.out.unwrap_or(0) == 0, "standard output is the destination unless a file is given"),
        OutputDestination::Path(p) => check(t.out == Some(1) && p == std::path::Path::new("o.txt"), "the destination is the file given"),
    }
}

/// what 0: numbers; 1: the options of every command; 2: modes and formats
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c24() {
    let cmd = param("cmd", 0) as usize;
    let what = param("what", 0);
    let (name, nums, flags, many) = table(cmd);
    let mut t = Told { nums: vec![None; nums.len()], flags: vec![false; flags.len()], words: vec![], mode: None, format: None, out: None, bad: false };
    let mut opts: Vec<String> = vec![];
    let text = |v: Vec<u8>| String::from_utf8(v).unwrap();
    for (k, (s, l, _)) in nums.iter().enumerate() {
        let how = if what == 2 { 0 } else { choose(&format!("form of {}", s), if l.is_empty() { 3 } else { 5 }) };
        if how == 0 {
            continue;
        }
        let v = if what == 0 { value(s) } else { (0..1).map(|_| u8_in(&format!("digit of {}", s), b'0', b'9')).collect() };
        t.nums[k] = number(&v);
        let v0 = v[0];
        // (what starts with a dash is an option of its own, and a value stuck to its option may start with an
        // equals sign)
        assume(v0 != b'-' && (how == 1 || how == 3 || v0 != b'='));
        if t.nums[k].is_none() {
            t.bad = true;
        }
        match how {
            1 => opts.extend([s.to_string(), text(v)]),
            2 => opts.push(format!("{}{}", s, text(v))),
            3 => opts.extend([l.to_string(), text(v)]),
            _ => opts.push(format!("{}={}", l, text(v))),
        }
    }
    if what != 0 || param("flags", 0) > 0 {
        for (k, (s, l)) in flags.iter().enumerate() {
            match if what == 2 { 0 } else { choose(&format!("form of {}", l), if s.is_empty() { 2 } else { 3 }) } {
                1 => {
                    opts.push(l.to_string());
                    t.flags[k] = true;
                }
                2 => {
                    opts.push(s.to_string());
                    t.flags[k] = true;
                }
                _ => {}
            }
        }
    }
    if what == 2 {
        match choose("mode", 6) {
            0 => {}
            5 => {
                let mut w = b"auto".to_vec();
                let i = choose("mode changed", 4);
                w[i] = u8_in("mode character", 0x21, 0x7e);
                assume(w[0] != b'-');
                t.bad = &w[..] != b"auto";
                t.mode = Some(0);
                opts.extend(["--mode".to_string(), text(w)]);
            }
            k => {
                let w = ["auto", "wasm", "dwarf", "elf"][k - 1];
                t.mode = Some(k - 1);
                t.bad = k == 4;
                if cmd == 3 && flag("short") {
                    opts.extend(["-d".to_string(), w.to_string()]);
                } else {
                    opts.extend(["--mode".to_string(), w.to_string()]);
                }
            }
        }
        match choose("format", 6) {
            0 => {}
            5 => {
                let k = choose("format near", 3);
                let right: &[u8] = [&b"text"[..], b"json", b"csv"][k];
                let mut w = right.to_vec();
                let n = w.len();
                w[choose("format changed", n)] = u8_in("format character", 0x21, 0x7e);
                assume(w[0] != b'-');
                t.bad |= w != right;
                t.format = Some(k);
                opts.extend(["-f".to_string(), text(w)]);
            }
            k => {
                let w = ["text", "json", "csv", "html"][k - 1];
                t.format = Some(k - 1);
                t.bad |= k == 4;
                if flag("long") {
                    opts.push(format!("--format={}", w));
                } else {
                    opts.extend(["-f".to_string(), w.to_string()]);
                }
            }
        }
        t.out = [None, Some(0), Some(1)][choose("output", 3)];
        if let Some(o) = t.out {
            opts.extend(["-o".to_string(), ["-", "o.txt"][o].to_string()]);
        }
    }
    let mut pos = vec!["in.wasm".to_string()];
    if cmd == 5 {
        pos.push("new.wasm".to_string());
    }
    if many && what == 1 {
        for k in 0..choose("arguments", 3) {
            let w = format!("a{}", k);
            t.words.push(w.clone());
            pos.push(w);
        }
    }
    let mut args = vec!["twiggy".to_string(), name.to_string()];
    if flag("options first") {
        args.extend(opts);
        args.extend(pos);
    } else {
        args.extend(pos);
        args.extend(opts);
    }
    match Options::from_iter_safe(args) {
        Err(_) => {
            check(t.bad, "options that are valid are accepted");
            reach("refused");
        }
        Ok(o) => {
            check(!t.bad, "options that are invalid are refused");
            given(&o, cmd, &t);
            reach("accepted");
        }
    }
    reach("end");
}

/// Any sequence of setter calls.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c24_setters() {
    let cmd = param("cmd", 0) as usize;
    let steps = param("steps", 3);
    let (name, nums, flags, _) = table(cmd);
    let fresh = cmd != 5 && flag("new");
    let mut t = Told { nums: nums.iter().map(|n| Some(u64::from(n.2))).collect(), flags: vec![false; flags.len()], words: vec![], mode: None, format: None, out: None, bad: false };
    let mut args = vec!["twiggy", name, "in.wasm"];
    if cmd == 5 {
        args.push("new.wasm");
    }
    if !fresh {
        for (k, (_, l)) in flags.iter().enumerate() {
            if flag(l) {
                args.push(l);
                t.flags[k] = true;
            }
        }
    }
    let mut o = if fresh {
        match cmd {
            0 => Options::Top(Top::new()),
            1 => Options::Dominators(Dominators::new()),
            2 => Options::Paths(Paths::new()),
            3 => Options::Monos(Monos::new()),
            _ => Options::Garbage(Garbage::new()),
        }
    } else {
        match Options::from_iter_safe(args) {
            Ok(o) => o,
            Err(_) => fail("options that are valid are accepted"),
        }
    };
    for i in 0..steps {
        let v = || u32_in(&format!("value {}", i), 0, MAX);
        let b = || flag(&format!("switch {}", i));
        let step = |n: usize| choose(&format!("step {}", i), n);
        match &mut o {
            Options::Top(x) => match step(3) {
                0 => {
                    let n = v();
                    x.set_max_items(n);
                    t.nums[0] = Some(u64::from(n));
                }
                1 => {
                    let f = b();
                    x.set_retaining_paths(f);
                    t.flags[0] = f;
                }
                _ => {
                    let f = b();
                    x.set_retained(f);
                    t.flags[1] = f;
                }
            },
            Options::Dominators(x) => match step(3) {
                0 => {
                    let n = v();
                    x.set_max_depth(n);
                    t.nums[0] = Some(u64::from(n));
                }
                1 => {
                    let n = v();
                    x.set_max_rows(n);
                    t.nums[1] = Some(u64::from(n));
                }
                _ => {
                    let f = b();
                    x.set_using_regexps(f);
                    t.flags[0] = f;
                }
            },
            Options::Paths(x) => match step(5) {
                0 => {
                    let n = v();
                    x.set_max_depth(n);
                    t.nums[0] = Some(u64::from(n));
                }
                1 => {
                    let n = v();
                    x.set_max_paths(n);
                    t.nums[1] = Some(u64::from(n));
                }
                2 => {
                    let f = b();
                    x.set_descending(f);
                    t.flags[0] = f;
                }
                3 => {
                    let f = b();
                    x.set_using_regexps(f);
                    t.flags[1] = f;
                }
                _ => {
                    x.add_function(format!("f{}", i));
                    t.words.push(format!("f{}", i));
                }
            },
            Options::Monos(x) => match step(3) {
                0 => {
                    let f = b();
                    x.set_only_generics(f);
                    t.flags[0] = f;
                }
                1 => {
                    let n = v();
                    x.set_max_generics(n);
                    t.nums[0] = Some(u64::from(n));
                    t.flags[3] |= t.flags[1];
                    t.flags[1] = false;
                    t.flags[2] = false;
                }
                _ => {
                    let n = v();
                    x.set_max_monos(n);
                    t.nums[1] = Some(u64::from(n));
                    t.flags[2] |= t.flags[1];
                    t.flags[1] = false;
                    t.flags[3] = false;
                }
            },
            Options::Garbage(x) => {
                let n = v();
                x.set_max_items(n);
                t.nums[0] = Some(u64::from(n));
                t.flags[0] = false;
            }
            Options::Diff(x) => match step(2) {
                0 => {
                    let n = v();
                    x.set_max_items(n);
                    t.nums[0] = Some(u64::from(n));
                    t.flags[1] = false;
                }
                _ => {
                    let f = b();
                    x.set_using_regexps(f);
                    t.flags[0] = f;
                }
            },
        }
        if fresh {
            limits(&o, &t);
        } else {
            given(&o, cmd, &t);
        }
    }
    if steps == 0 || fresh {
        limits(&o, &t);
    }
    reach("end");
}
/// As `given`, for options without an input.
fn limits(o: &Options, t: &Told) {
    check(o.input() == std::path::Path::new(""), "new options have no input");
    match o {
        Options::Top(x) => check(u64::from(x.max_items()) == t.nums[0].unwrap() && x.retaining_paths() == t.flags[0] && x.retained() == t.flags[1], "top's options are the ones set"),
        Options::Dominators(x) => check(
            u64::from(x.max_depth()) == t.nums[0].unwrap() && u64::from(x.max_rows()) == t.nums[1].unwrap() && x.using_regexps() == t.flags[0] && x.items().is_empty(),
            "dominators' options are the ones set",
        ),
        Options::Paths(x) => check(
            u64::from(x.max_depth()) == t.nums[0].unwrap() && u64::from(x.max_paths()) == t.nums[1].unwrap() && x.descending() == t.flags[0] && x.using_regexps() == t.flags[1] && x.functions() == &t.words[..],
            "paths' options are the ones set",
        ),
        Options::Monos(x) => check(
            u64::from(x.max_generics()) == t.nums[0].unwrap() && u64::from(x.max_monos()) == t.nums[1].unwrap() && x.only_generics() == t.flags[0] && !x.using_regexps() && x.functions().is_empty(),
            "monos' options are the ones set",
        ),
        Options::Garbage(x) => check(u64::from(x.max_items()) == t.nums[0].unwrap() && !x.show_data_segments(), "garbage's options are the ones set"),
        Options::Diff(_) => {}
    }
}

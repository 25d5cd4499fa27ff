//! C23: the whole command, run on a file system with faults. C06: which parser an input goes to.
use crate::sim::*;
use crate::sym::*;
use crate::wasm2::{section, HEAD};
use std::process::ExitCode;
use structopt::StructOpt;
use twiggy_analyze as an;
use twiggy_opt::CommonCliOptions;

mod command {
    include!(concat!(env!("OUT_DIR"), "/cli.rs"));
    pub fn go() -> super::ExitCode {
        std::process::Termination::report(main())
    }
}

pub fn module(second: bool) -> Vec<u8> {
    let mut o = HEAD.to_vec();
    section(&mut o, 1, &[1, 0x60, 0, 0]);
    section(&mut o, 3, &[2, 0, 0]);
    section(&mut o, 7, &[1, 1, b'a', 0, 0]);
    if second {
        section(&mut o, 10, &[2, 4, 0, 0x01, 0x01, 0x0b, 3, 0, 0x01, 0x0b]);
    } else {
        section(&mut o, 10, &[2, 4, 0, 0x10, 1, 0x0b, 2, 0, 0x0b]);
    }
    // a name that no buffer can hold
    let big = param("big", 0) as usize;
    if big > 0 {
        let name = crate::wasm::string(&"x".repeat(big));
        let mut b = crate::wasm::string("name");
        b.push(1);
        b.extend(crate::wasm::leb(name.len() as u64 + 2, 0));
        b.extend([1, 1]);
        b.extend(name);
        section(&mut o, 0, &b);
    }
    o
}

struct Case {
    args: Vec<&'static [u8]>,
    old: Vec<u8>,
    new: Vec<u8>,
    to_file: bool,
    bad: bool,
    expect: Option<Vec<u8>>,
}
static mut CASE: Option<Case> = None;

/// The report the library computes for these arguments and contents.
fn report(c: &Case) -> Option<Vec<u8>> {
    let a: Vec<&str> = c.args.iter().map(|x| std::str::from_utf8(x).unwrap()).collect();
    let o = match twiggy_opt::Options::from_iter_safe(a) {
        Ok(o) => o,
        Err(_) => return None,
    };
    let mut items = match twiggy_parser::parse(&c.old) {
        Ok(i) => i,
        Err(_) => return None,
    };
    use twiggy_opt::Options::*;
    let e = match &o {
        Top(x) => an::top(&mut items, x),
        Dominators(x) => an::dominators(&mut items, x),
        Paths(x) => an::paths(&mut items, x),
        Monos(x) => an::monos(&mut items, x),
        Garbage(x) => an::garbage(&items, x),
        Diff(x) => {
            let mut n = match twiggy_parser::parse(&c.new) {
                Ok(i) => i,
                Err(_) => return None,
            };
            an::diff(&mut items, &mut n, x)
        }
    };
    let mut v = vec![];
    e.ok()?.emit(&items, &mut v, o.output_format()).ok()?;
    Some(v)
}

#[allow(static_mut_refs)]
fn judge(code: std::ffi::c_int) {
    let s = sim();
    let c = unsafe { CASE.as_ref().unwrap() };
    let fault = s.read_failed || s.write_failed || c.bad || (c.to_file && s.unwritable);
    if code == 0 {
        check(!fault, "a run that could not read its input, understand its options or write its report does not succeed");
        let e = match &c.expect {
            Some(e) => e,
            None => fail("a run succeeds only on input that can be parsed"),
        };
        let none: &[u8] = b"";
        let file = s.written.iter().find(|w| w.0 == b"out").map(|w| &w.1[..]);
        if c.to_file {
            check(file == Some(&e[..]), "the whole report is written to the file");
            check(s.stdout == none, "nothing else is printed");
        } else {
            check(&s.stdout == e, "the whole report is printed");
            check(s.written.is_empty(), "no file is written");
        }
        reach("success");
    } else {
        check(fault || c.expect.is_none(), "a run with nothing wrong succeeds");
        check(s.stderr > 0, "a failing run prints an error");
        reach("failure");
    }
    reach("end");
}

/// what 0: any fault while writing; 1: any fault while reading; 2: anything missing or wrong; 3: an input cut short
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c23() {
    let what = param("what", 0);
    let cmd = param("cmd", 0) as usize;
    let mut args: Vec<&'static [u8]> = vec![b"twiggy"];
    args.push([&b"top"[..], b"dominators", b"paths", b"monos", b"garbage", b"diff"][cmd]);
    let scenario = if what == 2 { 1 + choose("wrong", 7) } else { 0 };
    let fmt = choose("format", if scenario == 5 { 1 } else { 3 });
    if scenario == 5 {
        args.push(b"-f");
        args.push(b"xml");
    } else if fmt > 0 || flag("format given") {
        args.push(b"-f");
        args.push([&b"text"[..], b"json", b"csv"][fmt]);
    }
    let to_file = flag("to a file");
    if to_file {
        args.push(b"-o");
        args.push(b"out");
    }
    let mut bad = false;
    match scenario {
        4 => args.push(b"--nonsense"),
        6 => {
            args.push(b"--mode");
            args.push(b"elf");
        }
        _ => {}
    }
    let (old, new) = (module(false), module(true));
    let s = sim();
    let missing = scenario == 1;
    let missing_new = scenario == 2 && cmd == 5;
    if !missing {
        s.files.push((b"a.wasm".to_vec(), vec![]));
    }
    if !missing_new {
        s.files.push((b"b.wasm".to_vec(), vec![]));
    }
    if scenario != 7 {
        args.push(b"a.wasm");
    }
    if cmd == 5 {
        args.push(b"b.wasm");
    }
    bad |= missing || missing_new || (scenario >= 4 && scenario <= 7);
    s.unwritable = scenario == 3;
    match what {
        0 => s.wfault = (u8_in("write fault", 1, 5), u64_in("at write", 1, param("writes", 9)) as usize),
        1 => s.rfault = (u8_in("read fault", 1, 3), u64_in("at read", 1, param("reads", 9)) as usize),
        _ => {}
    }
    if param("both", 0) > 0 {
        s.wfault = (u8_in("write fault", 1, 5), u64_in("at write", 1, param("writes", 9)) as usize);
    }
    let mut c = Case { args, old, new, to_file, bad, expect: None };
    if what == 3 {
        let n = choose("length", c.old.len() + 1);
        c.old.truncate(n);
        if cmd == 5 && flag("the new one too") {
            c.new.truncate(choose("new length", c.new.len() + 1));
        }
    }
    if !bad {
        c.expect = report(&c);
    }
    let s = sim();
    for f in s.files.iter_mut() {
        f.1 = if f.0 == b"a.wasm" { c.old.clone() } else { c.new.clone() };
    }
    set_args(&c.args);
    unsafe { CASE = Some(c) };
    s.judge = Some(judge);
    s.active = true;
    let r = command::go();
    // what the runtime does with the result of main
    std::process::exit(unsafe { std::mem::transmute::<ExitCode, u8>(r) } as i32);
}

/// Read and parse a file of this name and contents.
pub fn parse_file(name: &[u8], data: &[u8], mode: twiggy_traits::ParseMode) -> Result<twiggy_ir::Items, String> {
    use std::os::unix::ffi::OsStrExt;
    let s = sim();
    s.files.clear();
    s.fds.clear();
    s.files.push((name.to_vec(), data.to_vec()));
    parse_path(std::ffi::OsStr::from_bytes(name), mode)
}
fn parse_path(name: &std::ffi::OsStr, mode: twiggy_traits::ParseMode) -> Result<twiggy_ir::Items, String> {
    sim().active = true;
    let r = twiggy_parser::read_and_parse(name, mode);
    sim().active = false;
    r.map_err(|e| e.to_string())
}

type Listing = Vec<(twiggy_ir::Id, String, u32, Vec<twiggy_ir::Id>)>;
fn listing(r: &Result<twiggy_ir::Items, String>) -> Result<(u32, Listing), String> {
    match r {
        Ok(i) => Ok((i.size(), i.iter().map(|x| (x.id(), x.name().to_string(), x.size(), i.neighbors(x.id()).collect())).collect())),
        Err(e) => Err(e.clone()),
    }
}

/// what 0: every mode, name and kind of contents; 1: a file whose reading fails
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c06() {
    use twiggy_traits::ParseMode;
    let what = param("what", 0);
    let object = crate::elf::small();
    // the name: every byte of the extension may be any other
    let mut name = [&b"f.wasm"[..], b"f.was", b"f.wasms", b"f", b".wasm", b"f.wasm.o", b"f.o.wasm"][choose("name", param("names", 7) as usize)].to_vec();
    for k in 0..param("free", 5) as usize {
        let n = name.len();
        if k < n {
            let i = n - 1 - k;
            if name[i] != b'f' {
                name[i] = u8_in(&format!("name {}", k), 1, 255);
                assume(name[i] != b'/');
            }
        }
    }
    assume(&name[..] != b"." && &name[..] != b"..");
    // the contents
    let kind = choose("contents", param("contents", 3) as usize);
    let mut data = [module(false), object, vec![]][kind].clone();
    if kind == 2 {
        let n = choose("length", 9);
        data = (0..n).map(|i| u8v(&format!("byte {}", i))).collect();
    } else if param("change", 1) > 0 && flag("changed") {
        let i = choose("changed byte", 4);
        data[i] = u8v("value");
    }
    let m = choose("mode", 3);
    let mode = [ParseMode::Auto, ParseMode::Wasm, ParseMode::Dwarf][m];
    if what == 1 {
        let s = sim();
        s.rfault = (u8_in("read fault", 1, 3), u64_in("at read", 1, 6) as usize);
    }
    let got = parse_file(&name, &data, mode);
    let s = sim();
    let failed = s.read_failed;
    s.rfault = (0, 0);
    if failed {
        check(got.is_err(), "a file that cannot be read is an error");
        reach("unreadable");
    } else {
        let dot = name.iter().rposition(|c| *c == b'.');
        let wasm_name = match dot {
            Some(d) if d > 0 => &name[d + 1..] == b"wasm",
            _ => false,
        };
        let magic = data.len() >= 4 && data[..4] == *b"\0asm";
        let wasm = match m {
            0 => wasm_name || magic,
            1 => true,
            _ => false,
        };
        let direct = twiggy_parser::parse(&data).map_err(|e| e.to_string());
        let expect = if wasm { direct } else { parse_file(b"x", &data, ParseMode::Dwarf) };
        check(listing(&got) == listing(&expect), "the input is parsed in the format that its mode, name and first bytes select");
        if !wasm {
            match &expect {
                Ok(i) => check(kind == 1 || i.iter().count() == 1, "an object file's items are its functions"),
                Err(_) => check(kind != 1 || &data[..4] != b"\x7fELF", "an object file is parsed as one"),
            }
            reach("object");
        } else {
            reach("wasm");
        }
    }
    // a file that is not there
    sim().files.clear();
    check(parse_path(std::ffi::OsStr::new("f.wasm"), mode).is_err(), "a missing file is an error");
    reach("end");
}

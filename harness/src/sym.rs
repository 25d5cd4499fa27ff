//! Symbolic inputs. The solver engine intercepts these functions; their bodies are the native
//! versions, which read the values of one solver model from the file $TWSYM_REPLAY.
use std::fmt;

static mut REPLAY: Option<Vec<(String, u64)>> = None;
static mut POS: usize = 0;

fn next(name: &str, lo: u64) -> u64 {
    unsafe {
        #[allow(static_mut_refs)]
        if REPLAY.is_none() {
            let t = std::env::var("TWSYM_REPLAY").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
            REPLAY = Some(
                t.lines()
                    .filter(|l| !l.starts_with('#'))
                    .filter_map(|l| {
                        let mut p = l.rsplitn(2, ' ');
                        let v = p.next()?.parse().ok()?;
                        Some((p.next()?.to_string(), v))
                    })
                    .collect(),
            );
        }
        #[allow(static_mut_refs)]
        let r = REPLAY.as_ref().unwrap();
        let i = POS;
        POS += 1;
        match r.get(i) {
            Some((n, v)) => {
                if n != name {
                    eprintln!("REPLAY-MISMATCH {} {}", n, name);
                    std::process::exit(3);
                }
                *v
            }
            None => lo,
        }
    }
}
unsafe fn st<'a>(p: *const u8, l: usize) -> &'a str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, l))
}
macro_rules! var {
    ($n:ident, $t:ty) => {
        #[no_mangle]
        #[inline(never)]
        pub extern "C" fn $n(p: *const u8, l: usize, lo: u64, hi: u64) -> $t {
            let v = next(unsafe { st(p, l) }, lo);
            if v < lo || v > hi {
                eprintln!("REPLAY-MISMATCH range");
                std::process::exit(3);
            }
            v as $t
        }
    };
}
var!(sym_u8, u8);
var!(sym_u16, u16);
var!(sym_u32, u32);
var!(sym_u64, u64);
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("ASSUMPTION-FAILED");
        std::process::exit(4);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_assert_(c: bool, p: *const u8, l: usize) {
    if !c {
        println!("ASSERT-FAILED {}", unsafe { st(p, l) });
        std::process::exit(17);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_fail_(p: *const u8, l: usize) {
    println!("ASSERT-FAILED {}", unsafe { st(p, l) });
    std::process::exit(17);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_close_(a: u64, b: u64, p: *const u8, l: usize) {
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    // natively percentages may have been printed with two decimals
    let ok = x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 0.00501 || (x - y).abs() <= 1e-9 * x.abs().max(y.abs());
    if !ok {
        println!("ASSERT-FAILED {} ({} {})", unsafe { st(p, l) }, x, y);
        std::process::exit(17);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_conc(v: u64) -> u64 {
    std::hint::black_box(v)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_reach_(p: *const u8, l: usize) {
    if std::env::var_os("TWSYM_TRACE").is_some() {
        println!("REACH {}", unsafe { st(p, l) });
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_param_(p: *const u8, l: usize, d: u64) -> u64 {
    let n = unsafe { st(p, l) };
    std::env::var("TWSYM_PARAMS")
        .unwrap_or_default()
        .split(',')
        .find_map(|kv| kv.split_once('=').filter(|x| x.0 == n).and_then(|x| x.1.parse().ok()))
        .unwrap_or(d)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_token(v: u64) -> u32 {
    // never called natively
    std::hint::black_box(v) as u32
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_token_val(k: u32) -> u64 {
    std::hint::black_box(k) as u64
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_engine() -> bool {
    std::env::var_os("TWSYM_NEVER_SET").is_some()
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_is_concrete(v: u64) -> bool {
    std::hint::black_box(v) == v
}

// Formatting of symbolic numbers: the engine calls these instead of the digit generators.
fn tok(kind: u8, v: u64, b: &mut [u8; 6]) {
    let k = sym_token(v);
    b[0] = b'@';
    b[1] = kind;
    b[2] = b'0' + (k / 1000 % 10) as u8;
    b[3] = b'0' + (k / 100 % 10) as u8;
    b[4] = b'0' + (k / 10 % 10) as u8;
    b[5] = b'0' + (k % 10) as u8;
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn twsym_sub_fmt_u64(v: u64, signed: u64, f: &mut fmt::Formatter) -> bool {
    let mut b = [0; 6];
    if signed == 1 && sym_conc(((v as i64) < 0) as u64) == 1 {
        tok(b'T', v.wrapping_neg(), &mut b);
        f.pad_integral(false, "", unsafe { std::str::from_utf8_unchecked(&b) }).is_err()
    } else {
        tok(b'T', v, &mut b);
        f.pad_integral(true, "", unsafe { std::str::from_utf8_unchecked(&b) }).is_err()
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn twsym_sub_fmt_f64(v: f64, f: &mut fmt::Formatter) -> bool {
    let mut b = [0; 6];
    if sym_conc((v < 0.0) as u64) == 1 {
        tok(b'F', (-v).to_bits(), &mut b);
        f.pad_integral(false, "", unsafe { std::str::from_utf8_unchecked(&b) }).is_err()
    } else {
        tok(b'F', v.to_bits(), &mut b);
        f.pad_integral(true, "", unsafe { std::str::from_utf8_unchecked(&b) }).is_err()
    }
}

pub fn keep() {
    let a: [usize; 19] = [
        sym_u8 as usize,
        sym_u16 as usize,
        sym_u32 as usize,
        sym_u64 as usize,
        sym_assume as usize,
        sym_assert_ as usize,
        sym_fail_ as usize,
        sym_close_ as usize,
        sym_conc as usize,
        sym_reach_ as usize,
        sym_param_ as usize,
        sym_token as usize,
        sym_token_val as usize,
        sym_engine as usize,
        sym_is_concrete as usize,
        twsym_sub_fmt_u64 as usize,
        twsym_sub_fmt_f64 as usize,
        0,
        0,
    ];
    std::hint::black_box(&a);
}

// ---- convenience ----
pub fn u8_in(n: &str, lo: u8, hi: u8) -> u8 {
    sym_u8(n.as_ptr(), n.len(), lo as u64, hi as u64)
}
pub fn u8v(n: &str) -> u8 {
    u8_in(n, 0, 255)
}
pub fn u32_in(n: &str, lo: u32, hi: u32) -> u32 {
    sym_u32(n.as_ptr(), n.len(), lo as u64, hi as u64)
}
pub fn u64_in(n: &str, lo: u64, hi: u64) -> u64 {
    sym_u64(n.as_ptr(), n.len(), lo, hi)
}
pub fn flag(n: &str) -> bool {
    sym_conc(u8_in(n, 0, 1) as u64) == 1
}
/// A forked choice in 0..n.
pub fn choose(n: &str, k: usize) -> usize {
    if k <= 1 {
        return 0;
    }
    sym_conc(u32_in(n, 0, k as u32 - 1) as u64) as usize
}
pub fn assume(c: bool) {
    sym_assume(c)
}
pub fn check(c: bool, m: &str) {
    sym_assert_(c, m.as_ptr(), m.len())
}
pub fn fail(m: &str) -> ! {
    sym_fail_(m.as_ptr(), m.len());
    std::process::exit(17)
}
pub fn close(a: f64, b: f64, m: &str) {
    sym_close_(a.to_bits(), b.to_bits(), m.as_ptr(), m.len())
}
pub fn reach(m: &str) {
    sym_reach_(m.as_ptr(), m.len())
}
pub fn param(n: &str, d: u64) -> u64 {
    sym_param_(n.as_ptr(), n.len(), d)
}

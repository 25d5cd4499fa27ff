//! A file system and faults for code that runs real std::fs and std::io. While active, the C library functions
//! below (the harness's own definitions take precedence over libc's, natively as in the encoding) serve the
//! files of SIM; otherwise they make the real system call.
use crate::sym::*;
use std::arch::asm;
use std::ffi::{c_char, c_int, c_void, CStr};

#[derive(Default)]
pub struct Sim {
    pub active: bool,
    pub files: Vec<(Vec<u8>, Vec<u8>)>, // what can be opened for reading
    pub written: Vec<(Vec<u8>, Vec<u8>)>,
    pub fds: Vec<(usize, usize, bool)>, // file, position, for writing
    pub stdout: Vec<u8>,
    pub stderr: usize,
    pub unwritable: bool, // no file can be created
    /// 0 none; 1 an error, 2 an interruption, 3 a short transfer, 4 an error from then on, 5 nothing transferred
    pub rfault: (u8, usize),
    pub wfault: (u8, usize),
    pub reads: usize,
    pub writes: usize,
    pub read_failed: bool,
    pub write_failed: bool,
    pub judge: Option<fn(c_int)>,
}
pub static mut SIM: Option<Sim> = None;
const BASE: c_int = 1000;

#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { SIM.get_or_insert_with(Sim::default) }
}
fn active() -> bool {
    #[allow(static_mut_refs)]
    unsafe {
        SIM.as_ref().map_or(false, |s| s.active)
    }
}
extern "C" {
    fn __errno_location() -> *mut c_int;
}
fn err(e: c_int) -> isize {
    unsafe { *__errno_location() = e };
    -1
}
unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, lateout("rcx") _, lateout("r11") _);
    if r < 0 {
        err(-r as c_int)
    } else {
        r
    }
}
#[inline(never)]
fn sys(n: usize, a: usize, b: usize, c: usize, d: usize) -> isize {
    if sym_engine() {
        // (panic messages before the simulation starts)
        return if n == 1 { c as isize } else { err(38) };
    }
    unsafe { raw(n, a, b, c, d) }
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn twsym_native_open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if !active() {
        return sys(2, path as usize, flags as usize, mode as usize, 0) as c_int;
    }
    let s = sim();
    let p = CStr::from_ptr(path).to_bytes();
    if flags & 3 != 0 {
        if s.unwritable {
            return err(13) as c_int;
        }
        let k = match s.written.iter().position(|f| f.0 == p) {
            Some(k) => k,
            None => {
                s.written.push((p.to_vec(), vec![]));
                s.written.len() - 1
            }
        };
        if flags & 0o1000 != 0 {
            s.written[k].1.clear();
        }
        s.fds.push((k, 0, true));
        return BASE + s.fds.len() as c_int - 1;
    }
    match s.files.iter().position(|f| f.0 == p) {
        Some(k) => {
            s.fds.push((k, 0, false));
            BASE + s.fds.len() as c_int - 1
        }
        None => err(2) as c_int,
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn twsym_native_read(fd: c_int, p: *mut u8, n: usize) -> isize {
    if !active() {
        return sys(0, fd as usize, p as usize, n, 0);
    }
    let s = sim();
    if fd < BASE {
        return 0;
    }
    let mut n = n;
    s.reads += 1;
    if s.reads == s.rfault.1 {
        match s.rfault.0 {
            1 => {
                s.read_failed = true;
                return err(5);
            }
            2 => return err(4),
            3 => n = n.min(1),
            _ => {}
        }
    }
    let f = &mut s.fds[(fd - BASE) as usize];
    let d = &s.files[f.0].1;
    let k = n.min(d.len() - f.1);
    std::ptr::copy_nonoverlapping(d.as_ptr().add(f.1), p, k);
    f.1 += k;
    k as isize
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn twsym_native_write(fd: c_int, p: *const u8, n: usize) -> isize {
    if !active() {
        return sys(1, fd as usize, p as usize, n, 0);
    }
    let s = sim();
    if fd == 2 {
        s.stderr += n;
        return n as isize;
    }
    let mut n = n;
    if n > 0 {
        s.writes += 1;
        if s.writes == s.wfault.1 || (s.wfault.0 == 4 && s.writes > s.wfault.1 && s.wfault.1 > 0) {
            match s.wfault.0 {
                1 | 4 => {
                    s.write_failed = true;
                    return err(28);
                }
                2 => return err(4),
                5 => {
                    s.write_failed = true;
                    return 0;
                }
                3 => n = 1,
                _ => {}
            }
        }
    }
    let d = std::slice::from_raw_parts(p, n);
    if fd >= BASE {
        let f = &mut s.fds[(fd - BASE) as usize];
        let o = &mut s.written[f.0].1;
        o.extend_from_slice(d);
        f.1 += n;
    } else {
        s.stdout.extend_from_slice(d);
    }
    n as isize
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn twsym_native_writev(fd: c_int, v: *const (*const u8, usize), n: c_int) -> isize {
    let mut t = 0;
    for i in 0..n as usize {
        let (p, l) = *v.add(i);
        let r = twsym_native_write(fd, p, l);
        if r < 0 {
            return if t > 0 { t } else { r };
        }
        t += r;
        if (r as usize) < l {
            break;
        }
    }
    t
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn twsym_native_close(fd: c_int) -> c_int {
    if !active() {
        return sys(3, fd as usize, 0, 0, 0) as c_int;
    }
    0
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn twsym_native_fstat64(fd: c_int, p: *mut c_void) -> c_int {
    if !active() {
        return sys(5, fd as usize, p as usize, 0, 0) as c_int;
    }
    err(38) as c_int
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn twsym_native_statx(fd: c_int, path: *const c_char, flags: c_int, mask: u32, b: *mut c_void) -> c_int {
    if !active() && !sym_engine() {
        let r: isize;
        asm!("syscall", inlateout("rax") 332isize => r, in("rdi") fd as usize, in("rsi") path, in("rdx") flags as usize, in("r10") mask as usize, in("r8") b, lateout("rcx") _, lateout("r11") _);
        return if r < 0 { err(-r as c_int) as c_int } else { r as c_int };
    }
    err(38) as c_int
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn twsym_native_lseek64(fd: c_int, o: i64, w: c_int) -> i64 {
    if !active() {
        return sys(8, fd as usize, o as usize, w as usize, 0) as i64;
    }
    err(29) as i64
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn twsym_native_exit(code: c_int) -> ! {
    if active() {
        let s = sim();
        s.active = false;
        if let Some(j) = s.judge {
            j(code);
        }
        if !sym_engine() {
            println!("COMPLETED");
        }
        sys(231, 0, 0, 0, 0);
    }
    sys(231, code as usize, 0, 0, 0);
    sim_exit()
}
/// The encoding takes this for the end of the path.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sim_exit() -> ! {
    loop {}
}

/// (Only in the encoding.)
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn twsym_native___xpg_strerror_r(_e: c_int, b: *mut u8, n: usize) -> c_int {
    if n > 1 {
        *b = b'E';
        *b.add(1) = 0;
    }
    0
}

macro_rules! over {
    ($($n:ident => $t:ident ( $($a:ident : $ty:ty),* ) -> $r:ty;)*) => {
        $(#[no_mangle] #[inline(never)] pub unsafe extern "C" fn $n($($a: $ty),*) -> $r { $t($($a),*) })*
    };
}
over! {
    open64 => twsym_native_open64(a: *const c_char, b: c_int, c: u32) -> c_int;
    read => twsym_native_read(a: c_int, b: *mut u8, c: usize) -> isize;
    write => twsym_native_write(a: c_int, b: *const u8, c: usize) -> isize;
    writev => twsym_native_writev(a: c_int, b: *const (*const u8, usize), c: c_int) -> isize;
    close => twsym_native_close(a: c_int) -> c_int;
    fstat64 => twsym_native_fstat64(a: c_int, b: *mut c_void) -> c_int;
    lseek64 => twsym_native_lseek64(a: c_int, b: i64, c: c_int) -> i64;
    statx => twsym_native_statx(a: c_int, b: *const c_char, c: c_int, d: u32, e: *mut c_void) -> c_int;
    exit => twsym_native_exit(a: c_int) -> !;
}

extern "C" {
    static __init_array_start: [extern "C" fn(c_int, *const *const u8, *const *const u8); 0];
    static __init_array_end: [extern "C" fn(c_int, *const *const u8, *const *const u8); 0];
}
/// Make these the program's arguments. (The encoding calls std's own initialiser, natively all of them are.)
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_init_args(argc: c_int, argv: *const *const u8, env: *const *const u8) {
    let (a, b) = (__init_array_start.as_ptr(), __init_array_end.as_ptr());
    let mut p = a;
    while p < b {
        (*p)(argc, argv, env);
        p = p.add(1);
    }
}
pub fn set_args(l: &[&[u8]]) {
    let mut v: Vec<*const u8> = vec![];
    for a in l {
        let mut s = a.to_vec();
        s.push(0);
        v.push(s.as_ptr());
        std::mem::forget(s);
    }
    let n = v.len();
    v.push(std::ptr::null());
    v.push(std::ptr::null());
    unsafe { sym_init_args(n as c_int, v.as_ptr(), v.as_ptr().add(n)) };
    std::mem::forget(v);
}

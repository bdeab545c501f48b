//! Seams below std: futex waits, entropy and clocks of simulated threads belong to the simulator.
//!
//! The unchanged generated code uses none of them; a lock, hash map or timer that finds its way into it is
//! simulated (and, for a lock, noticed) instead of breaking determinism.

use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};

pub static ENTROPY: AtomicU64 = AtomicU64::new(0x5151_5151);
pub static SIM_NANOS: AtomicU64 = AtomicU64::new(1_000_000_000);
pub static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static FUTEX_WAITS: AtomicU64 = AtomicU64::new(0);
/// While set, entropy for every thread comes from the simulator.
pub static ENTROPY_SIM: AtomicBool = AtomicBool::new(false);

thread_local! {
    /// True while this thread runs simulated code (not the harness itself).
    pub static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

/// Called when simulated code would wait on a futex. Returns when it should look at the word again.
pub static mut ON_FUTEX_WAIT: fn() = || {};

unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    ret
}

const SYS_FUTEX: i64 = 202;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_GETRANDOM: i64 = 318;

/// The harness's own parking, which the seam below does not see.
pub fn park(word: &AtomicU32, expect: u32) {
    while word.load(Ordering::Acquire) == expect {
        unsafe {
            raw6(SYS_FUTEX, word as *const _ as usize, 128, expect as usize, 0, 0, 0);
        }
    }
}
pub fn unpark(word: &AtomicU32, val: u32) {
    word.store(val, Ordering::Release);
    unsafe {
        raw6(SYS_FUTEX, word as *const _ as usize, 129, 1, 0, 0, 0);
    }
}

fn in_sim() -> bool {
    IN_SIM.try_with(|c| c.get()).unwrap_or(false)
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

fn finish(r: i64) -> i64 {
    if r < 0 && r >= -4095 {
        unsafe { *__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}

/// std's futex calls go through libc's `syscall`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == SYS_FUTEX && in_sim() {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            let word = &*(a as *const AtomicU32);
            if word.load(Ordering::SeqCst) != c as u32 {
                return finish(-11);
            }
            FUTEX_WAITS.fetch_add(1, Ordering::Relaxed);
            let hook = ON_FUTEX_WAIT;
            IN_SIM.with(|s| s.set(false));
            hook();
            IN_SIM.with(|s| s.set(true));
            return 0; // spurious wake-ups are allowed
        }
    }
    if n == SYS_GETRANDOM && ENTROPY_SIM.load(Ordering::Relaxed) {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    finish(raw6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if ENTROPY_SIM.load(Ordering::Relaxed) {
        ENTROPY_READS.fetch_add(1, Ordering::Relaxed);
        for i in 0..len {
            let x = ENTROPY.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
            *buf.add(i) = (crate::rng::mix(x, 77) >> 24) as u8;
        }
        return len as isize;
    }
    finish(raw6(SYS_GETRANDOM, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if in_sim() {
        CLOCK_READS.fetch_add(1, Ordering::Relaxed);
        let t = SIM_NANOS.fetch_add(1_000, Ordering::Relaxed);
        (*ts).sec = (t / 1_000_000_000) as i64;
        (*ts).nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    finish(raw6(SYS_CLOCK_GETTIME, clk as usize, ts as usize, 0, 0, 0, 0)) as i32
}

/// Sleeping inside simulated code costs simulated time only.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if in_sim() {
        SIM_NANOS.fetch_add(((*req).sec as u64) * 1_000_000_000 + (*req).nsec as u64, Ordering::Relaxed);
        let hook = ON_SLEEP;
        IN_SIM.with(|s| s.set(false));
        hook();
        IN_SIM.with(|s| s.set(true));
        return 0;
    }
    finish(raw6(35, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if in_sim() {
        return nanosleep(req, rem);
    }
    -raw6(230, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32
}

/// Giving up the processor in a loop is how simulated code would spin on another thread.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_sim() {
        let hook = ON_FUTEX_WAIT;
        IN_SIM.with(|s| s.set(false));
        hook();
        IN_SIM.with(|s| s.set(true));
        return 0;
    }
    finish(raw6(24, 0, 0, 0, 0, 0, 0)) as i32
}

/// Called when simulated code sleeps.
pub static mut ON_SLEEP: fn() = || {};

/// What the environment, working directory, process number and processor count are for simulated code: not zero
/// to let this decide them.
pub static SURROUNDINGS: AtomicU64 = AtomicU64::new(0);
pub static SURROUNDINGS_READS: AtomicU64 = AtomicU64::new(0);

fn surroundings() -> Option<u64> {
    let s = SURROUNDINGS.load(Ordering::Relaxed);
    if s == 0 || !in_sim() {
        return None;
    }
    SURROUNDINGS_READS.fetch_add(1, Ordering::Relaxed);
    Some(s)
}

extern "C" {
    static mut environ: *const *const u8;
}

/// Every variable is unset in half of the processes, and has one of a few values in the others.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let name = std::ffi::CStr::from_ptr(name as *const _).to_bytes();
    if let Some(s) = surroundings() {
        let h = name.iter().fold(crate::rng::mix(s, 31), |h, b| crate::rng::mix(h, *b as u64));
        const VALUES: [&[u8]; 8] = [b"1\0", b"0\0", b"\0", b"true\0", b"elsewhere\0", b"/nowhere/at/all\0", b"2147483647\0", b"Some:Thing\0"];
        return if h & 1 == 0 { std::ptr::null() } else { VALUES[(h >> 8) as usize % VALUES.len()].as_ptr() };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let x = std::ffi::CStr::from_ptr(*e as *const _).to_bytes();
        if x.len() > name.len() && x[name.len()] == b'=' && x.starts_with(name) {
            return (*e).add(name.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    match surroundings() {
        Some(s) => 2 + (crate::rng::mix(s, 32) % 4_000_000) as i32,
        None => raw6(39, 0, 0, 0, 0, 0, 0) as i32,
    }
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, size: usize) -> *mut u8 {
    if let (Some(s), false, true) = (surroundings(), buf.is_null(), size > 32) {
        let p = format!("/nowhere/{:x}\0", crate::rng::mix(s, 33) & 0xffff_ffff);
        std::ptr::copy_nonoverlapping(p.as_ptr(), buf, p.len());
        return buf;
    }
    if buf.is_null() || finish(raw6(79, buf as usize, size, 0, 0, 0, 0)) < 0 {
        return std::ptr::null_mut();
    }
    buf
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: usize, mask: *mut u8) -> i32 {
    if let Some(s) = surroundings() {
        std::ptr::write_bytes(mask, 0, size);
        for i in 0..1 + (crate::rng::mix(s, 34) % 16) as usize {
            *mask.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = finish(raw6(204, pid as usize, size, mask as usize, 0, 0, 0));
    if r < 0 { -1 } else { 0 }
}

/// A disk of its own for simulated code: what it writes it can read again, a file it did not write exists in half
/// of the processes, and nothing reaches the real file system.
struct Disk {
    files: Vec<(Vec<u8>, i32)>,
}
static mut DISK: Disk = Disk { files: Vec::new() };
pub static DISK_OPENS: AtomicU64 = AtomicU64::new(0);

const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_DIRECTORY: i32 = 0o200000;

fn quietly<T>(f: impl FnOnce() -> T) -> T {
    IN_SIM.with(|s| s.set(false));
    let r = f();
    IN_SIM.with(|s| s.set(true));
    r
}

#[allow(static_mut_refs)]
unsafe fn disk_find(s: u64, name: &[u8], create: bool) -> Option<i32> {
    if let Some(i) = DISK.files.iter().position(|f| f.0 == name) {
        if DISK.files[i].1 >= 0 || !create {
            return Some(DISK.files[i].1).filter(|f| *f >= 0);
        }
        DISK.files.remove(i);
        let fd = raw6(319, b"f\0".as_ptr() as usize, 0, 0, 0, 0, 0) as i32;
        DISK.files.push((name.to_vec(), fd));
        return Some(fd);
    }
    let h = name.iter().fold(crate::rng::mix(s, 35), |h, b| crate::rng::mix(h, *b as u64));
    if !create && h & 1 == 0 {
        return None;
    }
    let fd = raw6(319, b"f\0".as_ptr() as usize, 0, 0, 0, 0, 0) as i32; // memfd_create
    if h & 1 == 1 {
        const TEXTS: [&str; 5] = ["", "1\n", "derive\n", "key = \"value\"\n", "\u{0}\u{1}\u{2}"];
        let t = TEXTS[(h >> 8) as usize % TEXTS.len()];
        raw6(1, fd as usize, t.as_ptr() as usize, t.len(), 0, 0, 0);
    }
    DISK.files.push((name.to_vec(), fd));
    Some(fd)
}

unsafe fn disk_open(path: *const u8, flags: i32) -> Option<i32> {
    let s = surroundings()?;
    DISK_OPENS.fetch_add(1, Ordering::Relaxed);
    let name = std::ffi::CStr::from_ptr(path as *const _).to_bytes();
    Some(quietly(|| {
        if flags & O_DIRECTORY == O_DIRECTORY {
            return finish(-2) as i32;
        }
        #[allow(static_mut_refs)]
        let known = DISK.files.iter().any(|f| f.0 == name && f.1 >= 0);
        if known && flags & O_CREAT != 0 && flags & O_EXCL != 0 {
            return finish(-17) as i32;
        }
        match disk_find(s, name, flags & O_CREAT != 0) {
            None => finish(-2) as i32,
            Some(fd) => {
                let p = format!("/proc/self/fd/{fd}\0");
                finish(raw6(2, p.as_ptr() as usize, (flags & !(O_CREAT | O_EXCL)) as usize, 0, 0, 0, 0)) as i32
            }
        }
    }))
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 {
    match disk_open(path, flags) {
        Some(r) => r,
        None => finish(raw6(2, path as usize, flags as usize, mode as usize, 0, 0, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    match disk_open(path, flags) {
        Some(r) => r,
        None => finish(raw6(257, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    openat(dir, path, flags, mode)
}
/// Used by `Path::exists` and `fs::metadata`.
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    if !path.is_null() && *path != 0 {
        if let Some(s) = surroundings() {
            let name = std::ffi::CStr::from_ptr(path as *const _).to_bytes();
            return quietly(|| match disk_find(s, name, false) {
                None => finish(-2) as i32,
                Some(fd) => finish(raw6(332, fd as usize, b"\0".as_ptr() as usize, 0x1000, mask as usize, buf as usize, 0)) as i32,
            });
        }
    }
    finish(raw6(332, dir as usize, path as usize, flags as usize, mask as usize, buf as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const u8) -> i32 {
    if let Some(s) = surroundings() {
        let name = std::ffi::CStr::from_ptr(path as *const _).to_bytes();
        return quietly(|| match disk_find(s, name, false) {
            None => finish(-2) as i32,
            Some(_) => {
                #[allow(static_mut_refs)]
                for f in DISK.files.iter_mut().filter(|f| f.0 == name) {
                    f.1 = -1;
                }
                0
            }
        });
    }
    finish(raw6(87, path as usize, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const u8, mode: u32) -> i32 {
    if surroundings().is_some() {
        return 0;
    }
    finish(raw6(83, path as usize, mode as usize, 0, 0, 0, 0)) as i32
}

/// The whole environment, for code that lists it: a seeded handful of variables.
pub unsafe fn new_environment(seed: u64) {
    const NAMES: [&str; 8] = ["CARGO_PKG_NAME", "CARGO_MANIFEST_DIR", "HOME", "PROFILE", "DEBUG", "USER", "LANG", "DERIVE_BUILDER"];
    let mut v: Vec<*const u8> = vec![];
    for (i, n) in NAMES.iter().enumerate() {
        let h = crate::rng::mix(seed, 36 + i as u64);
        if h & 1 == 1 {
            v.push(format!("{n}={:x}\0", h >> 40).leak().as_ptr());
        }
    }
    v.push(std::ptr::null());
    environ = v.leak().as_ptr();
}

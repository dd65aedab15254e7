//! C33: what the process asks of the outside world while the code under test runs. The C library's entry points are replaced by
//! ones that take notes and pass the call on; only in builds with the feature "watch".
use std::os::raw::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

static WATCH: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicU64 = AtomicU64::new(0);
static SEEN: Mutex<Vec<String>> = Mutex::new(Vec::new());

#[cfg_attr(not(feature = "watch"), allow(dead_code))]
fn note(what: &str, detail: &[u8]) {
    CALLS.fetch_add(1, SeqCst);
    if WATCH.swap(false, SeqCst) {
        let mut s = SEEN.lock().unwrap();
        if s.len() < 20 {
            s.push(format!("{} {:?}", what, String::from_utf8_lossy(&detail[..detail.len().min(160)])));
        }
        drop(s);
        WATCH.store(true, SeqCst);
    }
}
pub fn watched<R>(f: impl FnOnce() -> R) -> (R, Vec<String>) {
    WATCH.store(true, SeqCst);
    let r = f();
    WATCH.store(false, SeqCst);
    (r, std::mem::take(&mut *SEEN.lock().unwrap()))
}
/// The monitor itself is alive: it notices what it is to notice.
pub fn alive() -> bool {
    use std::io::Write;
    let (_, seen) = watched(|| {
        let _ = std::env::var_os("VERIF_NO_SUCH_NAME");
        if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
            let _ = f.write_all(b"x");
        }
        std::thread::sleep(std::time::Duration::from_nanos(1));
    });
    ["getenv", "open", "write", "sleep"].iter().all(|w| seen.iter().any(|s| s.starts_with(w)))
}

#[cfg(feature = "watch")]
mod hooks {
    use super::*;
    extern "C" {
        fn syscall(n: c_long, ...) -> c_long;
        static environ: *const *const c_char;
    }
    unsafe fn text<'a>(p: *const c_char) -> &'a [u8] {
        std::ffi::CStr::from_ptr(p).to_bytes()
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
        note("write", std::slice::from_raw_parts(buf as *const u8, n));
        syscall(1, fd as c_long, buf, n) as isize
    }
    #[repr(C)]
    pub struct Iov {
        base: *const c_void,
        len: usize,
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: c_int, v: *const Iov, n: c_int) -> isize {
        let all: Vec<u8> = std::slice::from_raw_parts(v, n as usize).iter().filter(|i| i.len > 0).flat_map(|i| std::slice::from_raw_parts(i.base as *const u8, i.len).to_vec()).collect();
        note("write", &all);
        syscall(20, fd as c_long, v, n as c_long) as isize
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
        note("open", text(path));
        syscall(2, path, flags as c_long, mode as c_long) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
        note("open", text(path));
        syscall(257, dir as c_long, path, flags as c_long, mode as c_long) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn mkdir(path: *const c_char, mode: u32) -> c_int {
        note("mkdir", text(path));
        syscall(83, path, mode as c_long) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
        note("unlink", text(path));
        syscall(87, path) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn socket(a: c_int, b: c_int, c: c_int) -> c_int {
        note("socket", b"");
        syscall(41, a as c_long, b as c_long, c as c_long) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn nanosleep(a: *const c_void, b: *mut c_void) -> c_int {
        note("sleep", b"");
        syscall(35, a, b) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const c_void, b: *mut c_void) -> c_int {
        note("sleep", b"");
        if syscall(230, c as c_long, f as c_long, a, b) == 0 { 0 } else { 4 }
    }
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
        let name = text(name);
        note("getenv", name);
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let e = text(*p);
            if e.len() > name.len() && &e[..name.len()] == name && e[name.len()] == b'=' {
                return (*p).add(name.len() + 1) as *mut c_char;
            }
            p = p.add(1);
        }
        std::ptr::null_mut()
    }
}

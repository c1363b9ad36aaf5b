//! The file-system calls of this process pass through here: the functions below take the place of those of the C
//! library. Nothing happens to them, unless a plan is armed for the directory they work in: then they may be
//! delayed (to widen the windows between two calls of one operation), counted, cut short, or made to fail.
//! Calls are told apart by the path, or by the path behind the file descriptor, so that the code under test may
//! use any thread for them.

use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::ffi::CStr;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, PoisonError};

/// which calls
pub const OPEN: u32 = 1;
pub const READ: u32 = 2;
pub const WRITE: u32 = 4;
pub const RENAME: u32 = 8;
pub const UNLINK: u32 = 16;
pub const MKDIR: u32 = 32;
pub const RMDIR: u32 = 64;
pub const READDIR: u32 = 128;
pub const ALL: u32 = 255;
/// looking at a path; delayed, but never made to fail
const STAT: u32 = 256;

#[derive(Default)]
pub struct Plan {
    pub root: Vec<u8>,
    /// sleep before and after a call, up to so many microseconds
    pub delay_us: u32,
    pub rng: AtomicU64,
    /// counts and may fail these
    pub kinds: u32,
    /// the calls that fail: the first, and how many from there on
    pub first: u32,
    pub many: u32,
    pub errno: i32,
    /// reads and writes transfer at most so many bytes
    pub short: usize,
    pub calls: AtomicU32,
    pub hits: AtomicU32,
    pub trace: Mutex<Vec<String>>,
}

static ARMED: AtomicUsize = AtomicUsize::new(0);
static PLANS: Mutex<Vec<Arc<Plan>>> = Mutex::new(Vec::new());

/// disarms when dropped
pub struct Armed(pub Arc<Plan>);

impl Drop for Armed {
    fn drop(&mut self) {
        let mut p = PLANS.lock().unwrap_or_else(PoisonError::into_inner);
        p.retain(|x| !Arc::ptr_eq(x, &self.0));
        ARMED.store(p.len(), Ordering::SeqCst);
    }
}

pub fn arm(root: &Path, mut plan: Plan, seed: u64) -> Armed {
    use std::os::unix::ffi::OsStrExt;
    plan.root = root.as_os_str().as_bytes().to_vec();
    plan.rng = AtomicU64::new(seed | 1);
    let plan = Arc::new(plan);
    let mut p = PLANS.lock().unwrap_or_else(PoisonError::into_inner);
    p.push(Arc::clone(&plan));
    ARMED.store(p.len(), Ordering::SeqCst);
    Armed(plan)
}

fn find(path: &[u8]) -> Option<Arc<Plan>> {
    let p = PLANS.lock().unwrap_or_else(PoisonError::into_inner);
    p.iter().find(|p| path.starts_with(&p.root) && matches!(path.get(p.root.len()), None | Some(b'/'))).cloned()
}

fn of_fd(fd: c_int) -> Option<Vec<u8>> {
    let link = format!("/proc/self/fd/{fd}\0");
    let mut buf = vec![0_u8; 4096];
    // SAFETY: a terminated path and a buffer of the given length
    let n = unsafe { libc::syscall(libc::SYS_readlink, link.as_ptr(), buf.as_mut_ptr(), buf.len()) };
    let n = usize::try_from(n).ok()?;
    buf.truncate(n);
    buf.first().filter(|b| **b == b'/')?;
    Some(buf)
}

unsafe fn of_path(dir: c_int, path: *const c_char) -> Option<Vec<u8>> {
    if path.is_null() {
        return None;
    }
    let b = CStr::from_ptr(path).to_bytes();
    if b.first() == Some(&b'/') {
        return Some(b.to_vec());
    }
    let mut d = if dir == libc::AT_FDCWD { std::env::current_dir().ok()?.into_os_string().into_encoded_bytes() } else { of_fd(dir)? };
    if !b.is_empty() {
        d.push(b'/');
        d.extend_from_slice(b);
    }
    Some(d)
}

impl Plan {
    fn pause(&self) {
        if self.delay_us == 0 {
            return;
        }
        // xorshift; threads may draw the same number now and then
        let mut x = self.rng.load(Ordering::Relaxed);
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.rng.store(x, Ordering::Relaxed);
        match (x >> 20) % 4 {
            0 => {}
            1 => std::thread::yield_now(),
            _ => std::thread::sleep(std::time::Duration::from_micros((x >> 32) % u64::from(self.delay_us))),
        }
    }
    /// Some(errno) if this call fails
    fn strike(&self, kind: u32, what: &str, path: &[u8]) -> Option<i32> {
        if self.kinds & kind == 0 {
            return None;
        }
        let n = self.calls.fetch_add(1, Ordering::SeqCst);
        let hit = n >= self.first && n - self.first < self.many;
        let short = String::from_utf8_lossy(path.get(self.root.len()..).unwrap_or(&[])).into_owned();
        self.trace.lock().unwrap_or_else(PoisonError::into_inner).push(format!("{n}: {what} {short}{}", if hit { " -> fails" } else { "" }));
        if hit {
            self.hits.fetch_add(1, Ordering::SeqCst);
            return Some(self.errno);
        }
        None
    }
}

enum Go {
    Plain,
    Planned(Arc<Plan>),
    Fail(i32),
}

fn before(kind: u32, what: &str, path: impl FnOnce() -> Option<Vec<u8>>) -> Go {
    if ARMED.load(Ordering::Relaxed) == 0 {
        return Go::Plain;
    }
    let Some(path) = path() else { return Go::Plain };
    let Some(plan) = find(&path) else { return Go::Plain };
    if kind & (READ | WRITE) == 0 {
        plan.pause();
    }
    match plan.strike(kind, what, &path) {
        Some(e) => Go::Fail(e),
        None => Go::Planned(plan),
    }
}

fn set_errno(e: i32) {
    // SAFETY: the address of this thread's errno
    unsafe { *libc::__errno_location() = e }
}

fn after(g: &Go) {
    if let Go::Planned(p) = g {
        // SAFETY: as above
        let e = unsafe { *libc::__errno_location() };
        p.pause();
        set_errno(e);
    }
}

fn cut(g: &Go, n: size_t) -> size_t {
    match g {
        Go::Planned(p) if p.short > 0 => n.min(p.short),
        _ => n,
    }
}

macro_rules! call {
    ($kind:expr, $what:expr, $path:expr, $n:ident => $real:expr) => {{
        let g = before($kind, $what, || $path);
        if let Go::Fail(e) = g {
            set_errno(e);
            return -1;
        }
        let r = $real;
        if $kind & (READ | WRITE) == 0 {
            after(&g);
        }
        r
    }};
}

#[no_mangle]
unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    call!(RENAME, "rename", of_path(libc::AT_FDCWD, b), x => libc::syscall(libc::SYS_rename, a, b) as c_int)
}
#[no_mangle]
unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    call!(UNLINK, "unlink", of_path(libc::AT_FDCWD, a), x => libc::syscall(libc::SYS_unlink, a) as c_int)
}
#[no_mangle]
unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, flags: c_int) -> c_int {
    let kind = if flags & libc::AT_REMOVEDIR != 0 { RMDIR } else { UNLINK };
    call!(kind, "unlinkat", of_path(d, a), x => libc::syscall(libc::SYS_unlinkat, d, a, flags) as c_int)
}
#[no_mangle]
unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    call!(MKDIR, "mkdir", of_path(libc::AT_FDCWD, a), x => libc::syscall(libc::SYS_mkdir, a, m) as c_int)
}
#[no_mangle]
unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    call!(RMDIR, "rmdir", of_path(libc::AT_FDCWD, a), x => libc::syscall(libc::SYS_rmdir, a) as c_int)
}
#[no_mangle]
unsafe extern "C" fn open64(a: *const c_char, flags: c_int, m: mode_t) -> c_int {
    call!(OPEN, "open", of_path(libc::AT_FDCWD, a), x => libc::syscall(libc::SYS_openat, libc::AT_FDCWD, a, flags, m as c_uint) as c_int)
}
#[no_mangle]
unsafe extern "C" fn openat64(d: c_int, a: *const c_char, flags: c_int, m: mode_t) -> c_int {
    call!(OPEN, "open", of_path(d, a), x => libc::syscall(libc::SYS_openat, d, a, flags, m as c_uint) as c_int)
}
#[no_mangle]
unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    let g = before(WRITE, "write", || of_fd(fd));
    if let Go::Fail(e) = g {
        set_errno(e);
        return -1;
    }
    libc::syscall(libc::SYS_write, fd, b, cut(&g, n)) as ssize_t
}
#[no_mangle]
unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    let g = before(READ, "read", || of_fd(fd));
    if let Go::Fail(e) = g {
        set_errno(e);
        return -1;
    }
    libc::syscall(libc::SYS_read, fd, b, cut(&g, n)) as ssize_t
}
#[no_mangle]
unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    let g = before(READ, "pread", || of_fd(fd));
    if let Go::Fail(e) = g {
        set_errno(e);
        return -1;
    }
    libc::syscall(libc::SYS_pread64, fd, b, cut(&g, n), o) as ssize_t
}
#[no_mangle]
unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    let g = before(WRITE, "pwrite", || of_fd(fd));
    if let Go::Fail(e) = g {
        set_errno(e);
        return -1;
    }
    libc::syscall(libc::SYS_pwrite64, fd, b, cut(&g, n), o) as ssize_t
}
#[no_mangle]
unsafe extern "C" fn copy_file_range(i: c_int, io: *mut off64_t, o: c_int, oo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    let g = before(WRITE, "copy_file_range", || of_fd(o));
    if let Go::Fail(e) = g {
        set_errno(e);
        return -1;
    }
    libc::syscall(libc::SYS_copy_file_range, i, io, o, oo, cut(&g, n), f) as ssize_t
}
#[no_mangle]
unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    let g = before(WRITE, "sendfile", || of_fd(o));
    if let Go::Fail(e) = g {
        set_errno(e);
        return -1;
    }
    libc::syscall(libc::SYS_sendfile, o, i, off, cut(&g, n)) as ssize_t
}
#[no_mangle]
unsafe extern "C" fn statx(d: c_int, a: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    // open files are not looked at by path
    let path = || if a.is_null() || *a == 0 { None } else { of_path(d, a) };
    call!(STAT, "statx", path(), x => libc::syscall(libc::SYS_statx, d, a, flags, mask, buf) as c_int)
}
type Opendir = unsafe extern "C" fn(*const c_char) -> *mut libc::DIR;
static REAL_OPENDIR: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
unsafe extern "C" fn opendir(a: *const c_char) -> *mut libc::DIR {
    let g = before(READDIR, "opendir", || of_path(libc::AT_FDCWD, a));
    if let Go::Fail(e) = g {
        set_errno(e);
        return std::ptr::null_mut();
    }
    let mut f = REAL_OPENDIR.load(Ordering::Relaxed);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, c"opendir".as_ptr()) as usize;
        REAL_OPENDIR.store(f, Ordering::Relaxed);
    }
    std::mem::transmute::<usize, Opendir>(f)(a)
}

/// the calls do pass through here
pub fn works(dir: &Path) -> Result<(), String> {
    let root: PathBuf = dir.join("inject-probe");
    std::fs::create_dir_all(&root).map_err(|e| e.to_string())?;
    let armed = arm(&root, Plan { kinds: ALL, ..Plan::default() }, 1);
    let mut seen = vec![];
    let mut step = |name: &str, f: &dyn Fn() -> std::io::Result<()>| {
        let n = armed.0.calls.load(Ordering::SeqCst);
        let r = f();
        if r.is_err() || armed.0.calls.load(Ordering::SeqCst) == n {
            seen.push(format!("{name}: {r:?}"));
        }
    };
    step("write", &|| std::fs::write(root.join("a"), b"x"));
    step("read", &|| std::fs::read(root.join("a")).map(drop));
    step("rename", &|| std::fs::rename(root.join("a"), root.join("b")));
    step("copy", &|| std::fs::copy(root.join("b"), root.join("c")).map(drop));
    step("remove_file", &|| std::fs::remove_file(root.join("b")));
    step("create_dir", &|| std::fs::create_dir(root.join("d")));
    step("read_dir", &|| std::fs::read_dir(root.join("d")).map(drop));
    step("remove_dir", &|| std::fs::remove_dir(root.join("d")));
    step("remove_dir_all", &|| std::fs::remove_dir_all(&root));
    drop(armed);
    if seen.is_empty() {
        Ok(())
    } else {
        Err(format!("file-system calls that are not seen: {seen:?}"))
    }
}

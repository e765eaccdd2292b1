//! Interposed file-system calls.
//!
//! These definitions take the place of the C library's in this executable, so
//! every file-system call made by the code under test (through std, fs2,
//! walkdir, ...) passes here.  A call goes through
//!   1. the guard: a call that would change anything outside the scratch
//!      directory is refused and recorded (always on), and
//!   2. the hook of the calling thread, if one is installed: tracing, fault
//!      injection, crash points or the scheduler.
#![allow(clippy::missing_safety_doc, unknown_lints, invalid_runtime_symbol_definitions)]
use libc::{c_char, c_int, c_long, c_void, mode_t, off_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};
use std::ffi::{CStr, CString};
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Open,
    Close,
    Read,
    Write,
    Seek,
    Trunc,
    Flock,
    Stat,
    Fstat,
    Mkdir,
    Rmdir,
    Unlink,
    Rename,
    Link,
    Opendir,
    Readdir,
    Sync,
    Attr,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub kind: Kind,
    pub path: String,
    pub path2: String,
    pub fd: i32,
    pub len: usize,
    pub flags: i32,
}

impl Call {
    pub fn mutates(&self) -> bool {
        match self.kind {
            Kind::Write
            | Kind::Trunc
            | Kind::Mkdir
            | Kind::Rmdir
            | Kind::Unlink
            | Kind::Rename
            | Kind::Link
            | Kind::Attr => true,
            Kind::Open => self.flags & (libc::O_CREAT | libc::O_TRUNC) != 0,
            _ => false,
        }
    }
    pub fn show(&self) -> String {
        match self.kind {
            Kind::Open => format!(
                "open({},{})",
                self.path,
                if self.flags & libc::O_CREAT != 0 {
                    "creat"
                } else if self.flags & 3 != 0 {
                    "rw"
                } else {
                    "ro"
                }
            ),
            Kind::Read | Kind::Write => format!("{:?}({},{})", self.kind, self.path, self.len),
            Kind::Flock => format!(
                "flock({},{})",
                self.path,
                match self.flags & 7 {
                    libc::LOCK_SH => "sh",
                    libc::LOCK_EX => "ex",
                    8 => "un",
                    _ => "nb",
                }
            ),
            _ => format!("{:?}({})", self.kind, self.path),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Go,
    Fail(i32),
    Short(usize),
}

pub trait Hook {
    fn pre(&self, c: &Call) -> Act;
    fn post(&self, c: &Call, ret: i64, err: i32);
    /// Whether a lock that could not be taken is to be tried again.
    fn retry(&self) -> bool {
        false
    }
}

thread_local! {
    static HOOK: Cell<Option<*const dyn Hook>> = const { Cell::new(None) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    /// Outside accesses recorded for this thread.
    static OUTSIDE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static WATCH_READS: Cell<bool> = const { Cell::new(false) };
    /// Only this directory may be touched by this thread.
    static CONFINED: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// What may be changed, and the scratch directory (never freed).
static ALLOWED: AtomicPtr<(Vec<String>, String)> = AtomicPtr::new(std::ptr::null_mut());
fn allowed() -> Option<&'static (Vec<String>, String)> {
    unsafe { ALLOWED.load(SeqCst).as_ref() }
}
const NFD: usize = 8192;
static FDS: [Mutex<Option<String>>; NFD] = [const { Mutex::new(None) }; NFD];

/// Only paths below one of these may be changed by this process from now on.
pub fn allow(paths: Vec<String>, scratch: &str) {
    ALLOWED.store(Box::into_raw(Box::new((paths, scratch.to_string()))), SeqCst);
}

struct Busy;
impl Busy {
    fn enter() -> Option<Busy> {
        BUSY.with(|b| {
            if b.get() {
                None
            } else {
                b.set(true);
                Some(Busy)
            }
        })
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.with(|b| b.set(false));
    }
}

/// Run `f` with `h` receiving this thread's file-system calls.
pub fn with_hook<R>(h: &dyn Hook, f: impl FnOnce() -> R) -> R {
    struct Reset(Option<*const dyn Hook>);
    impl Drop for Reset {
        fn drop(&mut self) {
            HOOK.with(|c| c.set(self.0));
        }
    }
    let p: *const dyn Hook = unsafe { std::mem::transmute::<&dyn Hook, &'static dyn Hook>(h) };
    let old = HOOK.with(|c| c.replace(Some(p)));
    let _r = Reset(old);
    f()
}

/// Run `f` with the hook of this thread suspended.
pub fn unhooked<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(Option<*const dyn Hook>);
    impl Drop for Reset {
        fn drop(&mut self) {
            HOOK.with(|c| c.set(self.0));
        }
    }
    let old = HOOK.with(|c| c.replace(None));
    let _r = Reset(old);
    f()
}

pub fn take_outside() -> Vec<String> {
    OUTSIDE.with(|o| std::mem::take(&mut *o.borrow_mut()))
}

/// Also record (not refuse) read-only accesses outside the scratch directory.
pub fn watch_reads(on: bool) {
    WATCH_READS.with(|w| w.set(on));
}

/// Run `f` with every access outside `root` refused; returns what was tried.
pub fn confined<R>(root: &str, f: impl FnOnce() -> R) -> (R, Vec<String>) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            CONFINED.with(|c| *c.borrow_mut() = None);
        }
    }
    take_outside();
    CONFINED.with(|c| *c.borrow_mut() = Some(root.to_string()));
    let reset = Reset;
    let r = f();
    drop(reset);
    (r, take_outside())
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn errno() -> i32 {
    unsafe { *libc::__errno_location() }
}

fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

fn fd_target(fd: i32) -> String {
    let link = CString::new(format!("/proc/self/fd/{}", fd)).unwrap();
    let mut buf = [0u8; 4096];
    let n = unsafe {
        libc::syscall(
            libc::SYS_readlinkat,
            libc::AT_FDCWD,
            link.as_ptr(),
            buf.as_mut_ptr(),
            buf.len(),
        )
    };
    if n <= 0 {
        return String::new();
    }
    String::from_utf8_lossy(&buf[..n as usize]).into_owned()
}

fn absolute(dirfd: c_int, path: *const c_char) -> String {
    let p = if path.is_null() {
        String::new()
    } else {
        unsafe { CStr::from_ptr(path) }.to_string_lossy().into_owned()
    };
    if p.starts_with('/') {
        return p;
    }
    let base = if dirfd == libc::AT_FDCWD {
        let mut buf = [0u8; 4096];
        let n = unsafe { libc::syscall(libc::SYS_getcwd, buf.as_mut_ptr(), buf.len()) };
        if n > 1 {
            String::from_utf8_lossy(&buf[..n as usize - 1]).into_owned()
        } else {
            "/".into()
        }
    } else {
        fd_target(dirfd)
    };
    format!("{}/{}", base, p)
}

/// Where the path really leads: its parent resolved by the kernel.
fn real(p: &str) -> String {
    let (dir, last) = match p.trim_end_matches('/').rfind('/') {
        Some(i) => (&p[..i], &p.trim_end_matches('/')[i + 1..]),
        None => ("", p),
    };
    if last == ".." || last == "." {
        return resolve_dir(p).unwrap_or_else(|| norm(p));
    }
    match resolve_dir(if dir.is_empty() { "/" } else { dir }) {
        Some(d) => norm(&format!("{}/{}", d, last)),
        None => norm(p),
    }
}

fn resolve_dir(p: &str) -> Option<String> {
    let c = CString::new(p).ok()?;
    let fd = unsafe {
        libc::syscall(
            libc::SYS_openat,
            libc::AT_FDCWD,
            c.as_ptr(),
            libc::O_PATH | libc::O_CLOEXEC,
            0,
        )
    };
    if fd < 0 {
        return None;
    }
    let t = fd_target(fd as i32);
    unsafe { libc::syscall(libc::SYS_close, fd) };
    Some(t)
}

fn inside(p: &str, roots: &[String]) -> bool {
    roots
        .iter()
        .any(|r| p == r || (p.starts_with(r.as_str()) && p.as_bytes().get(r.len()) == Some(&b'/')))
}

/// The guard. `true`: the call may be performed.
fn permitted(dirfd: c_int, path: *const c_char, mutating: bool, what: &str) -> bool {
    let watch = WATCH_READS.with(|w| w.get()) || CONFINED.with(|c| c.borrow().is_some());
    if !mutating && !watch {
        return true;
    }
    let b = match Busy::enter() {
        Some(b) => b,
        None => return true,
    };
    let roots = match allowed() {
        Some((roots, _)) if !roots.is_empty() => roots,
        _ => return true,
    };
    if let Some(root) = CONFINED.with(|c| c.borrow().clone()) {
        let p = absolute(dirfd, path);
        let r = real(&p);
        let one = std::slice::from_ref(&root);
        // the directories above the root have to be looked at
        let above = what == "stat" && (r == "/" || inside(&root, std::slice::from_ref(&r)));
        let ok = inside(&r, one) && inside(&norm(&p), one) || above;
        // (making them again changes nothing: it fails as they exist)
        let made = what == "mkdir" && (r == "/" || inside(&root, std::slice::from_ref(&r)));
        if !ok && !made {
            OUTSIDE.with(|o| o.borrow_mut().push(format!("{} {}", what, p)));
        }
        drop(b);
        return ok;
    }
    let p = absolute(dirfd, path);
    let plain = !p.contains("/..") && inside(&p, roots);
    if plain && dirfd == libc::AT_FDCWD && !mutating {
        return true;
    }
    let r = real(&p);
    let ok = inside(&r, roots) && (plain || inside(&norm(&p), roots));
    if !ok && (mutating || !r.starts_with("/proc/")) {
        OUTSIDE.with(|o| {
            let mut o = o.borrow_mut();
            if o.len() < 50 {
                o.push(format!("{} {}", what, p));
            }
        });
    }
    drop(b);
    ok || !mutating
}

fn shorten(p: String) -> String {
    let s = allowed().map(|a| a.1.as_str()).unwrap_or("/");
    match p.strip_prefix(s) {
        // drop the worker and case directories
        Some(r) => {
            let r = r.trim_start_matches('/');
            let mut it = r.splitn(3, '/');
            it.next();
            it.next();
            format!("/{}", it.next().unwrap_or(""))
        }
        None => p,
    }
}

fn fd_path(fd: c_int) -> Option<String> {
    FDS.get(fd as usize).and_then(|m| m.lock().unwrap().clone())
}
fn set_fd(fd: i64, p: Option<String>) {
    if fd < 0 || fd as usize >= NFD {
        return;
    }
    *FDS[fd as usize].lock().unwrap() = p;
}

enum Arg {
    Path(c_int, *const c_char),
    Fd(c_int),
}

/// Route one call through the hook. `f` performs it with a length.
fn route(
    kind: Kind,
    arg: Arg,
    path2: *const c_char,
    len: usize,
    flags: i32,
    f: &dyn Fn(usize) -> i64,
) -> i64 {
    let h = HOOK.with(|h| h.get());
    let h = match h {
        Some(h) if !BUSY.with(|b| b.get()) => unsafe { &*h },
        _ => return f(len),
    };
    let (path, fd) = match arg {
        Arg::Path(d, p) => (
            {
                let _b = Busy::enter();
                shorten(absolute(d, p))
            },
            -1,
        ),
        Arg::Fd(fd) => match fd_path(fd) {
            Some(p) => (p, fd),
            // not opened under a hook (sockets, pipes, stdio)
            None => return f(len),
        },
    };
    let p2 = if path2.is_null() {
        String::new()
    } else {
        let _b = Busy::enter();
        shorten(absolute(libc::AT_FDCWD, path2))
    };
    let c = Call {
        kind,
        path,
        path2: p2,
        fd,
        len,
        flags,
    };
    let act = {
        let _b = Busy::enter();
        h.pre(&c)
    };
    if kind == Kind::Close {
        // before the number can be used again by another thread
        set_fd(fd as i64, None);
    }
    let (ret, err) = match act {
        Act::Go => {
            let r = f(len);
            (r, if r < 0 { errno() } else { 0 })
        }
        Act::Short(n) => {
            let r = f(n);
            (r, if r < 0 { errno() } else { 0 })
        }
        Act::Fail(e) => (-1, e),
    };
    {
        let _b = Busy::enter();
        if kind == Kind::Open && ret >= 0 {
            set_fd(ret, Some(c.path.clone()));
        }
        let mut c = c;
        if kind == Kind::Open {
            c.fd = ret as i32;
        }
        h.post(&c, ret, err);
    }
    if ret < 0 {
        set_errno(err);
    }
    ret
}

/// Whether this thread has a hook installed.
pub fn hooked() -> bool {
    HOOK.with(|h| h.get()).is_some()
}

/// Route an interaction with a store that is not the file system.
pub fn soft<R>(
    kind: Kind,
    key: &str,
    len: usize,
    flags: i32,
    f: impl FnOnce(usize) -> Result<R, std::io::Error>,
    size: impl Fn(&R) -> i64,
) -> Result<R, std::io::Error> {
    let h = match HOOK.with(|h| h.get()) {
        Some(h) if !BUSY.with(|b| b.get()) => unsafe { &*h },
        _ => return f(len),
    };
    let c = Call {
        kind,
        path: key.to_string(),
        path2: String::new(),
        fd: -1,
        len,
        flags,
    };
    let act = {
        let _b = Busy::enter();
        h.pre(&c)
    };
    let r = match act {
        Act::Go => f(len),
        Act::Short(n) => f(n),
        Act::Fail(e) => Err(std::io::Error::from_raw_os_error(e)),
    };
    let _b = Busy::enter();
    match &r {
        Ok(v) => h.post(&c, size(v), 0),
        Err(e) => h.post(&c, -1, e.raw_os_error().unwrap_or(libc::EIO)),
    }
    r
}

const NUL: *const c_char = std::ptr::null();

unsafe fn do_open(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let m = flags & (libc::O_CREAT | libc::O_TRUNC) != 0 || flags & libc::O_ACCMODE != 0;
    if flags & libc::O_PATH == 0 && !permitted(d, p, m, "open") {
        set_errno(libc::EPERM);
        return -1;
    }
    route(Kind::Open, Arg::Path(d, p), NUL, 0, flags, &|_| unsafe {
        libc::syscall(libc::SYS_openat, d, p, flags, mode as c_long)
    }) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, f: c_int, m: mode_t) -> c_int {
    do_open(d, p, f, m)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, f: c_int, m: mode_t) -> c_int {
    do_open(d, p, f, m)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    route(Kind::Close, Arg::Fd(fd), NUL, 0, 0, &|_| unsafe {
        libc::syscall(libc::SYS_close, fd)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    route(Kind::Read, Arg::Fd(fd), NUL, n, 0, &|n| unsafe {
        libc::syscall(libc::SYS_read, fd, b, n)
    }) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off_t) -> ssize_t {
    route(Kind::Read, Arg::Fd(fd), NUL, n, 0, &|n| unsafe {
        libc::syscall(libc::SYS_pread64, fd, b, n, o)
    }) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, c: c_int) -> ssize_t {
    let total = iov_len(v, c);
    route(Kind::Read, Arg::Fd(fd), NUL, total, 0, &|n| unsafe {
        if n == total {
            libc::syscall(libc::SYS_readv, fd, v, c)
        } else {
            let v0 = first(v, c);
            libc::syscall(libc::SYS_read, fd, v0.iov_base, v0.iov_len.min(n))
        }
    }) as ssize_t
}
unsafe fn iov_len(v: *const libc::iovec, c: c_int) -> usize {
    (0..c as usize).map(|i| (*v.add(i)).iov_len).sum()
}
unsafe fn first(v: *const libc::iovec, c: c_int) -> libc::iovec {
    (0..c as usize)
        .map(|i| *v.add(i))
        .find(|v| v.iov_len > 0)
        .unwrap_or(*v)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    route(Kind::Write, Arg::Fd(fd), NUL, n, 0, &|n| unsafe {
        libc::syscall(libc::SYS_write, fd, b, n)
    }) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t {
    route(Kind::Write, Arg::Fd(fd), NUL, n, 0, &|n| unsafe {
        libc::syscall(libc::SYS_pwrite64, fd, b, n, o)
    }) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, c: c_int) -> ssize_t {
    let total = iov_len(v, c);
    route(Kind::Write, Arg::Fd(fd), NUL, total, 0, &|n| unsafe {
        if n == total {
            libc::syscall(libc::SYS_writev, fd, v, c)
        } else {
            let v0 = first(v, c);
            libc::syscall(libc::SYS_write, fd, v0.iov_base, v0.iov_len.min(n))
        }
    }) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: off_t, w: c_int) -> off_t {
    route(Kind::Seek, Arg::Fd(fd), NUL, 0, 0, &|_| unsafe {
        libc::syscall(libc::SYS_lseek, fd, o, w)
    }) as off_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, l: off_t) -> c_int {
    route(Kind::Trunc, Arg::Fd(fd), NUL, l as usize, 0, &|_| unsafe {
        libc::syscall(libc::SYS_ftruncate, fd, l)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, l: off_t) -> c_int {
    if !permitted(libc::AT_FDCWD, p, true, "truncate") {
        set_errno(libc::EPERM);
        return -1;
    }
    route(
        Kind::Trunc,
        Arg::Path(libc::AT_FDCWD, p),
        NUL,
        l as usize,
        0,
        &|_| unsafe { libc::syscall(libc::SYS_truncate, p, l) },
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, m: c_int, o: off_t, l: off_t) -> c_int {
    route(Kind::Trunc, Arg::Fd(fd), NUL, l as usize, 0, &|_| unsafe {
        libc::syscall(libc::SYS_fallocate, fd, m, o, l)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    // Hooks see the lock before it is taken and decide when it may be; the
    // call itself never blocks while a hook is installed.
    let hooked = HOOK.with(|h| h.get()).is_some() && !BUSY.with(|b| b.get());
    let nb = if hooked { libc::LOCK_NB } else { 0 };
    let mut r;
    loop {
        r = route(Kind::Flock, Arg::Fd(fd), NUL, 0, op, &|_| unsafe {
            libc::syscall(libc::SYS_flock, fd, op | nb)
        });
        let again = r < 0 && hooked && op & libc::LOCK_NB == 0 && errno() == libc::EWOULDBLOCK;
        let h = HOOK.with(|h| h.get());
        if !(again && h.map(|h| (*h).retry()).unwrap_or(false)) {
            break;
        }
    }
    if r < 0 && hooked && op & libc::LOCK_NB == 0 && errno() == libc::EWOULDBLOCK {
        set_errno(libc::EDEADLK);
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(
    d: c_int,
    p: *const c_char,
    fl: c_int,
    mask: libc::c_uint,
    buf: *mut libc::statx,
) -> c_int {
    let go = |_| unsafe { libc::syscall(libc::SYS_statx, d, p, fl, mask, buf) };
    if fl & libc::AT_EMPTY_PATH != 0 && d >= 0 && (p.is_null() || *p == 0) {
        return route(Kind::Fstat, Arg::Fd(d), NUL, 0, 0, &go) as c_int;
    }
    if p.is_null() {
        return go(0) as c_int;
    }
    permitted(d, p, false, "stat");
    route(Kind::Stat, Arg::Path(d, p), NUL, 0, 0, &go) as c_int
}
unsafe fn do_stat(d: c_int, p: *const c_char, b: *mut libc::stat64, fl: c_int) -> c_int {
    let go = |_| unsafe { libc::syscall(libc::SYS_newfstatat, d, p, b, fl) };
    if fl & libc::AT_EMPTY_PATH != 0 && d >= 0 && *p == 0 {
        return route(Kind::Fstat, Arg::Fd(d), NUL, 0, 0, &go) as c_int;
    }
    permitted(d, p, false, "stat");
    route(Kind::Stat, Arg::Path(d, p), NUL, 0, 0, &go) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    do_stat(libc::AT_FDCWD, p, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    do_stat(libc::AT_FDCWD, p, b, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(
    d: c_int,
    p: *const c_char,
    b: *mut libc::stat64,
    fl: c_int,
) -> c_int {
    do_stat(d, p, b, fl)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut libc::stat64) -> c_int {
    route(Kind::Fstat, Arg::Fd(fd), NUL, 0, 0, &|_| unsafe {
        libc::syscall(libc::SYS_fstat, fd, b)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    permitted(libc::AT_FDCWD, p, false, "access");
    route(
        Kind::Stat,
        Arg::Path(libc::AT_FDCWD, p),
        NUL,
        0,
        0,
        &|_| unsafe { libc::syscall(libc::SYS_access, p, m) },
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, f: c_int) -> c_int {
    permitted(d, p, false, "access");
    route(Kind::Stat, Arg::Path(d, p), NUL, 0, 0, &|_| unsafe {
        if f == 0 {
            libc::syscall(libc::SYS_faccessat, d, p, m)
        } else {
            libc::syscall(libc::SYS_faccessat2, d, p, m, f)
        }
    }) as c_int
}

unsafe fn mutate(
    kind: Kind,
    d: c_int,
    p: *const c_char,
    p2: *const c_char,
    what: &str,
    f: &dyn Fn(usize) -> i64,
) -> c_int {
    if !permitted(d, p, true, what) {
        set_errno(if what == "mkdir" { libc::EEXIST } else { libc::EPERM });
        return -1;
    }
    route(kind, Arg::Path(d, p), p2, 0, 0, f) as c_int
}
const CWD: c_int = libc::AT_FDCWD;

#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    mutate(Kind::Mkdir, CWD, p, NUL, "mkdir", &|_| unsafe {
        libc::syscall(libc::SYS_mkdir, p, m as c_long)
    })
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, m: mode_t) -> c_int {
    mutate(Kind::Mkdir, d, p, NUL, "mkdir", &|_| unsafe {
        libc::syscall(libc::SYS_mkdirat, d, p, m as c_long)
    })
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    mutate(Kind::Rmdir, CWD, p, NUL, "rmdir", &|_| unsafe {
        libc::syscall(libc::SYS_rmdir, p)
    })
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    mutate(Kind::Unlink, CWD, p, NUL, "unlink", &|_| unsafe {
        libc::syscall(libc::SYS_unlink, p)
    })
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    let k = if f & libc::AT_REMOVEDIR != 0 {
        Kind::Rmdir
    } else {
        Kind::Unlink
    };
    mutate(k, d, p, NUL, "unlink", &|_| unsafe {
        libc::syscall(libc::SYS_unlinkat, d, p, f)
    })
}
unsafe fn two(d2: c_int, p2: *const c_char, what: &str) -> bool {
    if permitted(d2, p2, true, what) {
        return true;
    }
    set_errno(libc::EPERM);
    false
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !two(CWD, b, "rename") {
        return -1;
    }
    mutate(Kind::Rename, CWD, a, b, "rename", &|_| unsafe {
        libc::syscall(libc::SYS_rename, a, b)
    })
}
#[no_mangle]
pub unsafe extern "C" fn renameat(
    d: c_int,
    a: *const c_char,
    e: c_int,
    b: *const c_char,
) -> c_int {
    if !two(e, b, "rename") {
        return -1;
    }
    mutate(Kind::Rename, d, a, b, "rename", &|_| unsafe {
        libc::syscall(libc::SYS_renameat, d, a, e, b)
    })
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if !two(CWD, b, "link") {
        return -1;
    }
    mutate(Kind::Link, CWD, a, b, "link", &|_| unsafe {
        libc::syscall(libc::SYS_link, a, b)
    })
}
#[no_mangle]
pub unsafe extern "C" fn linkat(
    d: c_int,
    a: *const c_char,
    e: c_int,
    b: *const c_char,
    f: c_int,
) -> c_int {
    if !two(e, b, "link") {
        return -1;
    }
    mutate(Kind::Link, d, a, b, "link", &|_| unsafe {
        libc::syscall(libc::SYS_linkat, d, a, e, b, f)
    })
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    mutate(Kind::Link, CWD, b, NUL, "symlink", &|_| unsafe {
        libc::syscall(libc::SYS_symlink, a, b)
    })
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    mutate(Kind::Attr, CWD, p, NUL, "chmod", &|_| unsafe {
        libc::syscall(libc::SYS_chmod, p, m as c_long)
    })
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    route(Kind::Attr, Arg::Fd(fd), NUL, 0, 0, &|_| unsafe {
        libc::syscall(libc::SYS_fchmod, fd, m as c_long)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    route(Kind::Sync, Arg::Fd(fd), NUL, 0, 0, &|_| unsafe {
        libc::syscall(libc::SYS_fsync, fd)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    route(Kind::Sync, Arg::Fd(fd), NUL, 0, 0, &|_| unsafe {
        libc::syscall(libc::SYS_fdatasync, fd)
    }) as c_int
}

macro_rules! next {
    ($name:literal) => {{
        static P: AtomicPtr<c_void> = AtomicPtr::new(std::ptr::null_mut());
        let mut p = P.load(SeqCst);
        if p.is_null() {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char);
            if p.is_null() {
                libc::abort();
            }
            P.store(p, SeqCst);
        }
        p
    }};
}

thread_local! {
    static DIRS: RefCell<Vec<(usize, String)>> = const { RefCell::new(Vec::new()) };
}

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    type F = unsafe extern "C" fn(*const c_char) -> *mut libc::DIR;
    let f: F = std::mem::transmute(next!("opendir"));
    permitted(CWD, p, false, "list");
    let r = route(Kind::Opendir, Arg::Path(CWD, p), NUL, 0, 0, &|_| unsafe {
        let d = f(p);
        if d.is_null() {
            -1
        } else {
            d as i64
        }
    });
    if r == -1 {
        return std::ptr::null_mut();
    }
    if HOOK.with(|h| h.get()).is_some() && !BUSY.with(|b| b.get()) {
        let _b = Busy::enter();
        let s = shorten(absolute(CWD, p));
        DIRS.with(|d| d.borrow_mut().push((r as usize, s)));
    }
    r as *mut libc::DIR
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    type F = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;
    let f: F = std::mem::transmute(next!("readdir64"));
    let h = HOOK.with(|h| h.get());
    let path = DIRS.with(|v| {
        v.borrow()
            .iter()
            .find(|(p, _)| *p == d as usize)
            .map(|x| x.1.clone())
    });
    match (h, path) {
        (Some(h), Some(path)) if !BUSY.with(|b| b.get()) => {
            let h = &*h;
            let c = Call {
                kind: Kind::Readdir,
                path,
                path2: String::new(),
                fd: -1,
                len: 0,
                flags: 0,
            };
            let act = {
                let _b = Busy::enter();
                h.pre(&c)
            };
            if let Act::Fail(e) = act {
                let _b = Busy::enter();
                h.post(&c, -1, e);
                set_errno(e);
                return std::ptr::null_mut();
            }
            set_errno(0);
            let r = f(d);
            let e = errno();
            {
                let _b = Busy::enter();
                h.post(&c, if r.is_null() { 0 } else { 1 }, 0);
            }
            set_errno(e);
            r
        }
        _ => f(d),
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    type F = unsafe extern "C" fn(*mut libc::DIR) -> c_int;
    let f: F = std::mem::transmute(next!("closedir"));
    DIRS.with(|v| v.borrow_mut().retain(|(p, _)| *p != d as usize));
    f(d)
}

// ---------------------------------------------------------------------------
// Single-threaded worlds: tracing, faults, crash points.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Inject {
    Errno(i32),
    Short(usize),
    /// The process dies here; of a write, this many bytes are done first.
    Crash(usize),
}

impl std::fmt::Display for Inject {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Inject::Errno(e) => {
                let n = match *e {
                    libc::EIO => "EIO",
                    libc::ENOSPC => "ENOSPC",
                    libc::EACCES => "EACCES",
                    libc::EINTR => "EINTR",
                    libc::EMFILE => "EMFILE",
                    libc::ENOLCK => "ENOLCK",
                    libc::EBUSY => "EBUSY",
                    libc::ENOTEMPTY => "ENOTEMPTY",
                    _ => "E?",
                };
                write!(f, "{}", n)
            }
            Inject::Short(n) => write!(f, "short{}", n),
            Inject::Crash(n) => write!(f, "crash{}", n),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub call: Call,
    pub ret: i64,
    pub err: i32,
    pub injected: Option<Inject>,
}

#[derive(Default)]
struct WS {
    n: usize,
    log: Vec<Rec>,
    plan: Vec<(usize, Inject)>,
    crashed: bool,
    deadlock: Option<String>,
    pending: Option<Inject>,
    uniform: Option<usize>,
    /// Every transfer is interrupted so many times before it happens.
    stutter: usize,
    interrupted: usize,
}

/// A single-threaded environment.
#[derive(Default)]
pub struct World {
    s: RefCell<WS>,
}

impl World {
    pub fn new(plan: Vec<(usize, Inject)>) -> World {
        World {
            s: RefCell::new(WS {
                plan,
                ..Default::default()
            }),
        }
    }
    /// Every read and write moves at most `n` bytes.
    pub fn uniform(n: usize) -> World {
        World {
            s: RefCell::new(WS {
                uniform: Some(n),
                ..Default::default()
            }),
        }
    }
    /// Every transfer is interrupted `times` times and then moves at most `n` bytes.
    pub fn stutter(times: usize, n: usize) -> World {
        World {
            s: RefCell::new(WS {
                uniform: Some(n),
                stutter: times,
                ..Default::default()
            }),
        }
    }
    pub fn run<R>(&self, f: impl FnOnce() -> R) -> R {
        with_hook(self, f)
    }
    pub fn log(&self) -> Vec<Rec> {
        self.s.borrow().log.clone()
    }
    pub fn calls(&self) -> usize {
        self.s.borrow().n
    }
    pub fn crashed(&self) -> bool {
        self.s.borrow().crashed
    }
    pub fn deadlock(&self) -> Option<String> {
        self.s.borrow().deadlock.clone()
    }
    pub fn fired(&self) -> usize {
        self.s.borrow().log.iter().filter(|r| r.injected.is_some()).count()
    }
    pub fn trace(&self) -> String {
        self.s
            .borrow()
            .log
            .iter()
            .map(|r| {
                format!(
                    "{}{}={}",
                    r.call.show(),
                    r.injected.map(|i| format!("!{}", i)).unwrap_or_default(),
                    if r.ret < 0 { -(r.err as i64) } else { r.ret.min(1 << 20) }
                )
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
}

impl Hook for World {
    fn pre(&self, c: &Call) -> Act {
        let mut s = self.s.borrow_mut();
        let n = s.n;
        s.n += 1;
        s.pending = None;
        if n > 2_000_000 {
            // a loop that never ends
            unsafe { libc::abort() }
        }
        if s.crashed {
            return if c.kind == Kind::Close {
                Act::Go
            } else {
                Act::Fail(libc::EIO)
            };
        }
        if let Some(i) = s.plan.iter().find(|(k, _)| *k == n).map(|x| x.1) {
            s.pending = Some(i);
            return match i {
                // a failing close closes
                _ if c.kind == Kind::Close => {
                    s.crashed = matches!(i, Inject::Crash(_));
                    Act::Go
                }
                Inject::Errno(e) => Act::Fail(e),
                Inject::Short(k) => Act::Short(k),
                Inject::Crash(k) => {
                    s.crashed = true;
                    if k > 0 && c.kind == Kind::Write {
                        Act::Short(k)
                    } else {
                        Act::Fail(libc::EIO)
                    }
                }
            };
        }
        if let (Some(k), Kind::Read | Kind::Write) = (s.uniform, c.kind) {
            if s.interrupted < s.stutter {
                s.interrupted += 1;
                s.pending = Some(Inject::Errno(libc::EINTR));
                return Act::Fail(libc::EINTR);
            }
            s.interrupted = 0;
            if c.len > k {
                return Act::Short(k);
            }
        }
        Act::Go
    }
    fn post(&self, c: &Call, ret: i64, err: i32) {
        let mut s = self.s.borrow_mut();
        let injected = s.pending.take();
        if c.kind == Kind::Flock
            && ret < 0
            && err == libc::EWOULDBLOCK
            && c.flags & libc::LOCK_NB == 0
        {
            s.deadlock = Some(c.show());
        }
        if s.log.len() < 100_000 {
            s.log.push(Rec {
                call: c.clone(),
                ret,
                err,
                injected,
            });
        }
    }
}

//! The nondeterminism seam.
//!
//! The server code under test is linked into this binary, and `std` is linked statically, so the
//! libc entry points it calls can be replaced here by definitions of the same name. Every call made
//! by a thread that is not a harness thread is answered from the simulated environment:
//!
//! * `getrandom`: bytes from the run's seed (decides every `HashMap` iteration order),
//! * `clock_gettime`, `nanosleep`, `clock_nanosleep`: a simulated clock,
//! * file system calls: every absolute path is mapped into a scratch directory, and a fault plan
//!   decides which call fails, is cut short, or observes a concurrent change,
//! * calls that write, create, delete, spawn or connect: recorded (and kept in the scratch root,
//!   or refused).
//!
//! Harness threads call `exempt_current_thread` and get the real functions.

use std::cell::Cell;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Mutex, MutexGuard};

use serde::{Deserialize, Serialize};

thread_local! {
    static EXEMPT: Cell<u32> = const { Cell::new(0) };
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static CLOCK_OFFSET_NS: AtomicI64 = AtomicI64::new(0);
static RAND_STATE: AtomicU64 = AtomicU64::new(0);
static RAND_CALLS: AtomicU64 = AtomicU64::new(0);
static CLOCK_CALLS: AtomicU64 = AtomicU64::new(0);
static SLEPT_NS: AtomicU64 = AtomicU64::new(0);

/// What a fault does to the file system call it hits.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum FaultKind {
    /// The call fails with this errno.
    Errno(i32),
    /// `read` returns at most this many bytes (legal short read; must be transparent).
    ShortRead(u32),
    /// `read`/`open` fails with EINTR once (must be transparent to callers that retry).
    Interrupted,
    /// Before the call, a third party replaces this file.
    Replace { path: String, content: Vec<u8> },
    /// Before the call, a third party deletes this file.
    Delete { path: String },
    /// The bytes returned by `read` are flipped to invalid UTF-8.
    Garble,
    /// `read` reports end of file (truncated file).
    Truncate,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum OpClass {
    Any,
    Stat,
    Open,
    Read,
}

/// Fault to inject at the `at`-th matching file system call of the current step.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Fault {
    pub class: OpClass,
    pub at: u32,
    /// Also hit all later matching calls of the step.
    pub sticky: bool,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FsEvent {
    pub op: &'static str,
    pub path: String,
    pub mutating: bool,
    pub fault: bool,
}

#[derive(Default)]
struct State {
    root: PathBuf,
    faults: Vec<(Fault, u32, bool)>,
    events: Vec<FsEvent>,
    fds: Vec<(c_int, String)>,
    external: Vec<String>,
    forced: Option<crate::gen::Lang>,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);

fn state() -> MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}

/// Marks the calling thread as part of the harness.
pub fn exempt_current_thread() {
    EXEMPT.with(|c| c.set(c.get() + 1));
}

struct ExemptGuard;
impl ExemptGuard {
    fn new() -> Self {
        EXEMPT.with(|c| c.set(c.get() + 1));
        ExemptGuard
    }
}
impl Drop for ExemptGuard {
    fn drop(&mut self) {
        EXEMPT.with(|c| c.set(c.get() - 1));
    }
}

pub fn is_harness_thread() -> bool {
    EXEMPT.try_with(|c| c.get() > 0).unwrap_or(true)
}

fn simulated() -> bool {
    ACTIVE.load(Ordering::Relaxed) && !is_harness_thread()
}

/// Starts simulating the environment of non-harness threads.
pub fn activate(root: &Path, rand_seed: u64) {
    *state() = Some(State {
        root: root.to_owned(),
        ..Default::default()
    });
    RAND_STATE.store(rand_seed, Ordering::SeqCst);
    CLOCK_OFFSET_NS.store(0, Ordering::SeqCst);
    ACTIVE.store(true, Ordering::SeqCst);
}

pub fn set_root(root: &Path) {
    if let Some(s) = state().as_mut() {
        s.root = root.to_owned();
    }
}

/// While set, every `Cargo.toml` the server looks at is one that asks for this ink! version.
pub fn force_manifest(lang: Option<crate::gen::Lang>) {
    if let Some(s) = state().as_mut() {
        s.forced = lang;
    }
}

/// Files `force_manifest` redirects to, created once per scratch area.
pub fn forced_path(scratch: &Path, lang: crate::gen::Lang) -> PathBuf {
    scratch.join(match lang {
        crate::gen::Lang::V4 => "forced-v4.toml",
        crate::gen::Lang::V5 => "forced-v5.toml",
    })
}

pub fn set_rand(seed: u64) {
    RAND_STATE.store(seed, Ordering::SeqCst);
}

pub fn advance_clock(ns: i64) {
    CLOCK_OFFSET_NS.fetch_add(ns, Ordering::SeqCst);
}

pub fn clock_offset() -> i64 {
    CLOCK_OFFSET_NS.load(Ordering::SeqCst)
}

pub fn rand_calls() -> u64 {
    RAND_CALLS.load(Ordering::SeqCst)
}

pub fn clock_calls() -> u64 {
    CLOCK_CALLS.load(Ordering::SeqCst)
}

pub fn slept_ns() -> u64 {
    SLEPT_NS.load(Ordering::SeqCst)
}

/// Arms the fault plan for the next step.
pub fn arm(faults: &[Fault]) {
    if let Some(s) = state().as_mut() {
        s.faults = faults.iter().map(|f| (f.clone(), 0, false)).collect();
    }
}

/// Disarms the fault plan, returns how many of the armed faults fired.
pub fn disarm() -> usize {
    state().as_mut().map_or(0, |s| {
        let n = s.faults.iter().filter(|f| f.2).count();
        s.faults.clear();
        n
    })
}

pub fn take_events() -> Vec<FsEvent> {
    state()
        .as_mut()
        .map(|s| std::mem::take(&mut s.events))
        .unwrap_or_default()
}

/// Recorded attempts to reach outside (spawn processes, open sockets).
pub fn take_external() -> Vec<String> {
    state()
        .as_mut()
        .map(|s| std::mem::take(&mut s.external))
        .unwrap_or_default()
}

fn errno_set(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

fn real(name: &'static CStr) -> *mut c_void {
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) };
    if p.is_null() {
        unsafe { libc::abort() }
    }
    p
}

macro_rules! real_fn {
    ($name:literal, $ty:ty) => {{
        static CACHE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = CACHE.load(Ordering::Relaxed);
        if p == 0 {
            p = real($name) as usize;
            CACHE.store(p, Ordering::Relaxed);
        }
        unsafe { std::mem::transmute::<usize, $ty>(p) }
    }};
}

enum Verdict {
    Pass,
    Fail(c_int),
    Short(u32),
    Garble,
    Eof,
}

/// Records a file system call of the server and consults the fault plan.
fn consult(op: &'static str, class: OpClass, path: &str, mutating: bool) -> Verdict {
    let mut verdict = Verdict::Pass;
    let mut todo: Vec<(PathBuf, Option<Vec<u8>>)> = Vec::new();
    {
        let mut guard = state();
        let Some(s) = guard.as_mut() else {
            return Verdict::Pass;
        };
        let mut hit = false;
        let root = s.root.clone();
        for (fault, seen, fired) in s.faults.iter_mut() {
            if fault.class != OpClass::Any && fault.class != class {
                continue;
            }
            let idx = *seen;
            *seen += 1;
            if !(idx == fault.at || (fault.sticky && idx > fault.at)) {
                continue;
            }
            match &fault.kind {
                FaultKind::Errno(e) => verdict = Verdict::Fail(*e),
                FaultKind::Interrupted => {
                    if class != OpClass::Stat {
                        verdict = Verdict::Fail(libc::EINTR);
                    } else {
                        continue;
                    }
                }
                FaultKind::ShortRead(n) => {
                    if class == OpClass::Read {
                        verdict = Verdict::Short(*n);
                    } else {
                        continue;
                    }
                }
                FaultKind::Garble => {
                    if class == OpClass::Read {
                        verdict = Verdict::Garble;
                    } else {
                        continue;
                    }
                }
                FaultKind::Truncate => {
                    if class == OpClass::Read {
                        verdict = Verdict::Eof;
                    } else {
                        continue;
                    }
                }
                FaultKind::Replace { path, content } => {
                    if *fired {
                        continue;
                    }
                    todo.push((under(&root, Path::new(path)), Some(content.clone())));
                }
                FaultKind::Delete { path } => {
                    if *fired {
                        continue;
                    }
                    todo.push((under(&root, Path::new(path)), None));
                }
            }
            *fired = true;
            hit = true;
        }
        s.events.push(FsEvent {
            op,
            path: path.to_owned(),
            mutating,
            fault: hit,
        });
    }
    if !todo.is_empty() {
        let _g = ExemptGuard::new();
        for (path, content) in todo {
            match content {
                Some(bytes) => {
                    // Replace by rename, like editors and cargo do.
                    let tmp = path.with_extension("sim-tmp");
                    let _ = std::fs::write(&tmp, bytes);
                    let _ = std::fs::rename(&tmp, &path);
                }
                None => {
                    let _ = std::fs::remove_file(&path);
                }
            }
        }
    }
    verdict
}

/// Maps an absolute path into the scratch root.
pub fn under(root: &Path, path: &Path) -> PathBuf {
    let mut out = root.to_owned();
    for c in path.components() {
        match c {
            std::path::Component::Normal(n) => out.push(n),
            std::path::Component::ParentDir => {
                if out != root {
                    out.pop();
                }
            }
            _ => (),
        }
    }
    out
}

fn map_path(p: *const c_char) -> (String, CString) {
    let bytes = unsafe { CStr::from_ptr(p) }.to_bytes();
    let path = Path::new(std::ffi::OsStr::from_bytes(bytes));
    let (root, forced) = state()
        .as_ref()
        .map(|s| (s.root.clone(), s.forced))
        .unwrap_or_default();
    if let Some(lang) = forced {
        if path.file_name().is_some_and(|n| n == "Cargo.toml") {
            let scratch = root.parent().unwrap_or(&root);
            let target = forced_path(scratch, lang);
            return (
                path.to_string_lossy().into_owned(),
                CString::new(target.as_os_str().as_bytes()).unwrap_or_default(),
            );
        }
    }
    // A trailing `/.` or `/` matters little here; keep it simple.
    let mapped = under(&root, path);
    (
        path.to_string_lossy().into_owned(),
        CString::new(mapped.as_os_str().as_bytes()).unwrap_or_default(),
    )
}

fn sim_open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    type F = unsafe extern "C" fn(*const c_char, c_int, c_uint) -> c_int;
    let f = real_fn!(c"open64", F);
    if !simulated() {
        return unsafe { f(path, flags, mode) };
    }
    let (logical, mapped) = map_path(path);
    let mutating = (flags & libc::O_ACCMODE) != libc::O_RDONLY
        || flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0;
    match consult("open", OpClass::Open, &logical, mutating) {
        Verdict::Fail(e) => {
            errno_set(e);
            -1
        }
        _ => {
            let fd = unsafe { f(mapped.as_ptr(), flags, mode) };
            if fd >= 0 {
                if let Some(s) = state().as_mut() {
                    s.fds.push((fd, logical));
                }
            }
            fd
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    sim_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    sim_open(path, flags, mode)
}

fn sim_openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    type F = unsafe extern "C" fn(c_int, *const c_char, c_int, c_uint) -> c_int;
    let absolute = unsafe { *path } == b'/' as c_char || dirfd == libc::AT_FDCWD;
    if absolute {
        return sim_open(path, flags, mode);
    }
    let f = real_fn!(c"openat64", F);
    if simulated() {
        let p = unsafe { CStr::from_ptr(path) }.to_string_lossy().into_owned();
        let mutating = (flags & libc::O_ACCMODE) != libc::O_RDONLY || flags & libc::O_CREAT != 0;
        if let Verdict::Fail(e) = consult("openat", OpClass::Open, &p, mutating) {
            errno_set(e);
            return -1;
        }
    }
    unsafe { f(dirfd, path, flags, mode) }
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, fl: c_int, m: c_uint) -> c_int {
    sim_openat(d, p, fl, m)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, fl: c_int, m: c_uint) -> c_int {
    sim_openat(d, p, fl, m)
}

#[no_mangle]
pub unsafe extern "C" fn statx(
    dirfd: c_int,
    path: *const c_char,
    flags: c_int,
    mask: c_uint,
    buf: *mut libc::statx,
) -> c_int {
    type F = unsafe extern "C" fn(c_int, *const c_char, c_int, c_uint, *mut libc::statx) -> c_int;
    let f = real_fn!(c"statx", F);
    if !simulated() || path.is_null() || *path == 0 {
        return f(dirfd, path, flags, mask, buf);
    }
    let (logical, mapped) = map_path(path);
    match consult("stat", OpClass::Stat, &logical, false) {
        Verdict::Fail(e) => {
            errno_set(e);
            -1
        }
        _ => f(dirfd, mapped.as_ptr(), flags, mask, buf),
    }
}

macro_rules! stat_like {
    ($($fname:ident = $lit:literal),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $fname(path: *const c_char, buf: *mut c_void) -> c_int {
            type F = unsafe extern "C" fn(*const c_char, *mut c_void) -> c_int;
            let f = real_fn!($lit, F);
            if !simulated() {
                return f(path, buf);
            }
            let (logical, mapped) = map_path(path);
            match consult("stat", OpClass::Stat, &logical, false) {
                Verdict::Fail(e) => { errno_set(e); -1 }
                _ => f(mapped.as_ptr(), buf),
            }
        }
    )*};
}
stat_like!(stat = c"stat", stat64 = c"stat64", lstat = c"lstat", lstat64 = c"lstat64");

macro_rules! fstatat_like {
    ($($fname:ident = $lit:literal),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $fname(d: c_int, path: *const c_char, buf: *mut c_void, fl: c_int) -> c_int {
            type F = unsafe extern "C" fn(c_int, *const c_char, *mut c_void, c_int) -> c_int;
            let f = real_fn!($lit, F);
            if !simulated() || *path == 0 {
                return f(d, path, buf, fl);
            }
            let (logical, mapped) = map_path(path);
            match consult("stat", OpClass::Stat, &logical, false) {
                Verdict::Fail(e) => { errno_set(e); -1 }
                _ => f(d, mapped.as_ptr(), buf, fl),
            }
        }
    )*};
}
fstatat_like!(fstatat = c"fstatat", fstatat64 = c"fstatat64");

#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    type F = unsafe extern "C" fn(*const c_char, c_int) -> c_int;
    let f = real_fn!(c"access", F);
    if !simulated() {
        return f(path, mode);
    }
    let (logical, mapped) = map_path(path);
    match consult("access", OpClass::Stat, &logical, false) {
        Verdict::Fail(e) => {
            errno_set(e);
            -1
        }
        _ => f(mapped.as_ptr(), mode),
    }
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, resolved: *mut c_char) -> *mut c_char {
    type F = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;
    let f = real_fn!(c"realpath", F);
    if !simulated() || !resolved.is_null() {
        return f(path, resolved);
    }
    let (logical, mapped) = map_path(path);
    if let Verdict::Fail(e) = consult("realpath", OpClass::Stat, &logical, false) {
        errno_set(e);
        return std::ptr::null_mut();
    }
    let res = f(mapped.as_ptr(), std::ptr::null_mut());
    if res.is_null() {
        return res;
    }
    let out = CStr::from_ptr(res).to_bytes().to_vec();
    let root = state().as_ref().map(|s| s.root.clone()).unwrap_or_default();
    let stripped = out
        .strip_prefix(root.as_os_str().as_bytes())
        .map(<[u8]>::to_vec)
        .unwrap_or(out.clone());
    let stripped = if stripped.is_empty() { b"/".to_vec() } else { stripped };
    libc::free(res as *mut c_void);
    let c = CString::new(stripped).unwrap_or_default();
    libc::strdup(c.as_ptr())
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: usize) -> isize {
    type F = unsafe extern "C" fn(*const c_char, *mut c_char, usize) -> isize;
    let f = real_fn!(c"readlink", F);
    if !simulated() {
        return f(path, buf, n);
    }
    let (logical, mapped) = map_path(path);
    if let Verdict::Fail(e) = consult("readlink", OpClass::Stat, &logical, false) {
        errno_set(e);
        return -1;
    }
    f(mapped.as_ptr(), buf, n)
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    type F = unsafe extern "C" fn(*const c_char) -> *mut c_void;
    let f = real_fn!(c"opendir", F);
    if !simulated() {
        return f(path);
    }
    let (logical, mapped) = map_path(path);
    if let Verdict::Fail(e) = consult("opendir", OpClass::Open, &logical, false) {
        errno_set(e);
        return std::ptr::null_mut();
    }
    f(mapped.as_ptr())
}

fn fd_path(fd: c_int) -> Option<String> {
    state().as_ref().and_then(|s| {
        s.fds
            .iter()
            .rev()
            .find(|(f, _)| *f == fd)
            .map(|(_, p)| p.clone())
    })
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    type F = unsafe extern "C" fn(c_int, *mut c_void, usize) -> isize;
    let f = real_fn!(c"read", F);
    if !simulated() {
        return f(fd, buf, n);
    }
    let Some(path) = fd_path(fd) else {
        return f(fd, buf, n);
    };
    match consult("read", OpClass::Read, &path, false) {
        Verdict::Fail(e) => {
            errno_set(e);
            -1
        }
        Verdict::Eof => 0,
        Verdict::Short(k) => f(fd, buf, n.min(k.max(1) as usize)),
        Verdict::Garble => {
            let got = f(fd, buf, n);
            if got > 0 {
                *(buf as *mut u8) = 0xff;
            }
            got
        }
        Verdict::Pass => f(fd, buf, n),
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    type F = unsafe extern "C" fn(c_int) -> c_int;
    let f = real_fn!(c"close", F);
    if simulated() {
        if let Some(s) = state().as_mut() {
            s.fds.retain(|(x, _)| *x != fd);
        }
    }
    f(fd)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    type F = unsafe extern "C" fn(c_int, *const c_void, usize) -> isize;
    let f = real_fn!(c"write", F);
    if simulated() {
        if let Some(path) = fd_path(fd) {
            consult("write", OpClass::Any, &path, true);
        } else if fd == 1 {
            if let Some(s) = state().as_mut() {
                s.external.push("write to stdout".to_owned());
            }
            return n as isize;
        } else if fd == 2 {
            return n as isize;
        }
    }
    f(fd, buf, n)
}

macro_rules! mutate1 {
    ($($fname:ident = $lit:literal ( $($a:ident : $t:ty),* )),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $fname(path: *const c_char $(, $a: $t)*) -> c_int {
            type F = unsafe extern "C" fn(*const c_char $(, $t)*) -> c_int;
            let f = real_fn!($lit, F);
            if !simulated() {
                return f(path $(, $a)*);
            }
            let (logical, mapped) = map_path(path);
            match consult(stringify!($fname), OpClass::Any, &logical, true) {
                Verdict::Fail(e) => { errno_set(e); -1 }
                _ => f(mapped.as_ptr() $(, $a)*),
            }
        }
    )*};
}
mutate1!(
    mkdir = c"mkdir"(mode: c_uint),
    rmdir = c"rmdir"(),
    unlink = c"unlink"(),
    chmod = c"chmod"(mode: c_uint),
    truncate64 = c"truncate64"(len: i64),
    mkfifo = c"mkfifo"(mode: c_uint)
);

macro_rules! mutate2 {
    ($($fname:ident = $lit:literal),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $fname(a: *const c_char, b: *const c_char) -> c_int {
            type F = unsafe extern "C" fn(*const c_char, *const c_char) -> c_int;
            let f = real_fn!($lit, F);
            if !simulated() {
                return f(a, b);
            }
            let (la, ma) = map_path(a);
            let (lb, mb) = map_path(b);
            let logical = format!("{la} -> {lb}");
            match consult(stringify!($fname), OpClass::Any, &logical, true) {
                Verdict::Fail(e) => { errno_set(e); -1 }
                _ => f(ma.as_ptr(), mb.as_ptr()),
            }
        }
    )*};
}
mutate2!(rename = c"rename", link = c"link", symlink = c"symlink");

#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, fl: c_int) -> c_int {
    type F = unsafe extern "C" fn(c_int, *const c_char, c_int) -> c_int;
    let f = real_fn!(c"unlinkat", F);
    if !simulated() {
        return f(d, path, fl);
    }
    let logical = CStr::from_ptr(path).to_string_lossy().into_owned();
    consult("unlinkat", OpClass::Any, &logical, true);
    errno_set(libc::EROFS);
    -1
}

#[no_mangle]
pub unsafe extern "C" fn linkat(
    a: c_int,
    p: *const c_char,
    b: c_int,
    q: *const c_char,
    fl: c_int,
) -> c_int {
    type F = unsafe extern "C" fn(c_int, *const c_char, c_int, *const c_char, c_int) -> c_int;
    let f = real_fn!(c"linkat", F);
    if !simulated() {
        return f(a, p, b, q, fl);
    }
    let logical = CStr::from_ptr(q).to_string_lossy().into_owned();
    consult("linkat", OpClass::Any, &logical, true);
    errno_set(libc::EROFS);
    -1
}

fn refuse(what: &str) {
    if let Some(s) = state().as_mut() {
        s.external.push(what.to_owned());
    }
    errno_set(libc::EPERM);
}

#[no_mangle]
pub unsafe extern "C" fn socket(a: c_int, b: c_int, c: c_int) -> c_int {
    type F = unsafe extern "C" fn(c_int, c_int, c_int) -> c_int;
    let f = real_fn!(c"socket", F);
    if simulated() {
        refuse("socket");
        return -1;
    }
    f(a, b, c)
}

macro_rules! spawn_like {
    ($($fname:ident = $lit:literal),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $fname(
            pid: *mut libc::pid_t,
            path: *const c_char,
            fa: *const c_void,
            at: *const c_void,
            argv: *const *mut c_char,
            envp: *const *mut c_char,
        ) -> c_int {
            type F = unsafe extern "C" fn(*mut libc::pid_t, *const c_char, *const c_void, *const c_void, *const *mut c_char, *const *mut c_char) -> c_int;
            let f = real_fn!($lit, F);
            if simulated() {
                refuse("spawn process");
                return libc::EPERM;
            }
            f(pid, path, fa, at, argv, envp)
        }
    )*};
}
spawn_like!(posix_spawn = c"posix_spawn", posix_spawnp = c"posix_spawnp");

#[no_mangle]
pub unsafe extern "C" fn fork() -> libc::pid_t {
    type F = unsafe extern "C" fn() -> libc::pid_t;
    let f = real_fn!(c"fork", F);
    if simulated() {
        refuse("fork");
        return -1;
    }
    f()
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: c_uint) -> isize {
    type F = unsafe extern "C" fn(*mut c_void, usize, c_uint) -> isize;
    let f = real_fn!(c"getrandom", F);
    if !simulated() {
        return f(buf, n, flags);
    }
    RAND_CALLS.fetch_add(1, Ordering::SeqCst);
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    for chunk in out.chunks_mut(8) {
        let mut s = RAND_STATE.load(Ordering::SeqCst);
        let v = crate::rng::splitmix(&mut s).to_le_bytes();
        RAND_STATE.store(s, Ordering::SeqCst);
        chunk.copy_from_slice(&v[..chunk.len()]);
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    type F = unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> c_int;
    let f = real_fn!(c"clock_gettime", F);
    if !simulated() {
        return f(clk, ts);
    }
    CLOCK_CALLS.fetch_add(1, Ordering::SeqCst);
    // The simulated clock stands still except when the simulator (or a simulated sleep) moves it.
    let base: i64 = match clk {
        libc::CLOCK_REALTIME => 1_700_000_000_000_000_000,
        _ => 1_000_000_000_000,
    };
    let now = base + CLOCK_OFFSET_NS.load(Ordering::SeqCst);
    (*ts).tv_sec = now.div_euclid(1_000_000_000);
    (*ts).tv_nsec = now.rem_euclid(1_000_000_000) as c_long;
    0
}

fn sim_sleep(req: *const libc::timespec) {
    let ns = unsafe { (*req).tv_sec.saturating_mul(1_000_000_000) + (*req).tv_nsec };
    CLOCK_OFFSET_NS.fetch_add(ns, Ordering::SeqCst);
    SLEPT_NS.fetch_add(ns as u64, Ordering::SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    type F = unsafe extern "C" fn(*const libc::timespec, *mut libc::timespec) -> c_int;
    let f = real_fn!(c"nanosleep", F);
    if !simulated() {
        return f(req, rem);
    }
    sim_sleep(req);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    type F = unsafe extern "C" fn(
        libc::clockid_t,
        c_int,
        *const libc::timespec,
        *mut libc::timespec,
    ) -> c_int;
    let f = real_fn!(c"clock_nanosleep", F);
    if !simulated() {
        return f(clk, flags, req, rem);
    }
    if flags == 0 {
        sim_sleep(req);
    }
    0
}

/// Checks that the interposition really is in effect in this build; a harness that silently
/// talks to the real file system or the real clock would decide nothing.
pub fn self_test(scratch: &Path) -> Result<(), String> {
    let root = scratch.join("selftest");
    std::fs::create_dir_all(root.join("w")).map_err(|e| e.to_string())?;
    std::fs::write(root.join("w/a.txt"), b"seam").map_err(|e| e.to_string())?;
    activate(&root, 7);
    let res = std::thread::spawn(|| {
        use std::collections::HashMap;
        let a = std::fs::read_to_string("/w/a.txt").map_err(|e| format!("mapped read: {e}"))?;
        if a != "seam" {
            return Err("mapped read returned other bytes".to_owned());
        }
        if !Path::new("/w/a.txt").is_file() || Path::new("/etc/passwd").exists() {
            return Err("stat is not mapped".to_owned());
        }
        let m: HashMap<u32, u32> = (0..64).map(|i| (i, i)).collect();
        let order: Vec<u32> = m.keys().copied().collect();
        let t0 = std::time::Instant::now();
        std::thread::sleep(std::time::Duration::from_secs(3600));
        if t0.elapsed() < std::time::Duration::from_secs(3600) {
            return Err("clock is not simulated".to_owned());
        }
        arm(&[Fault {
            class: OpClass::Open,
            at: 0,
            sticky: false,
            kind: FaultKind::Errno(libc::EIO),
        }]);
        let e = std::fs::read_to_string("/w/a.txt");
        if e.as_ref().err().and_then(std::io::Error::raw_os_error) != Some(libc::EIO) {
            return Err("open fault not delivered".to_owned());
        }
        disarm();
        let _ = std::fs::write("/w/b.txt", b"x");
        Ok(order)
    })
    .join()
    .map_err(|_| "self-test thread panicked".to_owned())?;
    let order = res?;
    if !take_events().iter().any(|e| e.mutating) {
        return Err("writes are not recorded".to_owned());
    }
    set_rand(7);
    let order2 = std::thread::spawn(|| {
        let m: std::collections::HashMap<u32, u32> = (0..64).map(|i| (i, i)).collect();
        m.keys().copied().collect::<Vec<u32>>()
    })
    .join()
    .map_err(|_| "self-test thread panicked".to_owned())?;
    ACTIVE.store(false, Ordering::SeqCst);
    let _ = std::fs::remove_dir_all(&root);
    if order != order2 {
        return Err("hash order is not decided by the seed".to_owned());
    }
    Ok(())
}

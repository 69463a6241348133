//! hv_fetch OUT CACHE_DIR YEAR ISSUE: one call of download_mk_issue in a process of its own.
//!
//! Name resolution and connections are redirected to a local server (HV_PORT), and the file operations of the
//! process go through the wrappers below, which count them and, at the one named by HV_PLAN, interfere:
//!   crash:K:N   the process dies just before operation K (a write first stores N bytes)
//!   stop:K      the process stops before operation K until it is continued
//!   fail:K:E    operation K fails with errno E
//!   full:K      from operation K on nothing can be written or created (ENOSPC; the first write stores half)
//!   short:K:N   a write at operation K only takes N bytes (a legal thing to do)
//!   eintr:K     a write at operation K is interrupted (legal, too)
//! Nothing outside the scratch directory given is touched.
use libc::{c_char, c_int, c_uint, c_void, iovec, mode_t, off_t, size_t, sockaddr, sockaddr_in, socklen_t, ssize_t};
use std::{
    path::Path,
    sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst},
};

static ARMED: AtomicBool = AtomicBool::new(false);
static EVENTS: AtomicI64 = AtomicI64::new(0);
static KIND: AtomicI64 = AtomicI64::new(0);
static AT: AtomicI64 = AtomicI64::new(-1);
static ARG: AtomicI64 = AtomicI64::new(0);
static PORT: AtomicI64 = AtomicI64::new(0);
const CRASH: i64 = 1;
const STOP: i64 = 2;
const FAIL: i64 = 3;
const FULL: i64 = 4;
const SHORT: i64 = 5;
const EINTR: i64 = 6;

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

enum Do {
    Go,
    Fail(c_int),
    /// Write only this many bytes, then crash or return
    Part(usize, bool),
}

unsafe fn event(write_len: Option<usize>) -> Do {
    if !ARMED.load(SeqCst) {
        return Do::Go;
    }
    let n = EVENTS.fetch_add(1, SeqCst);
    let (kind, at, arg) = (KIND.load(SeqCst), AT.load(SeqCst), ARG.load(SeqCst));
    if kind == FULL && n >= at {
        return match write_len {
            Some(l) if n == at && l > 1 => Do::Part(l / 2, false),
            _ => Do::Fail(libc::ENOSPC),
        };
    }
    if n != at {
        return Do::Go;
    }
    match kind {
        CRASH => match write_len {
            Some(l) => Do::Part((arg as usize).min(l), true),
            None => libc::_exit(99),
        },
        STOP => {
            libc::raise(libc::SIGSTOP);
            Do::Go
        }
        FAIL => Do::Fail(arg as c_int),
        SHORT => match write_len {
            Some(l) if l > 1 => Do::Part((arg as usize).clamp(1, l), false),
            _ => Do::Go,
        },
        EINTR if write_len.is_some() => Do::Fail(libc::EINTR),
        _ => Do::Go,
    }
}

macro_rules! plain {
    ($name:ident, $nr:expr, $($arg:ident : $t:ty),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($arg: $t),*) -> c_int {
            match event(None) {
                Do::Fail(e) => {
                    set_errno(e);
                    -1
                }
                _ => libc::syscall($nr, $($arg),*) as c_int,
            }
        }
    };
}

plain!(rename, libc::SYS_rename, a: *const c_char, b: *const c_char);
plain!(renameat, libc::SYS_renameat, d: c_int, a: *const c_char, e: c_int, b: *const c_char);
plain!(renameat2, libc::SYS_renameat2, d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_uint);
plain!(link, libc::SYS_link, a: *const c_char, b: *const c_char);
plain!(linkat, libc::SYS_linkat, d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int);
plain!(unlink, libc::SYS_unlink, a: *const c_char);
plain!(unlinkat, libc::SYS_unlinkat, d: c_int, a: *const c_char, f: c_int);
plain!(mkdir, libc::SYS_mkdir, a: *const c_char, m: mode_t);
plain!(mkdirat, libc::SYS_mkdirat, d: c_int, a: *const c_char, m: mode_t);
plain!(ftruncate, libc::SYS_ftruncate, fd: c_int, n: off_t);
plain!(ftruncate64, libc::SYS_ftruncate, fd: c_int, n: off_t);
plain!(fsync, libc::SYS_fsync, fd: c_int);
plain!(fdatasync, libc::SYS_fdatasync, fd: c_int);

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if flags & (libc::O_CREAT | libc::O_WRONLY | libc::O_RDWR) != 0 {
        if let Do::Fail(e) = event(None) {
            set_errno(e);
            return -1;
        }
    }
    libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, path, flags, mode)
}

unsafe fn is_file(fd: c_int) -> bool {
    let mut st: libc::stat = std::mem::zeroed();
    libc::fstat(fd, &mut st) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFREG
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if ARMED.load(SeqCst) && is_file(fd) {
        match event(Some(n)) {
            Do::Go => (),
            Do::Fail(e) => {
                set_errno(e);
                return -1;
            }
            Do::Part(k, crash) => {
                let r = libc::syscall(libc::SYS_write, fd, buf, k) as ssize_t;
                if crash {
                    libc::_exit(99);
                }
                return r;
            }
        }
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if ARMED.load(SeqCst) && is_file(fd) && n > 0 {
        // Legal: take the first piece only
        return write(fd, (*iov).iov_base, (*iov).iov_len);
    }
    libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_: c_int, _: *mut off_t, _: c_int, _: *mut off_t, _: size_t, _: c_uint) -> ssize_t {
    set_errno(libc::ENOSYS); // the caller falls back to read and write
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut off_t, _: size_t) -> ssize_t {
    set_errno(libc::ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn splice(_: c_int, _: *mut off_t, _: c_int, _: *mut off_t, _: size_t, _: c_uint) -> ssize_t {
    set_errno(libc::ENOSYS);
    -1
}

type GetAddrInfo =
    unsafe extern "C" fn(*const c_char, *const c_char, *const libc::addrinfo, *mut *mut libc::addrinfo) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
    _node: *const c_char,
    service: *const c_char,
    hints: *const libc::addrinfo,
    res: *mut *mut libc::addrinfo,
) -> c_int {
    let real: GetAddrInfo = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"getaddrinfo\0".as_ptr() as *const c_char));
    real(b"127.0.0.1\0".as_ptr() as *const c_char, service, hints, res)
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    if (*addr).sa_family as c_int == libc::AF_INET {
        if let Do::Fail(e) = event(None) {
            set_errno(e);
            return -1;
        }
        let mut a: sockaddr_in = *(addr as *const sockaddr_in);
        a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        a.sin_port = (PORT.load(SeqCst) as u16).to_be();
        return libc::syscall(libc::SYS_connect, fd, &a as *const sockaddr_in, len) as c_int;
    }
    set_errno(libc::ENETUNREACH);
    let _ = len;
    -1
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let [out, dir, year, issue] = args.as_slice() else {
        std::process::exit(2);
    };
    PORT.store(std::env::var("HV_PORT").unwrap().parse().unwrap(), SeqCst);
    let plan = std::env::var("HV_PLAN").unwrap_or_default();
    let parts: Vec<&str> = plan.split(':').collect();
    let kinds = ["", "crash", "stop", "fail", "full", "short", "eintr"];
    KIND.store(kinds.iter().position(|k| *k == parts[0]).unwrap() as i64, SeqCst);
    if parts.len() > 1 {
        AT.store(parts[1].parse().unwrap(), SeqCst);
    }
    if parts.len() > 2 {
        ARG.store(parts[2].parse().unwrap(), SeqCst);
    }
    let issue = hun_law::mk_downloader::MkIssue {
        year: year.parse().unwrap(),
        issue: issue.parse().unwrap(),
    };
    ARMED.store(true, SeqCst);
    let r = std::panic::catch_unwind(|| hun_law::mk_downloader::download_mk_issue(&issue, Path::new(dir)));
    ARMED.store(false, SeqCst);
    let mut data = vec![];
    match r {
        Ok(Ok(b)) => {
            data.push(b'O');
            data.extend(b);
        }
        Ok(Err(e)) => {
            data.push(b'E');
            data.extend(format!("{e:?}").bytes());
        }
        Err(_) => data.push(b'P'),
    }
    std::fs::write(out, data).unwrap();
    // How many operations there were, for the statistics
    std::process::exit(100 + EVENTS.load(SeqCst).min(50) as i32);
}

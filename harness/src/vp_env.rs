//! The host environment seen by the code under test: the host name file is answered by
//! an interposed `open64`, the clock by an interposed `clock_gettime`, environment variables
//! change under a lock.

use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_int, CStr, OsStr};
use std::os::unix::ffi::OsStrExt;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, MutexGuard};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum HostFile {
    /// the real file system answers
    Real,
    Content(Vec<u8>),
    /// `open` fails with this error number
    OpenError(i32),
    /// opening succeeds, reading fails (a directory)
    Unreadable,
}

thread_local! {
    static HOST: RefCell<HostFile> = const { RefCell::new(HostFile::Real) };
}

/// A file of the harness's making, handed to the code under test
fn aside(f: impl FnOnce() -> c_int) -> c_int {
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    {
        let fd = crate::vp_watch::aside(f);
        crate::vp_watch::owned(fd);
        fd
    }
    #[cfg(not(all(target_arch = "x86_64", not(miri))))]
    f()
}

unsafe fn real_open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode) as c_int
}

unsafe fn answer(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if CStr::from_ptr(path).to_bytes() == b"/etc/hostname" {
        let h = HOST.try_with(|h| h.borrow().clone()).unwrap_or(HostFile::Real);
        match h {
            HostFile::Real => {}
            HostFile::OpenError(e) => {
                *libc::__errno_location() = e;
                return -1;
            }
            HostFile::Unreadable => {
                return real_open(c"/".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC, 0)
            }
            HostFile::Content(b) => return aside(|| {
                let fd = libc::memfd_create(c"hostname".as_ptr(), libc::MFD_CLOEXEC);
                let mut off = 0;
                while fd >= 0 && off < b.len() {
                    let n = libc::write(fd, b[off..].as_ptr().cast(), b.len() - off);
                    if n <= 0 {
                        break;
                    }
                    off += n as usize;
                }
                libc::lseek(fd, 0, libc::SEEK_SET);
                fd
            }),
        }
    }
    real_open(path, flags, mode)
}

/// # Safety
/// Same contract as open(2)
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    answer(path, flags, mode)
}

thread_local! {
    static CLOCK: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}
static FROZEN: AtomicBool = AtomicBool::new(false);

fn fixed() -> Option<(i64, i64)> {
    if FROZEN.load(Ordering::Relaxed) {
        return Some((1_700_000_000, 123_456_789));
    }
    CLOCK.try_with(|c| c.get()).unwrap_or(None)
}

/// # Safety
/// Same contract as clock_gettime(2)
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, out: *mut libc::timespec) -> c_int {
    if matches!(id, 0 | 1 | 4 | 5 | 6 | 7 | 11) {
        if let Some((s, n)) = fixed() {
            (*out).tv_sec = s as _;
            (*out).tv_nsec = n as _;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, out) as c_int
}

/// The 32-bit C library has a second one
/// # Safety
/// Same contract as clock_gettime(2), with 64-bit numbers
#[cfg(target_pointer_width = "32")]
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn __clock_gettime64(id: libc::clockid_t, out: *mut [i64; 2]) -> c_int {
    if matches!(id, 0 | 1 | 4 | 5 | 6 | 7 | 11) {
        if let Some((s, n)) = fixed() {
            *out = [s, n];
            return 0;
        }
    }
    libc::syscall(403, id, out) as c_int
}

/// # Safety
/// Same contract as gettimeofday(2)
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn gettimeofday(out: *mut libc::timeval, _zone: *mut libc::c_void) -> c_int {
    let mut t: libc::timespec = std::mem::zeroed();
    let r = clock_gettime(0, &mut t);
    (*out).tv_sec = t.tv_sec;
    (*out).tv_usec = t.tv_nsec / 1000;
    r
}

/// # Safety
/// Same contract as time(2)
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn time(out: *mut libc::time_t) -> libc::time_t {
    let mut t: libc::timespec = std::mem::zeroed();
    clock_gettime(0, &mut t);
    if !out.is_null() {
        *out = t.tv_sec;
    }
    t.tv_sec
}

/// # Safety
/// Same contract as getpid(2)
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if FROZEN.load(Ordering::Relaxed) {
        return 4711;
    }
    libc::syscall(libc::SYS_getpid) as libc::pid_t
}

/// This process sees one clock reading and one process number for ever
pub fn freeze() {
    FROZEN.store(true, Ordering::Relaxed);
}

/// The clock of this thread, while the value lives
pub struct Clock(());

impl Clock {
    pub fn at(since_1970: Duration) -> Clock {
        CLOCK.with(|c| c.set(Some((since_1970.as_secs() as i64, since_1970.subsec_nanos().into()))));
        Clock(())
    }
    /// Some seconds before 1970
    pub fn early(secs: u32) -> Clock {
        CLOCK.with(|c| c.set(Some((-i64::from(secs), 0))));
        Clock(())
    }
    /// Stops the clock where it is
    pub fn stop() -> Clock {
        let now = std::time::SystemTime::now();
        Clock::at(now.duration_since(std::time::UNIX_EPOCH).unwrap_or_default())
    }
}

impl Drop for Clock {
    fn drop(&mut self) {
        CLOCK.with(|c| c.set(None));
    }
}

static ENV: Mutex<()> = Mutex::new(());

pub const VARS: [&str; 4] = ["COMPUTERNAME", "COMPUTERDNSNAME", "USERDOMAIN", "USERDNSDOMAIN"];

pub struct EnvGuard {
    _lock: MutexGuard<'static, ()>,
}

impl Drop for EnvGuard {
    fn drop(&mut self) {
        HOST.with(|h| *h.borrow_mut() = HostFile::Real);
        reset();
    }
}

fn reset() {
    std::env::set_var("COMPUTERNAME", "VPHOST");
    for v in &VARS[1..] {
        std::env::remove_var(v);
    }
}

/// Fixed environment for every other check
pub fn init() {
    reset();
}

/// Installs an environment until the guard is dropped
pub fn with(vars: &[(&str, Option<Vec<u8>>)], host: HostFile) -> EnvGuard {
    let lock = ENV.lock().unwrap_or_else(|e| e.into_inner());
    for v in VARS {
        std::env::remove_var(v);
    }
    for (k, v) in vars {
        if let Some(v) = v {
            std::env::set_var(k, OsStr::from_bytes(v));
        }
    }
    HOST.with(|h| *h.borrow_mut() = host);
    EnvGuard { _lock: lock }
}

/// Checks that the interposition works in this build
pub fn self_test() -> Result<(), String> {
    let _g = with(&[], HostFile::Content(b"probe.example\n".to_vec()));
    match std::fs::read_to_string("/etc/hostname") {
        Ok(s) if s == "probe.example\n" => {}
        x => return Err(format!("host name file interposition does not work: {x:?}")),
    }
    drop(_g);
    let _g = with(&[], HostFile::OpenError(libc::EACCES));
    if std::fs::read_to_string("/etc/hostname").is_ok() {
        return Err("host name file failure injection does not work".into());
    }
    drop(_g);
    let _g = with(&[], HostFile::Unreadable);
    if std::fs::read_to_string("/etc/hostname").is_ok() {
        return Err("host name file read failure injection does not work".into());
    }
    drop(_g);
    let t = std::time::UNIX_EPOCH + Duration::new(5_000_000_000, 700);
    let _c = Clock::at(Duration::new(5_000_000_000, 700));
    if std::time::SystemTime::now() != t {
        return Err("clock interposition does not work".into());
    }
    Ok(())
}

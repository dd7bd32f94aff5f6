//! What a thread asks of the operating system: a seccomp filter turns every call but harmless
//! ones into a signal, whose handler notes it and carries it out, or refuses what would have
//! an effect beyond the process's own memory.

use std::cell::{Cell, UnsafeCell};
use std::ffi::{c_int, c_long, c_void};
use std::sync::Once;

const MAX: usize = 32;

/// What the operating system answers differently from now on
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// at most so many bytes at a time, every other call interrupted
    Pieces(usize),
    /// refused with an error number after so many calls
    Fail(usize, c_int),
    /// so many times so many bytes, then refused
    Cut(usize, usize, c_int),
}

#[derive(Clone, Copy, Debug)]
pub struct Faults {
    pub random: Fault,
    pub read: Fault,
    /// of writing to standard error
    pub error: Fault,
}

pub const NO_FAULTS: Faults = Faults { random: Fault::None, read: Fault::None, error: Fault::None };

struct State {
    faults: Cell<Faults>,
    /// calls of each kind
    tried: [Cell<usize>; 3],
    /// random bytes handed out, and times they were refused
    given: Cell<usize>,
    refused: Cell<usize>,
    on: Cell<bool>,
    /// what happened that should not: call number, first two arguments
    noted: UnsafeCell<[(c_long, u64, u64); MAX]>,
    count: Cell<usize>,
    open: UnsafeCell<[c_int; MAX]>,
    opened: Cell<usize>,
    calls: Cell<usize>,
}

thread_local! {
    static STATE: State = const { State {
        faults: Cell::new(NO_FAULTS),
        tried: [const { Cell::new(0) }; 3],
        given: Cell::new(0),
        refused: Cell::new(0),
        on: Cell::new(false),
        noted: UnsafeCell::new([(0, 0, 0); MAX]),
        count: Cell::new(0),
        open: UnsafeCell::new([-1; MAX]),
        opened: Cell::new(0),
        calls: Cell::new(0),
    } };
}

std::arch::global_asm!(
    ".globl vp_raw_call",
    "vp_raw_call:",
    "mov rax, rdi",
    "mov rdi, rsi",
    "mov rsi, rdx",
    "mov rdx, rcx",
    "mov r10, r8",
    "mov r8, r9",
    "mov r9, [rsp + 8]",
    "syscall",
    ".globl vp_raw_after",
    "vp_raw_after:",
    "ret",
);
extern "C" {
    fn vp_raw_call(nr: c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> c_long;
    fn vp_raw_after();
}

/// Calls that the filter lets through: memory, time, waiting for other threads, questions
/// about the process, the end of a thread
const FREE: &[c_long] = &[
    libc::SYS_mmap,
    libc::SYS_munmap,
    libc::SYS_mremap,
    libc::SYS_mprotect,
    libc::SYS_madvise,
    libc::SYS_brk,
    libc::SYS_futex,
    libc::SYS_clock_gettime,
    libc::SYS_clock_getres,
    libc::SYS_gettimeofday,
    libc::SYS_time,
    libc::SYS_getpid,
    libc::SYS_gettid,
    libc::SYS_getuid,
    libc::SYS_geteuid,
    libc::SYS_getgid,
    libc::SYS_getegid,
    libc::SYS_getppid,
    libc::SYS_uname,
    libc::SYS_sysinfo,
    libc::SYS_getcpu,
    libc::SYS_sched_yield,
    libc::SYS_sched_getaffinity,
    libc::SYS_getrusage,
    libc::SYS_getrlimit,
    libc::SYS_getcwd,
    libc::SYS_rt_sigreturn,
    libc::SYS_sigaltstack,
    libc::SYS_set_robust_list,
    libc::SYS_rseq,
    libc::SYS_exit,
    libc::SYS_tgkill,
    libc::SYS_stat,
    libc::SYS_lstat,
    libc::SYS_fstat,
    libc::SYS_newfstatat,
    libc::SYS_statx,
    libc::SYS_access,
    libc::SYS_faccessat,
    libc::SYS_readlink,
    libc::SYS_readlinkat,
    libc::SYS_lseek,
    libc::SYS_getdents64,
    libc::SYS_pread64,
];

fn failed(e: c_int) -> c_long {
    -c_long::from(e)
}

unsafe fn judge(s: &State, nr: c_long, a: [u64; 6]) -> c_long {
    let go = || vp_raw_call(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if !s.on.get() {
        return match nr {
            // cannot be done from within a handler
            libc::SYS_clone | libc::SYS_clone3 | libc::SYS_fork | libc::SYS_vfork => failed(libc::EPERM),
            _ => go(),
        };
    }
    s.calls.set(s.calls.get() + 1);
    let open = &mut *s.open.get();
    let mine = open[..s.opened.get()].iter().position(|f| *f == a[0] as c_int);
    let read_only = |flags: u64| {
        let f = flags as c_int;
        f & libc::O_ACCMODE == libc::O_RDONLY && f & (libc::O_CREAT | libc::O_TRUNC | (libc::O_TMPFILE & !libc::O_DIRECTORY)) == 0
    };
    let made = |r: c_long| {
        if r >= 0 {
            own(s, r as c_int);
        }
        r
    };
    // carried out in part, or not at all
    let at_most = |fault: Fault, which: usize, size: usize| -> c_long {
        let n = s.tried[which].get();
        s.tried[which].set(n + 1);
        match fault {
            Fault::None => go(),
            Fault::Pieces(k) => {
                if n % 2 == 0 {
                    return failed(libc::EINTR);
                }
                let mut b = a;
                b[size] = b[size].min(k as u64);
                vp_raw_call(nr, b[0], b[1], b[2], b[3], b[4], b[5])
            }
            Fault::Fail(k, e) | Fault::Cut(k, _, e) if n >= k => failed(e),
            Fault::Fail(..) => go(),
            Fault::Cut(_, k, _) => {
                let mut b = a;
                b[size] = b[size].min(k as u64);
                vp_raw_call(nr, b[0], b[1], b[2], b[3], b[4], b[5])
            }
        }
    };
    let f = s.faults.get();
    let device = |p: u64| matches!(f.random, Fault::Fail(..) | Fault::Cut(..)) && starts(p, b"/dev/");
    match nr {
        libc::SYS_getrandom => {
            let r = at_most(f.random, 0, 1);
            if r >= 0 {
                s.given.set(s.given.get() + r as usize);
            } else if r != failed(libc::EINTR) {
                s.refused.set(s.refused.get() + 1);
            }
            return r;
        }
        libc::SYS_open if device(a[0]) => return failed(libc::ENOENT),
        libc::SYS_openat if device(a[1]) => return failed(libc::ENOENT),
        libc::SYS_open if read_only(a[1]) => return made(go()),
        libc::SYS_openat if read_only(a[2]) => return made(go()),
        libc::SYS_close if mine.is_some() => {
            let n = s.opened.get();
            open[mine.unwrap_or(0)] = open[n - 1];
            s.opened.set(n - 1);
            return go();
        }
        // standard error is for diagnostics
        libc::SYS_write if a[0] == 2 => return at_most(f.error, 1, 2),
        libc::SYS_writev if a[0] == 2 => {
            return match f.error {
                Fault::Fail(..) | Fault::Cut(..) => at_most(f.error, 1, 2),
                _ => go(),
            }
        }
        libc::SYS_read if mine.is_some() => return at_most(f.read, 2, 2),
        libc::SYS_readv | libc::SYS_fadvise64 if mine.is_some() => return go(),
        libc::SYS_fcntl => match a[1] as c_int {
            libc::F_GETFD | libc::F_GETFL => return go(),
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC if mine.is_some() => return made(go()),
            libc::F_SETFD if mine.is_some() => return go(),
            _ => {}
        },
        libc::SYS_dup if mine.is_some() => return made(go()),
        // whether it is a terminal, and how many bytes are left
        libc::SYS_ioctl if matches!(a[1], 0x5401 | 0x5413 | 0x541b) => return go(),
        libc::SYS_ioctl if a[1] == 0x5451 && mine.is_some() => return go(),
        libc::SYS_prlimit64 if a[2] == 0 => return go(),
        // a question when no handler is given
        libc::SYS_rt_sigaction if a[1] == 0 => return go(),
        // PR_GET_NAME
        libc::SYS_prctl if a[0] == 16 => return go(),
        libc::SYS_poll if a[2] == 0 => return go(),
        _ => {}
    }
    note(s, nr, a[0], a[1]);
    if nr == libc::SYS_exit_group {
        return go();
    }
    failed(libc::EPERM)
}

unsafe fn starts(p: u64, with: &[u8]) -> bool {
    let p = p as *const u8;
    (0..with.len()).all(|i| *p.add(i) == with[i])
}

fn own(s: &State, fd: c_int) {
    let n = s.opened.get();
    if n < MAX {
        unsafe { (*s.open.get())[n] = fd };
        s.opened.set(n + 1);
    }
}

fn note(s: &State, nr: c_long, a: u64, b: u64) {
    let n = s.count.get();
    if n < MAX {
        unsafe { (*s.noted.get())[n] = (nr, a, b) };
        s.count.set(n + 1);
    }
}

/// A thread that blocked the signal of the filter would be killed by it
unsafe fn mask(now: &mut libc::sigset_t, a: [u64; 6]) -> c_long {
    let now = (now as *mut libc::sigset_t).cast::<u64>();
    let was = *now;
    if a[1] != 0 {
        let set = *(a[1] as *const u64);
        let new = match a[0] as c_int {
            libc::SIG_BLOCK => was | set,
            libc::SIG_UNBLOCK => was & !set,
            libc::SIG_SETMASK => set,
            _ => return failed(libc::EINVAL),
        };
        *now = new & !(1 << (libc::SIGSYS - 1));
    }
    if a[2] != 0 {
        *(a[2] as *mut u64) = was;
    }
    0
}

unsafe extern "C" fn trapped(_: c_int, info: *mut libc::siginfo_t, context: *mut c_void) {
    let u = &mut *(context as *mut libc::ucontext_t);
    let g = &mut u.uc_mcontext.gregs;
    let reg = |r: c_int| g[r as usize] as u64;
    let a = [reg(libc::REG_RDI), reg(libc::REG_RSI), reg(libc::REG_RDX), reg(libc::REG_R10), reg(libc::REG_R8), reg(libc::REG_R9)];
    // struct { signo, errno, code, padding, call address, call number, .. }
    let nr = *(info as *const c_int).add(6);
    if c_long::from(nr) == libc::SYS_rt_sigprocmask {
        g[libc::REG_RAX as usize] = mask(&mut u.uc_sigmask, a);
        return;
    }
    let errno = *libc::__errno_location();
    let r = match STATE.try_with(|s| judge(s, nr.into(), a)) {
        Ok(r) => r,
        Err(_) => vp_raw_call(nr.into(), a[0], a[1], a[2], a[3], a[4], a[5]),
    };
    *libc::__errno_location() = errno;
    g[libc::REG_RAX as usize] = r;
}

/// From now on this thread's calls are told; there is no way back
fn install() -> Result<(), String> {
    static HANDLER: Once = Once::new();
    HANDLER.call_once(|| unsafe {
        let mut s: libc::sigaction = std::mem::zeroed();
        s.sa_sigaction = trapped as *const () as usize;
        s.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSYS, &s, std::ptr::null_mut());
    });
    let ins = |code: u32, jt: u8, jf: u8, k: u32| libc::sock_filter { code: code as u16, jt, jf, k };
    const LD: u32 = libc::BPF_LD | libc::BPF_W | libc::BPF_ABS;
    const EQ: u32 = libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K;
    const RET: u32 = libc::BPF_RET | libc::BPF_K;
    let back = vp_raw_after as *const () as u64;
    let mut p = vec![
        ins(LD, 0, 0, 8),
        ins(EQ, 0, 3, back as u32),
        ins(LD, 0, 0, 12),
        ins(EQ, 0, 1, (back >> 32) as u32),
        ins(RET, 0, 0, libc::SECCOMP_RET_ALLOW),
        // the architecture
        ins(LD, 0, 0, 4),
        ins(EQ, 1, 0, 0xc000_003e),
        ins(RET, 0, 0, libc::SECCOMP_RET_TRAP),
        ins(LD, 0, 0, 0),
    ];
    for (k, nr) in FREE.iter().enumerate() {
        p.push(ins(EQ, (FREE.len() - k) as u8, 0, *nr as u32));
    }
    p.push(ins(RET, 0, 0, libc::SECCOMP_RET_TRAP));
    p.push(ins(RET, 0, 0, libc::SECCOMP_RET_ALLOW));
    let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
    unsafe {
        if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0
            || libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog) != 0
        {
            return Err(std::io::Error::last_os_error().to_string());
        }
    }
    Ok(())
}

/// Runs something without its calls being noted, such as an answer of the host environment
/// that the harness makes up
pub fn aside<T>(f: impl FnOnce() -> T) -> T {
    let was = STATE.try_with(|s| s.on.replace(false)).unwrap_or(false);
    let r = f();
    let _ = STATE.try_with(|s| s.on.set(was));
    r
}

/// A file that the harness opens on behalf of the code under test
pub fn owned(fd: c_int) {
    let _ = STATE.try_with(|s| {
        if s.on.get() && fd >= 0 {
            own(s, fd);
        }
    });
}

pub struct Told {
    pub effects: Vec<String>,
    pub left_open: usize,
    /// calls that were looked at
    pub calls: usize,
    /// random bytes handed out, and times they were refused
    pub given: usize,
    pub refused: usize,
}

pub struct Watch(());

impl Watch {
    pub fn begin() -> Result<Watch, String> {
        install()?;
        Ok(Watch(()))
    }
    /// What `f` asks for, with the operating system at fault
    pub fn faulty<T>(&self, faults: Faults, f: impl FnOnce() -> T) -> (T, Told) {
        STATE.with(|s| s.faults.set(faults));
        let r = self.during(f);
        STATE.with(|s| s.faults.set(NO_FAULTS));
        r
    }
    /// What `f` asks for; a panic goes on
    pub fn during<T>(&self, f: impl FnOnce() -> T) -> (T, Told) {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                STATE.with(|s| s.on.set(false));
            }
        }
        STATE.with(|s| {
            s.count.set(0);
            s.given.set(0);
            s.refused.set(0);
            s.tried.iter().for_each(|t| t.set(0));
            s.calls.set(0);
            s.opened.set(0);
            s.on.set(true);
        });
        let off = Off;
        let r = f();
        drop(off);
        let told = STATE.with(|s| {
            let noted = unsafe { (&*s.noted.get())[..s.count.get()].to_vec() };
            let left = unsafe { (&*s.open.get())[..s.opened.get()].to_vec() };
            for fd in &left {
                unsafe { libc::close(*fd) };
            }
            Told {
                effects: noted.iter().map(|(nr, a, b)| format!("{}({a:#x}, {b:#x}, ..)", name(*nr))).collect(),
                left_open: left.len(),
                calls: s.calls.get(),
                given: s.given.get(),
                refused: s.refused.get(),
            }
        });
        (r, told)
    }
}

fn name(nr: c_long) -> String {
    macro_rules! names {
        ($($n:ident)*) => { match nr { $(libc::$n => stringify!($n)[4..].to_string(),)* _ => format!("system call {nr}") } };
    }
    names!(SYS_read SYS_write SYS_open SYS_close SYS_openat SYS_creat SYS_socket SYS_connect SYS_sendto SYS_sendmsg
        SYS_clone SYS_clone3 SYS_fork SYS_vfork SYS_execve SYS_execveat SYS_kill SYS_unlink SYS_unlinkat SYS_rename
        SYS_renameat SYS_renameat2 SYS_mkdir SYS_mkdirat SYS_rmdir SYS_chdir SYS_fchdir SYS_rt_sigaction SYS_umask
        SYS_pipe SYS_pipe2 SYS_dup SYS_dup2 SYS_dup3 SYS_nanosleep SYS_clock_nanosleep SYS_poll SYS_ppoll SYS_writev
        SYS_setitimer SYS_alarm SYS_prctl SYS_exit_group SYS_ftruncate SYS_pwrite64 SYS_memfd_create SYS_symlink
        SYS_link SYS_chmod SYS_fchmod SYS_epoll_create1 SYS_eventfd2 SYS_prlimit64 SYS_setrlimit SYS_fcntl SYS_ioctl
        SYS_mlock SYS_sethostname SYS_setuid SYS_setpriority)
}

/// Whether all this works here
pub fn self_test() -> Result<(), String> {
    let check = || -> Result<(), String> {
        let w = Watch::begin()?;
        let (_, t) = w.during(|| std::fs::write("/nonexistent/vp", "x").is_ok());
        if t.effects.len() != 1 {
            return Err(format!("creating a file is noted as {:?}", t.effects));
        }
        let (r, t) = w.during(|| unsafe { libc::write(1, c"".as_ptr().cast(), 0) });
        if r != -1 || t.effects.len() != 1 {
            return Err(format!("writing is noted as {:?}", t.effects));
        }
        let (r, t) = w.during(|| std::fs::read("/proc/self/comm").map(|b| b.len()));
        if r.is_err() || !t.effects.is_empty() || t.left_open != 0 || t.calls == 0 {
            return Err(format!("reading is noted as {:?} {}", t.effects, t.left_open));
        }
        let (_, t) = w.during(|| std::fs::File::open("/proc/self/comm").map(std::mem::forget));
        if t.left_open != 1 {
            return Err("an open file is not noticed".into());
        }
        let one = Faults { read: Fault::Pieces(1), ..NO_FAULTS };
        let (r, _) = w.faulty(one, || unsafe {
            let fd = libc::open(c"/proc/self/comm".as_ptr(), libc::O_RDONLY);
            let mut b = [0u8; 8];
            let r = [0, 1].map(|_| libc::read(fd, b.as_mut_ptr().cast(), 8));
            libc::close(fd);
            r
        });
        if r != [-1, 1] {
            return Err(format!("reading in pieces gives {r:?}"));
        }
        let none = Faults { random: Fault::Fail(0, libc::EIO), ..NO_FAULTS };
        let (r, t) = w.faulty(none, || unsafe { libc::getrandom([0u8; 4].as_mut_ptr().cast(), 4, 0) });
        if r != -1 || t.refused != 1 {
            return Err("random bytes cannot be refused".into());
        }
        let (r, t) = w.during(|| std::thread::Builder::new().spawn(|| {}).is_err());
        if !r || t.effects.is_empty() {
            return Err("a thread is not noticed".into());
        }
        Ok(())
    };
    std::thread::scope(|s| s.spawn(check).join()).map_err(|_| "panic".to_string())?
}

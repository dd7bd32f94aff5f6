//! C27: the SSPI client of src/win.rs, compiled against the real bindings and linked to a model of SSPI
//! that answers as scripted and watches what it is handed.

use crate::vp_alloc::blocks;
use crate::vp_engine::{catch, no_enum, no_finish, Case, Outcome, Property};
use crate::vp_gen as g;
use crate::vp_make as mk;
use http_ntlm_win::win::WinClient;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::ffi::{c_char, c_void, CStr};
use windows::Win32::Security::Authentication::Identity::{SecBuffer, SecBufferDesc, SECBUFFER_TOKEN};
use windows::Win32::Security::Credentials::SecHandle;

const OK: i32 = 0;
const CONTINUE: i32 = 0x0009_0312;
const COMPLETE: i32 = 0x0009_0313;
const COMPLETE_AND_CONTINUE: i32 = 0x0009_0314;
/// INSUFFICIENT_MEMORY, INVALID_HANDLE, TARGET_UNKNOWN, INTERNAL_ERROR, INVALID_TOKEN, LOGON_DENIED,
/// NO_CREDENTIALS, MESSAGE_ALTERED, OUT_OF_SEQUENCE, NO_AUTHENTICATING_AUTHORITY, INCOMPLETE_MESSAGE,
/// BUFFER_TOO_SMALL, WRONG_PRINCIPAL, TIME_SKEW, UNSUPPORTED_FUNCTION, E_FAIL
const ERRORS: [u32; 16] = [
    0x8009_0300, 0x8009_0301, 0x8009_0303, 0x8009_0304, 0x8009_0308, 0x8009_030c, 0x8009_030e, 0x8009_030f,
    0x8009_0310, 0x8009_0311, 0x8009_0318, 0x8009_0321, 0x8009_0322, 0x8009_0324, 0x8009_0302, 0x8000_4005,
];
const TOO_SMALL: i32 = 0x8009_0321_u32 as i32;
/// what the Negotiate package may need
const TOKEN_MAX: usize = 12000;
const INTEGRITY: u32 = 0x1_0000;
const ALLOCATE: u32 = 0x100;

type Id = (usize, usize);

#[derive(Clone, Debug)]
struct Answer {
    code: i32,
    token: Vec<u8>,
    /// on failure: what to leave in the size of the output buffer
    failed_size: Option<u32>,
    /// on failure of the first call: whether to scribble on the handle
    scribble: bool,
    /// what CompleteAuthToken does: code, and bytes it changes
    complete: i32,
    patch: u8,
    attr: u32,
}

#[derive(Default)]
struct Sspi {
    on: bool,
    acquire: i32,
    nonce: usize,
    target: Vec<u8>,
    /// which client is being called
    acting: usize,
    /// whether held, and by which client
    credentials: BTreeMap<Id, (bool, usize)>,
    contexts: BTreeMap<Id, (bool, usize)>,
    answers: VecDeque<Answer>,
    /// message the next call has to be handed
    message: Option<Vec<u8>>,
    /// the context it has to continue
    current: Option<Id>,
    completing: Option<(Id, Vec<u8>, i32, u8)>,
    wrong: Vec<String>,
    calls: usize,
    completed: usize,
    allocated: Vec<(usize, usize)>,
}

thread_local! {
    static SSPI: RefCell<Sspi> = RefCell::new(Sspi::default());
}

impl Sspi {
    fn bad(&mut self, what: String) {
        if self.wrong.len() < 4 {
            self.wrong.push(what);
        }
    }
    fn new_id(&mut self) -> Id {
        self.nonce = self.nonce.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(0x1234_5677) | 1;
        (self.nonce, self.nonce.rotate_left(23) ^ 0x55aa)
    }
    fn live_contexts(&self) -> usize {
        self.contexts.values().filter(|x| **x == (true, self.acting)).count()
    }
    fn live_credentials(&self) -> usize {
        self.credentials.values().filter(|x| **x == (true, self.acting)).count()
    }
}

fn id(h: *const SecHandle) -> Option<Id> {
    if h.is_null() {
        return None;
    }
    unsafe { Some(((*h).dwLower, (*h).dwUpper)) }
}

unsafe fn text(p: *const c_char) -> Option<Vec<u8>> {
    (!p.is_null()).then(|| CStr::from_ptr(p).to_bytes().to_vec())
}

#[no_mangle]
pub unsafe extern "system" fn AcquireCredentialsHandleA(
    _principal: *const c_char,
    package: *const c_char,
    usage: u32,
    _logon: *const c_void,
    _auth: *const c_void,
    _key: *mut c_void,
    _arg: *const c_void,
    handle: *mut SecHandle,
    expiry: *mut i64,
) -> i32 {
    SSPI.with(|s| {
        let s = &mut *s.borrow_mut();
        let package = text(package).unwrap_or_default();
        if package != b"Negotiate" && package != b"NTLM" {
            s.bad(format!("security package {:?}", String::from_utf8_lossy(&package)));
        }
        if usage & 2 == 0 {
            s.bad(format!("credentials for use {usage}, not outbound"));
        }
        if handle.is_null() {
            s.bad("no place for the credentials".into());
            return ERRORS[3] as i32;
        }
        if s.acquire != OK {
            return s.acquire;
        }
        let i = s.new_id();
        s.credentials.insert(i, (true, s.acting));
        *handle = SecHandle { dwLower: i.0, dwUpper: i.1 };
        if !expiry.is_null() {
            *expiry = 0x7fff_ffff_0000;
        }
        OK
    })
}

/// The one token buffer of a description
unsafe fn token_buffer(d: *const SecBufferDesc) -> Result<*mut SecBuffer, String> {
    if (*d).ulVersion != 0 {
        return Err(format!("buffer description of version {}", (*d).ulVersion));
    }
    let all = if (*d).cBuffers == 0 { &mut [][..] } else { std::slice::from_raw_parts_mut((*d).pBuffers, (*d).cBuffers as usize) };
    let mut tokens = all.iter_mut().filter(|b| b.BufferType & 0xffff == SECBUFFER_TOKEN);
    match (tokens.next(), tokens.next()) {
        (Some(b), None) => Ok(b as *mut _),
        (a, _) => Err(format!("{} token buffers", if a.is_none() { "no" } else { "several" })),
    }
}

#[no_mangle]
pub unsafe extern "system" fn InitializeSecurityContextA(
    credential: *const SecHandle,
    context: *const SecHandle,
    target: *const c_char,
    request: u32,
    reserved1: u32,
    _rep: u32,
    input: *const SecBufferDesc,
    reserved2: u32,
    new_context: *mut SecHandle,
    output: *mut SecBufferDesc,
    attr: *mut u32,
    expiry: *mut i64,
) -> i32 {
    SSPI.with(|s| {
        let s = &mut *s.borrow_mut();
        s.calls += 1;
        match id(credential) {
            Some(i) if s.credentials.get(&i) == Some(&(true, s.acting)) => {}
            other => s.bad(format!("InitializeSecurityContext with credentials {other:x?} that the client does not hold")),
        }
        if (reserved1, reserved2) != (0, 0) {
            s.bad(format!("reserved arguments {reserved1} and {reserved2}"));
        }
        if request & INTEGRITY == 0 {
            s.bad(format!("a context is requested with {request:x}, without integrity"));
        }
        let given = id(context);
        match given {
            Some(i) if s.contexts.get(&i) == Some(&(true, s.acting)) => {}
            Some(i) => {
                s.bad(format!("InitializeSecurityContext with a context {i:x?} that the client does not hold"));
                return ERRORS[1] as i32;
            }
            None => {}
        }
        if let Some(want) = s.current {
            if given != Some(want) {
                s.bad(format!("a challenge is answered with context {given:x?} instead of the one that negotiated"));
            }
        }
        let name = text(target).unwrap_or_default();
        if name != s.target {
            let want = String::from_utf8_lossy(&s.target).into_owned();
            s.bad(format!("target {:?} instead of {want:?}", String::from_utf8_lossy(&name)));
        }
        let handed = if input.is_null() {
            Ok(None)
        } else {
            token_buffer(input).map(|b| {
                let b = &*b;
                Some(if b.cbBuffer == 0 { vec![] } else { std::slice::from_raw_parts(b.pvBuffer as *const u8, b.cbBuffer as usize).to_vec() })
            })
        };
        match (&handed, &s.message) {
            (Err(e), _) => s.bad(format!("input: {e}")),
            (Ok(None), None) => {}
            (Ok(Some(x)), None) if x.is_empty() => {}
            (Ok(x), Some(m)) if x.as_deref().unwrap_or_default() == &m[..] => {}
            (Ok(x), m) => s.bad(format!("input {} instead of {}", mk::short(x), mk::short(m))),
        }
        let Some(mut a) = s.answers.pop_front() else {
            s.bad("InitializeSecurityContext is called once too often".into());
            return ERRORS[3] as i32;
        };
        let out = match if output.is_null() { Err("none".into()) } else { token_buffer(output) } {
            Ok(b) => &mut *b,
            Err(e) => {
                s.bad(format!("output: {e}"));
                return ERRORS[3] as i32;
            }
        };
        if request & ALLOCATE == 0 {
            let size = out.cbBuffer as usize;
            if size > 0 && out.pvBuffer.is_null() {
                s.bad(format!("output buffer of {size} bytes at 0"));
                return ERRORS[3] as i32;
            }
            if let Some(room) = blocks::room(out.pvBuffer as *const u8) {
                if room < size {
                    s.bad(format!("output buffer of {size} bytes where {room} are left"));
                    return ERRORS[3] as i32;
                }
            }
            if a.code >= 0 && a.token.len() > size {
                s.bad(format!("output buffer of {size} bytes, the token has {}", a.token.len()));
                a.code = TOO_SMALL;
            }
        }
        if a.code < 0 {
            if let Some(n) = a.failed_size {
                out.cbBuffer = n;
            }
            if a.scribble && given.is_none() && !new_context.is_null() {
                *new_context = SecHandle { dwLower: usize::MAX, dwUpper: usize::MAX };
            }
            return a.code;
        }
        if request & ALLOCATE != 0 {
            let v = a.token.clone().into_boxed_slice();
            let n = v.len();
            out.pvBuffer = Box::into_raw(v) as *mut c_void;
            s.allocated.push((out.pvBuffer as usize, n));
        } else if !a.token.is_empty() {
            std::ptr::copy_nonoverlapping(a.token.as_ptr(), out.pvBuffer as *mut u8, a.token.len());
        }
        out.cbBuffer = a.token.len() as u32;
        let i = match given {
            Some(i) => i,
            None => {
                let i = s.new_id();
                s.contexts.insert(i, (true, s.acting));
                i
            }
        };
        if new_context.is_null() {
            if given.is_none() {
                s.bad("no place for the context".into());
            }
        } else {
            *new_context = SecHandle { dwLower: i.0, dwUpper: i.1 };
        }
        if !attr.is_null() {
            *attr = a.attr;
        }
        if !expiry.is_null() {
            *expiry = 0x7fff_ffff_0000;
        }
        if a.code == COMPLETE || a.code == COMPLETE_AND_CONTINUE {
            s.completing = Some((i, a.token.clone(), a.complete, a.patch));
        }
        a.code
    })
}

#[no_mangle]
pub unsafe extern "system" fn CompleteAuthToken(context: *const SecHandle, token: *const SecBufferDesc) -> i32 {
    SSPI.with(|s| {
        let s = &mut *s.borrow_mut();
        let Some((i, want, code, patch)) = s.completing.take() else {
            s.bad("CompleteAuthToken without need".into());
            return ERRORS[3] as i32;
        };
        if id(context) != Some(i) {
            s.bad(format!("CompleteAuthToken for context {:x?} instead of {i:x?}", id(context)));
            return ERRORS[1] as i32;
        }
        let b = match if token.is_null() { Err("none".into()) } else { token_buffer(token) } {
            Ok(b) => &mut *b,
            Err(e) => {
                s.bad(format!("CompleteAuthToken: {e}"));
                return ERRORS[3] as i32;
            }
        };
        let got = if b.cbBuffer == 0 { &mut [][..] } else { std::slice::from_raw_parts_mut(b.pvBuffer as *mut u8, b.cbBuffer as usize) };
        if got[..] != want[..] {
            s.bad(format!("CompleteAuthToken is handed {} instead of {}", mk::hex(got), mk::hex(&want)));
        }
        s.completed += 1;
        if code >= 0 {
            for x in got.iter_mut() {
                *x ^= patch;
            }
        }
        code
    })
}

fn give_back(what: &str, all: impl Fn(&mut Sspi) -> &mut BTreeMap<Id, (bool, usize)>, h: *const SecHandle) -> i32 {
    SSPI.with(|s| {
        let s = &mut *s.borrow_mut();
        if !s.on {
            return OK;
        }
        let i = id(h).unwrap_or_default();
        let acting = s.acting;
        match all(s).get_mut(&i) {
            Some((live @ true, owner)) if *owner == acting => {
                *live = false;
                OK
            }
            known => {
                let m = format!("{what} {i:x?} given back {}", match known {
                    Some((false, _)) => "twice",
                    Some(_) => "that another client holds",
                    None => "that was never held",
                });
                s.bad(m);
                ERRORS[1] as i32
            }
        }
    })
}

#[no_mangle]
pub extern "system" fn DeleteSecurityContext(h: *const SecHandle) -> i32 {
    give_back("context", |s| &mut s.contexts, h)
}

#[no_mangle]
pub extern "system" fn FreeCredentialsHandle(h: *const SecHandle) -> i32 {
    SSPI.with(|s| {
        let s = &mut *s.borrow_mut();
        if s.on && s.live_contexts() > 0 {
            s.bad("the credentials are given back before the context made with them".into());
        }
    });
    give_back("credentials", |s| &mut s.credentials, h)
}

#[no_mangle]
pub unsafe extern "system" fn FreeContextBuffer(p: *mut c_void) -> i32 {
    SSPI.with(|s| {
        let s = &mut *s.borrow_mut();
        if p.is_null() {
            return OK;
        }
        match s.allocated.iter().position(|x| x.0 == p as usize) {
            Some(i) => {
                let (p, n) = s.allocated.remove(i);
                drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(p as *mut u8, n)));
                OK
            }
            None => {
                s.bad("a buffer is freed that SSPI did not allocate".into());
                ERRORS[1] as i32
            }
        }
    })
}

fn token(c: &mut Case) -> Vec<u8> {
    match c.weighted(&[6, 4, 2, 1, 1]) {
        0 => {
            let n = c.below(80);
            g::bytes(c, n)
        }
        1 => {
            let mut b = mk::neg(c).bytes();
            b.truncate(TOKEN_MAX);
            b
        }
        2 => {
            let n = g::len(c, TOKEN_MAX);
            let mut r = c.bulk();
            (0..n).map(|_| r.next() as u8).collect()
        }
        3 => vec![0xa5; c.below(200)],
        _ => {
            let mut r = c.bulk();
            let n = TOKEN_MAX - c.below(3);
            (0..n).map(|_| r.next() as u8).collect()
        }
    }
}

fn failure(c: &mut Case) -> i32 {
    *c.pick(&ERRORS) as i32
}

fn answer(c: &mut Case, first: bool) -> Answer {
    let code = match c.weighted(&[5, 3, 3]) {
        0 => if first { CONTINUE } else { OK },
        1 => if first { COMPLETE_AND_CONTINUE } else { COMPLETE },
        _ => failure(c),
    };
    Answer {
        code,
        token: if code < 0 { vec![] } else { token(c) },
        failed_size: match c.draw(3) {
            0 => None,
            1 => Some(0),
            2 => Some(c.draw(TOKEN_MAX as u64) as u32),
            _ => Some(c.draw(u32::MAX as u64) as u32),
        },
        scribble: c.flip(),
        complete: if c.chance(1, 3) { failure(c) } else { OK },
        patch: if c.flip() { 0 } else { c.draw(255) as u8 },
        attr: c.draw(u32::MAX as u64) as u32,
    }
}

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        blocks::TRACK.with(|t| t.set(false));
        SSPI.with(|s| {
            // taken out first: dropping it must not find it borrowed
            let old = std::mem::take(&mut *s.borrow_mut());
            drop(old);
        });
    }
}

fn wrong() -> Outcome {
    SSPI.with(|s| match s.borrow().wrong.first() {
        Some(w) => Err(w.clone()),
        None => Ok(()),
    })
}

struct Side {
    client: Option<WinClient>,
    target: String,
    negotiated: bool,
    /// one exchange is over
    done: bool,
}

fn make(c: &mut Case, k: usize) -> Result<Option<Side>, String> {
    let mut target = match c.draw(3) {
        0 => String::new(),
        1 => format!("HTTP/{}", g::ascii_text(c, 30)),
        2 => g::text(c, 40),
        _ => g::text(c, 3000),
    };
    if c.chance(1, 20) {
        let at = c.below(target.chars().count() + 1);
        let at = target.char_indices().nth(at).map_or(target.len(), |x| x.0);
        target.insert(at, '\0');
    }
    let acquire = if c.chance(1, 12) { failure(c) } else { OK };
    SSPI.with(|s| {
        let s = &mut *s.borrow_mut();
        s.acquire = acquire;
        s.acting = k;
        s.target = target.as_bytes().to_vec();
    });
    c.note(|| format!("client {k} target {target:?} AcquireCredentialsHandle {acquire:x}"));
    let valid = !target.contains('\0');
    let made = catch(|| WinClient::new(&target));
    wrong()?;
    match (made?, valid && acquire == OK) {
        (Ok(w), true) => Ok(Some(Side { client: Some(w), target, negotiated: false, done: false })),
        (Err(_), false) => {
            c.label_if(!valid, "target with NUL");
            c.label_if(acquire != OK, "no credentials");
            let held = SSPI.with(|s| s.borrow().live_credentials());
            ensure!(held == 0, "a client that was not made keeps credentials");
            Ok(None)
        }
        (Ok(w), false) => {
            std::mem::forget(w);
            Err(format!("a client is made for target {target:?} although {}", if valid { "there are no credentials" } else { "it contains NUL" }))
        }
        (Err(e), true) => Err(format!("no client for target {target:?}: {e}")),
    }
}

/// One call of a client
fn step(c: &mut Case, k: usize, side: &mut Side, may_challenge: bool) -> Outcome {
    let negotiated = side.negotiated;
    let challenge = if negotiated { !c.chance(1, 10) } else { may_challenge && c.chance(1, 4) };
    let first = !challenge;
    let mut a = answer(c, first);
    if challenge && !negotiated {
        // nothing to continue: SSPI refuses
        a.code = failure(c);
        c.label("challenge out of turn");
    }
    c.label_if(first && negotiated, "negotiates again");
    c.label_if(first && side.done, "negotiates after an exchange");
    let message = challenge.then(|| match c.weighted(&[30, 30, 10, 1]) {
        0 => mk::chal(c).bytes(),
        1 => {
            let n = g::len(c, 300);
            g::bytes(c, n)
        }
        w => {
            let n = if w == 2 { g::len(c, 60_000) } else { 60_000 + c.below(100_000) };
            c.label_if(n > 0xffff, "message of more than 64 KiB");
            let mut r = c.bulk();
            (0..n).map(|_| r.next() as u8).collect()
        }
    });
    c.note(|| {
        format!(
            "client {k} {} answered {:x} token of {} complete {:x} patch {:x} size on failure {:?} scribble {}",
            if challenge { "challenge" } else { "negotiate" },
            a.code, a.token.len(), a.complete, a.patch, a.failed_size, a.scribble
        )
    });
    let completes = a.code == COMPLETE || a.code == COMPLETE_AND_CONTINUE;
    let succeeds = a.code >= 0 && (!completes || a.complete >= 0);
    let mut want = a.token.clone();
    if completes {
        for x in want.iter_mut() {
            *x ^= a.patch;
        }
    }
    let calls = SSPI.with(|s| {
        let s = &mut *s.borrow_mut();
        s.acting = k;
        s.target = side.target.as_bytes().to_vec();
        s.answers = [a.clone()].into();
        s.message = message.clone();
        let live: Vec<Id> = s.contexts.iter().filter(|x| *x.1 == (true, k)).map(|x| *x.0).collect();
        s.current = if challenge && negotiated && live.len() == 1 { Some(live[0]) } else { None };
        (s.calls, s.completed)
    });
    let client = side.client.as_mut().unwrap();
    let what = if challenge { "challenge" } else { "negotiate" };
    let got = catch(|| match &message {
        None => client.negotiate().map(|b| b.to_vec()).map_err(|e| e.to_string()),
        Some(m) => client.challenge(m).map(|b| b.to_vec()).map_err(|e| e.to_string()),
    })
    .map_err(|e| format!("{what}: {e}"))?;
    wrong().map_err(|e| format!("{what}: {e}"))?;
    let done = SSPI.with(|s| (s.borrow().calls, s.borrow().completed));
    match (&got, succeeds) {
        (Ok(b), true) if *b == want => {
            ensure!(done.0 == calls.0 + 1, "{what} without a call of InitializeSecurityContext");
            ensure!(!completes || done.1 == calls.1 + 1, "{what} returns a token that was not completed");
        }
        (Ok(b), true) => return Err(format!("{what} returns {} instead of the token {}", mk::hex(b), mk::hex(&want))),
        // a client may refuse to answer what it never asked for
        (Err(_), false) => {}
        (Ok(b), false) => return Err(format!("{what} returns {} bytes although SSPI failed with {:x}", b.len(), if a.code < 0 { a.code } else { a.complete })),
        (Err(e), true) => return Err(format!("{what} fails with {e} although SSPI returned {:x}", a.code)),
    }
    c.label(match (challenge, succeeds) {
        (false, true) => "negotiate",
        (false, false) => "negotiate failed",
        (true, true) => "challenge answered",
        (true, false) => "challenge failed",
    });
    c.label_if(completes, "token completed");
    side.done |= challenge && succeeds;
    c.label_if(challenge && succeeds, "exchange completed");
    side.negotiated = first && succeeds;
    Ok(())
}

fn c27(c: &mut Case) -> Outcome {
    let nonce = c.draw(u64::MAX) as usize;
    let _off = Off;
    SSPI.with(|s| *s.borrow_mut() = Sspi { on: true, nonce, ..Sspi::default() });
    blocks::TRACK.with(|t| t.set(true));
    let mut sides: Vec<Option<Side>> = vec![];
    let outcome = history(c, &mut sides);
    if outcome.is_err() {
        // do not let their Drop judge a second time
        for s in sides.into_iter().flatten() {
            std::mem::forget(s.client);
        }
    }
    outcome
}

fn history(c: &mut Case, sides: &mut Vec<Option<Side>>) -> Outcome {
    let n = 1 + c.chance(1, 3) as usize;
    for k in 0..n {
        let s = make(c, k)?;
        sides.push(s);
    }
    if sides.iter().all(|s| s.is_none()) {
        return Ok(());
    }
    c.nontrivial = true;
    c.label_if(sides.iter().flatten().count() > 1, "two clients");
    // NEGOTIATE and CHALLENGE in turn; after a failure anything may be tried again
    let steps = 1 + c.below(5 * n);
    for i in 0..steps {
        let k = if n == 1 { 0 } else { c.below(n) };
        let Some(side) = sides[k].as_mut() else { continue };
        step(c, k, side, i > 0)?;
        if side.done && n == 1 && c.flip() {
            break;
        }
    }
    let order = if n == 2 && c.flip() { [1, 0] } else { [0, 1] };
    for k in order {
        let Some(Some(mut side)) = sides.get_mut(k).map(|s| s.take()) else { continue };
        SSPI.with(|s| s.borrow_mut().acting = k);
        let client = side.client.take();
        catch(|| drop(client)).map_err(|e| format!("drop: {e}"))?;
        wrong()?;
        let (cr, co) = SSPI.with(|s| (s.borrow().live_credentials(), s.borrow().live_contexts()));
        ensure!(cr == 0 && co == 0, "a client that is gone holds {cr} credentials and {co} contexts");
    }
    let al = SSPI.with(|s| s.borrow().allocated.len());
    ensure!(al == 0, "clients that are gone hold {al} buffers");
    Ok(())
}

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C27",
        rule: "targets, tokens of up to 12,000 bytes, challenges and the codes SSPI may answer with, over histories of up to five calls per client with retries after failures and further exchanges, by one or two clients at a time; non-trivial: a client was made",
        run: c27,
        cases: 1_000_000,
        enum_count: 0,
        enum_run: no_enum,
        finish: no_finish,
        assumptions: &[
            "src/win.rs is compiled for Linux with the bindings it uses on Windows and linked to a model of the SSPI functions",
            "SSPI completes after two messages, as it does for NTLM; a token is at most 12,000 bytes",
            "it is not held against a client that it continues its context when it negotiates again",
        ],
        exhaustive_note: "",
    }]
}

/// What the bindings' error type needs of the system
mod system {
    use super::*;

    #[no_mangle]
    pub extern "system" fn GetProcessHeap() -> isize {
        1
    }
    #[no_mangle]
    pub unsafe extern "system" fn HeapAlloc(_heap: isize, _flags: u32, n: usize) -> *mut c_void {
        libc::malloc(n.max(1))
    }
    #[no_mangle]
    pub unsafe extern "system" fn HeapFree(_heap: isize, _flags: u32, p: *const c_void) -> i32 {
        libc::free(p as *mut c_void);
        1
    }
    #[no_mangle]
    pub unsafe extern "system" fn FormatMessageW(
        _flags: u32,
        _source: *const c_void,
        _code: u32,
        _lang: u32,
        buffer: *mut *mut u16,
        _len: u32,
        _args: *const c_void,
    ) -> u32 {
        let text: Vec<u16> = "SSPI failed".encode_utf16().collect();
        let p = libc::malloc(text.len() * 2) as *mut u16;
        std::ptr::copy_nonoverlapping(text.as_ptr(), p, text.len());
        *buffer = p;
        text.len() as u32
    }
    #[no_mangle]
    pub extern "system" fn GetErrorInfo(_reserved: u32, _info: *mut *mut c_void) -> i32 {
        0x8000_4005_u32 as i32
    }
    #[no_mangle]
    pub extern "system" fn GetLastError() -> u32 {
        0
    }
    #[no_mangle]
    pub extern "system" fn LoadLibraryA(_name: *const c_char) -> isize {
        0
    }
    #[no_mangle]
    pub extern "system" fn GetProcAddress(_library: isize, _name: *const c_char) -> *const c_void {
        std::ptr::null()
    }
    #[no_mangle]
    pub extern "system" fn FreeLibrary(_library: isize) -> i32 {
        1
    }
    #[no_mangle]
    pub extern "system" fn SysStringLen(_s: *const c_void) -> u32 {
        0
    }
    #[no_mangle]
    pub extern "system" fn SysFreeString(_s: *const c_void) {}
}

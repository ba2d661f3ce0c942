//! A stand-in for the GSS-API library. The harness binary defines the `gss_*` functions that libgssapi
//! calls, so the linker resolves them here and the Kerberos library of the system is never entered.
//! A scenario (one per thread) says how many context tokens there are, what the two contexts can do,
//! which call fails, and who the client is; every call is recorded.
//!
//! Messages of an established context are `'W' direction conf sequence body... checksum(4)`, with the
//! body scrambled if it is encrypted; direction, order and checksum are verified by unwrapping.
#![allow(clippy::missing_safety_doc, clippy::too_many_arguments)]
use std::cell::RefCell;
use std::ffi::c_void;
use std::os::raw::c_int;

pub const MUTUAL: u32 = 2;
pub const CONF: u32 = 16;
pub const INTEG: u32 = 32;
const COMPLETE: u32 = 0;
const CONTINUE: u32 = 1;
const ERR_BAD_SIG: u32 = 6 << 16;
const ERR_NO_CTX: u32 = 8 << 16;
const ERR_DEFECTIVE: u32 = 9 << 16;
const ERR_FAILURE: u32 = 13 << 16;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call {
    Import(Vec<u8>),
    Acquire { accept: bool },
    Init { target: Vec<u8>, flags: u32, token: Option<Vec<u8>> },
    Accept { token: Vec<u8> },
    Wrap { server: bool, conf: bool, data: Vec<u8> },
    Unwrap { server: bool, data: Vec<u8> },
    Inquire { server: bool },
    Other(&'static str),
}

#[derive(Clone, Debug, Default)]
pub struct Scenario {
    /// number of context tokens, the first from the client, then alternating
    pub tokens: u32,
    pub client_flags: u32,
    pub server_flags: u32,
    pub id: u64,
    /// name of the client as the server learns it
    pub principal: Vec<u8>,
    /// the n-th fallible call fails
    pub fail_at: Option<usize>,
    pub calls: Vec<Call>,
    pub fallible: usize,
    pub failed: bool,
    /// live contexts, names, credentials, sets and buffers
    pub live: i64,
}
thread_local! {
    static S: RefCell<Scenario> = RefCell::default();
}
pub fn install(s: Scenario) {
    S.with(|c| *c.borrow_mut() = s);
}
pub fn with<T>(f: impl FnOnce(&mut Scenario) -> T) -> T {
    S.with(|c| f(&mut c.borrow_mut()))
}
fn call(c: Call) -> bool {
    with(|s| {
        s.calls.push(c);
        let n = s.fallible;
        s.fallible += 1;
        let fail = s.fail_at == Some(n);
        s.failed |= fail;
        fail
    })
}

/// The n-th context token (counting from 1).
pub fn token(n: u32) -> Vec<u8> {
    let id = with(|s| s.id);
    let mut v = format!("tok{n}-").into_bytes();
    v.extend_from_slice(&id.to_be_bytes());
    v
}
fn sum(m: &[u8], id: u64) -> [u8; 4] {
    let mut h = 0x811c_9dc5u32 ^ (id as u32) ^ ((id >> 32) as u32);
    for b in m {
        h = (h ^ u32::from(*b)).wrapping_mul(0x0100_0193);
    }
    h.to_be_bytes()
}
pub fn wrap(server: bool, conf: bool, seq: u8, data: &[u8]) -> Vec<u8> {
    let id = with(|s| s.id);
    let mut m = vec![b'W', u8::from(server), u8::from(conf), seq];
    m.extend(data.iter().enumerate().map(|(i, b)| if conf { b ^ 0xA5 ^ (i as u8) ^ seq } else { *b }));
    let c = sum(&m, id);
    m.extend_from_slice(&c);
    m
}
/// The content of a message wrapped by the given side, and whether it was encrypted.
pub fn unwrap(server: bool, seq: Option<u8>, m: &[u8]) -> Option<(Vec<u8>, bool)> {
    let id = with(|s| s.id);
    if m.len() < 8 || m[0] != b'W' || m[1] != u8::from(server) || m[2] > 1 || seq.map_or(false, |q| q != m[3]) {
        return None;
    }
    let (body, c) = m.split_at(m.len() - 4);
    if sum(body, id) != c {
        return None;
    }
    let conf = m[2] == 1;
    Some((body[4..].iter().enumerate().map(|(i, b)| if conf { b ^ 0xA5 ^ (i as u8) ^ m[3] } else { *b }).collect(), conf))
}

/* ------------------------------------------------------------------ the C interface */

#[repr(C)]
pub struct Buffer {
    length: usize,
    value: *mut c_void,
}
#[repr(C)]
pub struct Oid {
    length: u32,
    elements: *mut c_void,
}
#[repr(C)]
pub struct OidSet {
    count: usize,
    elements: *mut Oid,
}
pub struct FakeCtx {
    server: bool,
    /// tokens produced and consumed so far by both sides, as this side knows it
    seen: u32,
    complete: bool,
    seq_out: u8,
    seq_in: u8,
}
pub struct FakeName(Vec<u8>);
pub struct FakeCred;

unsafe fn bytes<'a>(b: *const Buffer) -> &'a [u8] {
    if b.is_null() || (*b).value.is_null() || (*b).length == 0 {
        &[]
    } else {
        std::slice::from_raw_parts((*b).value as *const u8, (*b).length)
    }
}
unsafe fn give(b: *mut Buffer, v: Vec<u8>) {
    if v.is_empty() {
        (*b).length = 0;
        (*b).value = std::ptr::null_mut();
        return;
    }
    let v = v.into_boxed_slice();
    (*b).length = v.len();
    (*b).value = Box::into_raw(v) as *mut c_void;
    with(|s| s.live += 1);
}

#[no_mangle]
pub unsafe extern "C" fn gss_release_buffer(_minor: *mut u32, b: *mut Buffer) -> u32 {
    if !b.is_null() && !(*b).value.is_null() {
        drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut((*b).value as *mut u8, (*b).length)));
        (*b).value = std::ptr::null_mut();
        (*b).length = 0;
        with(|s| s.live -= 1);
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_create_empty_oid_set(_minor: *mut u32, out: *mut *mut OidSet) -> u32 {
    if call(Call::Other("create_empty_oid_set")) {
        return ERR_FAILURE;
    }
    *out = Box::into_raw(Box::new(OidSet { count: 0, elements: std::ptr::null_mut() }));
    with(|s| s.live += 1);
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_add_oid_set_member(_minor: *mut u32, _oid: *mut Oid, _set: *mut *mut OidSet) -> u32 {
    // members are not looked at
    if call(Call::Other("add_oid_set_member")) {
        return ERR_FAILURE;
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_oid_set(_minor: *mut u32, set: *mut *mut OidSet) -> u32 {
    if !(*set).is_null() {
        drop(Box::from_raw(*set));
        *set = std::ptr::null_mut();
        with(|s| s.live -= 1);
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_acquire_cred(
    _minor: *mut u32, _name: *mut FakeName, _time: u32, _mechs: *mut OidSet, usage: c_int, cred: *mut *mut FakeCred, _actual: *mut *mut OidSet, _rec: *mut u32,
) -> u32 {
    if call(Call::Acquire { accept: usage == 2 }) {
        return ERR_FAILURE;
    }
    *cred = Box::into_raw(Box::new(FakeCred)).cast();
    // a zero-sized box does not allocate; any non-null pointer will do
    with(|s| s.live += 1);
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_cred(_minor: *mut u32, cred: *mut *mut FakeCred) -> u32 {
    if !(*cred).is_null() {
        *cred = std::ptr::null_mut();
        with(|s| s.live -= 1);
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_import_name(_minor: *mut u32, b: *mut Buffer, _kind: *mut Oid, out: *mut *mut FakeName) -> u32 {
    let n = bytes(b).to_vec();
    if call(Call::Import(n.clone())) {
        return ERR_FAILURE;
    }
    *out = Box::into_raw(Box::new(FakeName(n)));
    with(|s| s.live += 1);
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_name(_minor: *mut u32, n: *mut *mut FakeName) -> u32 {
    if !(*n).is_null() {
        drop(Box::from_raw(*n));
        *n = std::ptr::null_mut();
        with(|s| s.live -= 1);
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_display_name(_minor: *mut u32, n: *mut FakeName, out: *mut Buffer, kind: *mut *mut Oid) -> u32 {
    if n.is_null() || call(Call::Other("display_name")) {
        return ERR_FAILURE;
    }
    if !kind.is_null() {
        *kind = std::ptr::null_mut();
    }
    give(out, (*n).0.clone());
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_canonicalize_name(_minor: *mut u32, n: *mut FakeName, _kind: *mut Oid, out: *mut *mut FakeName) -> u32 {
    if n.is_null() || call(Call::Other("canonicalize_name")) {
        return ERR_FAILURE;
    }
    *out = Box::into_raw(Box::new(FakeName((*n).0.clone())));
    with(|s| s.live += 1);
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_duplicate_name(minor: *mut u32, n: *mut FakeName, out: *mut *mut FakeName) -> u32 {
    gss_canonicalize_name(minor, n, std::ptr::null_mut(), out)
}
#[no_mangle]
pub unsafe extern "C" fn gss_display_status(_minor: *mut u32, code: u32, _kind: c_int, _mech: *mut Oid, more: *mut u32, out: *mut Buffer) -> u32 {
    *more = 0;
    give(out, format!("fake status {code:#x}").into_bytes());
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_delete_sec_context(_minor: *mut u32, ctx: *mut *mut FakeCtx, _out: *mut Buffer) -> u32 {
    if !(*ctx).is_null() {
        drop(Box::from_raw(*ctx));
        *ctx = std::ptr::null_mut();
        with(|s| s.live -= 1);
    }
    COMPLETE
}

/// Takes the token the other side sent and returns the next one, if there is one to send.
fn advance(ctx: &mut FakeCtx, input: &[u8]) -> Result<Vec<u8>, u32> {
    let total = with(|s| s.tokens);
    if ctx.complete {
        return Err(ERR_DEFECTIVE);
    }
    // the client starts without a token
    if ctx.server || ctx.seen > 0 {
        if input != token(ctx.seen + 1) {
            return Err(ERR_DEFECTIVE);
        }
        ctx.seen += 1;
    } else if !input.is_empty() {
        return Err(ERR_DEFECTIVE);
    }
    let mut out = vec![];
    if ctx.seen < total {
        ctx.seen += 1;
        out = token(ctx.seen);
    }
    ctx.complete = ctx.seen >= total;
    Ok(out)
}

#[no_mangle]
pub unsafe extern "C" fn gss_init_sec_context(
    _minor: *mut u32, _cred: *mut FakeCred, ctx: *mut *mut FakeCtx, target: *mut FakeName, _mech: *mut Oid, flags: u32, _time: u32, _cb: *mut c_void, input: *mut Buffer,
    _actual: *mut *mut Oid, out: *mut Buffer, ret_flags: *mut u32, _time_rec: *mut u32,
) -> u32 {
    let t = if target.is_null() { vec![] } else { (*target).0.clone() };
    let tok = (!input.is_null()).then(|| bytes(input).to_vec());
    if call(Call::Init { target: t, flags, token: tok.clone() }) {
        return ERR_FAILURE;
    }
    if (*ctx).is_null() {
        *ctx = Box::into_raw(Box::new(FakeCtx { server: false, seen: 0, complete: false, seq_out: 0, seq_in: 0 }));
        with(|s| s.live += 1);
    }
    finish(&mut **ctx, &tok.unwrap_or_default(), out, ret_flags)
}
#[no_mangle]
pub unsafe extern "C" fn gss_accept_sec_context(
    _minor: *mut u32, ctx: *mut *mut FakeCtx, _cred: *mut FakeCred, input: *mut Buffer, _cb: *mut c_void, _src: *mut *mut FakeName, _mech: *mut *mut Oid, out: *mut Buffer,
    ret_flags: *mut u32, _time_rec: *mut u32, _deleg: *mut *mut FakeCred,
) -> u32 {
    let tok = bytes(input).to_vec();
    if call(Call::Accept { token: tok.clone() }) {
        return ERR_FAILURE;
    }
    if (*ctx).is_null() {
        *ctx = Box::into_raw(Box::new(FakeCtx { server: true, seen: 0, complete: false, seq_out: 0, seq_in: 0 }));
        with(|s| s.live += 1);
    }
    finish(&mut **ctx, &tok, out, ret_flags)
}
unsafe fn finish(ctx: &mut FakeCtx, tok: &[u8], out: *mut Buffer, ret_flags: *mut u32) -> u32 {
    match advance(ctx, tok) {
        Err(e) => e,
        Ok(t) => {
            give(out, t);
            if !ret_flags.is_null() {
                *ret_flags = flags_of(ctx);
            }
            if ctx.complete {
                COMPLETE
            } else {
                CONTINUE
            }
        }
    }
}
fn flags_of(ctx: &FakeCtx) -> u32 {
    with(|s| if ctx.server { s.server_flags } else { s.client_flags })
}

#[no_mangle]
pub unsafe extern "C" fn gss_inquire_context(
    _minor: *mut u32, ctx: *mut FakeCtx, src: *mut *mut FakeName, targ: *mut *mut FakeName, life: *mut u32, mech: *mut *mut Oid, flags: *mut u32, local: *mut c_int, open: *mut c_int,
) -> u32 {
    if ctx.is_null() {
        return ERR_NO_CTX;
    }
    let ctx = &mut *ctx;
    if call(Call::Inquire { server: ctx.server }) {
        return ERR_FAILURE;
    }
    if !src.is_null() {
        *src = Box::into_raw(Box::new(FakeName(with(|s| s.principal.clone()))));
        with(|s| s.live += 1);
    }
    if !targ.is_null() {
        *targ = Box::into_raw(Box::new(FakeName(b"target".to_vec())));
        with(|s| s.live += 1);
    }
    if !life.is_null() {
        *life = 3600;
    }
    if !mech.is_null() {
        *mech = std::ptr::null_mut();
    }
    if !flags.is_null() {
        *flags = flags_of(ctx);
    }
    if !local.is_null() {
        *local = c_int::from(!ctx.server);
    }
    if !open.is_null() {
        *open = c_int::from(ctx.complete);
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_wrap(_minor: *mut u32, ctx: *mut FakeCtx, conf_req: c_int, _qop: u32, input: *mut Buffer, conf_state: *mut c_int, out: *mut Buffer) -> u32 {
    if ctx.is_null() {
        return ERR_NO_CTX;
    }
    let ctx = &mut *ctx;
    let data = bytes(input).to_vec();
    if call(Call::Wrap { server: ctx.server, conf: conf_req != 0, data: data.clone() }) {
        return ERR_FAILURE;
    }
    if !ctx.complete {
        return ERR_NO_CTX;
    }
    // without the capability the library wraps without encryption
    let conf = conf_req != 0 && flags_of(ctx) & CONF != 0;
    if !conf_state.is_null() {
        *conf_state = c_int::from(conf);
    }
    let m = wrap(ctx.server, conf, ctx.seq_out, &data);
    ctx.seq_out = ctx.seq_out.wrapping_add(1);
    give(out, m);
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_unwrap(_minor: *mut u32, ctx: *mut FakeCtx, input: *mut Buffer, out: *mut Buffer, conf_state: *mut c_int, _qop: *mut u32) -> u32 {
    if ctx.is_null() {
        return ERR_NO_CTX;
    }
    let ctx = &mut *ctx;
    let data = bytes(input).to_vec();
    if call(Call::Unwrap { server: ctx.server, data: data.clone() }) {
        return ERR_FAILURE;
    }
    if !ctx.complete {
        return ERR_NO_CTX;
    }
    match unwrap(!ctx.server, Some(ctx.seq_in), &data) {
        None => ERR_BAD_SIG,
        Some((d, conf)) => {
            ctx.seq_in = ctx.seq_in.wrapping_add(1);
            if !conf_state.is_null() {
                *conf_state = c_int::from(conf);
            }
            give(out, d);
            COMPLETE
        }
    }
}

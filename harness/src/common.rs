//! Pieces shared by the properties: a scriptable user callback that records everything it is shown,
//! sessions of either side behind one type, and value generators.
use crate::engine::Src;
use rsasl::callback::{Context, Request, SessionCallback, SessionData};
use rsasl::mechanisms::anonymous::AnonymousToken;
use rsasl::mechanisms::gssapi::properties::{GssSecurityLayer, GssService, SecurityLayer};
use rsasl::mechanisms::oauthbearer::properties::{OAuthBearerError, OAuthBearerErrored, OAuthBearerValidate};
use rsasl::mechanisms::scram::properties::{Iterations, Salt, SaltedPassword, ScramCachedPassword, ScramStoredPassword};
use rsasl::mechanisms::xoauth2::properties::{XOAuth2Error, XOAuth2Validate};
use rsasl::prelude::*;
use rsasl::property::{AuthId, AuthzId, ChannelBindingName, ChannelBindings, Hostname, OAuthBearerKV, OAuthBearerToken, OverrideCBType, Password};
use rsasl::registry::Side;
use rsasl::validate::{NoValidation, Validate, ValidationError};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub type Kv = Vec<(String, String)>;

/* ------------------------------------------------------------------ what the callback saw */

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Ctx {
    pub mech: String,
    pub server: bool,
    pub authid: Option<String>,
    pub authzid: Option<String>,
    pub password: Option<Vec<u8>>,
    pub token: Option<String>,
    pub kv: Option<Kv>,
    pub anon: Option<String>,
    pub salt: Option<Vec<u8>>,
    pub iterations: Option<u32>,
    pub cbname: Option<String>,
}
impl Ctx {
    pub fn of(sd: &SessionData, c: &Context) -> Ctx {
        Ctx {
            mech: sd.mechanism().mechanism.as_str().to_string(),
            server: sd.side() == Side::Server,
            authid: c.get_ref::<AuthId>().map(str::to_string),
            authzid: c.get_ref::<AuthzId>().map(str::to_string),
            password: c.get_ref::<Password>().map(<[u8]>::to_vec),
            token: c.get_ref::<OAuthBearerToken>().map(str::to_string),
            kv: c.get_ref::<OAuthBearerKV>().map(|v| v.iter().map(|(a, b)| ((*a).to_string(), (*b).to_string())).collect()),
            anon: c.get_ref::<AnonymousToken>().map(str::to_string),
            salt: c.get_ref::<Salt>().map(<[u8]>::to_vec),
            iterations: c.get_ref::<Iterations>().copied(),
            cbname: c.get_ref::<ChannelBindingName>().map(str::to_string),
        }
    }
    /// An absent authorization identity and an empty one mean the same.
    pub fn authz(&self) -> &str {
        self.authzid.as_deref().unwrap_or("")
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Request(&'static str, Ctx),
    XError(String),
    OError(String, Option<String>, Option<String>),
    Cached { client_key: Vec<u8>, server_key: Vec<u8>, ctx: Ctx },
    Validate(Ctx),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Stored {
    pub iterations: u32,
    pub salt: Vec<u8>,
    pub stored_key: Vec<u8>,
    pub server_key: Vec<u8>,
}

pub type OErr = (String, Option<String>, Option<String>);

/// What the validation callback does.
#[derive(Clone, Debug, Default)]
pub enum Val {
    /// set a value derived from the context
    #[default]
    Auto,
    /// leave the result empty
    Nothing,
    /// a list of operations, see [`ValOp`]
    Ops(Vec<ValOp>),
    Fail(String),
}
#[derive(Clone, Debug)]
pub enum ValOp {
    Finalize(String),
    With(String),
    WithErr(String),
    /// the same, but the callback goes on as if nothing had happened
    WithErrDropped(String),
    OtherFinalize(u64),
    OtherWith(u64),
    Noop,
}

pub struct TestVal;
impl Validation for TestVal {
    type Value = String;
}
/// Same value type as `TestVal`, but a different validation.
pub struct OtherVal;
impl Validation for OtherVal {
    type Value = String;
}

#[derive(Clone, Debug, Default)]
pub struct Script {
    pub authid: Option<String>,
    pub authzid: Option<String>,
    pub password: Option<Vec<u8>>,
    pub token: Option<String>,
    pub kv: Option<Kv>,
    pub anon: Option<String>,
    pub users: HashMap<String, Stored>,
    pub cached: Option<(Vec<u8>, Vec<u8>)>,
    pub salted: Option<Vec<u8>>,
    /// channel bindings supplied by the user (name -> data)
    pub bindings: Vec<(String, Vec<u8>)>,
    pub override_cb: Option<String>,
    pub xval: Option<Result<(), String>>,
    pub oval: Option<Result<(), OErr>>,
    /// take the error actions XOAuth2Error / OAuthBearerErrored
    pub take_errors: bool,
    /// take the ScramCachedPassword action
    pub take_cached: bool,
    pub service: Option<String>,
    pub hostname: Option<String>,
    pub layers: Option<u8>,
    pub cb_enabled: bool,
    /// the n-th callback invocation (0-based) returns this error instead of anything else
    pub fail_at: Option<(usize, CbErr)>,
    pub val: Val,
    /// preference: names earlier in the list are better; names in `rejected` are never taken
    pub order: Option<Vec<String>>,
    pub rejected: Vec<String>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CbErr {
    Boxed,
    NoValue,
    NoCallback,
    Io,
    Missing,
    Input,
    Done,
    Mutual,
    Layer,
    Validation,
    Unvalidated,
    Eof,
    Binary,
}
pub const CB_ERR: &str = "scripted callback error";
impl CbErr {
    /// Any error a callback may return, those that mean something to the library more often.
    pub fn any(src: &mut Src) -> CbErr {
        use CbErr::*;
        *src.pick(&[Boxed, Boxed, NoValue, NoValue, NoCallback, NoCallback, Io, Io, Missing, Missing, Input, Done, Mutual, Layer, Validation, Unvalidated, Eof, Binary])
    }
    /// Does the error show [`CB_ERR`]?
    pub fn tells(self) -> bool {
        matches!(self, CbErr::Boxed | CbErr::NoCallback | CbErr::Io | CbErr::Missing | CbErr::Validation | CbErr::Eof)
    }
    pub fn make(self) -> SessionError {
        match self {
            CbErr::Boxed => SessionError::Boxed(CB_ERR.into()),
            CbErr::NoValue => SessionError::CallbackError(rsasl::callback::CallbackError::NoValue),
            CbErr::NoCallback => SessionError::CallbackError(rsasl::callback::CallbackError::NoCallback(CB_ERR)),
            CbErr::Io => SessionError::Io { source: core2::io::Error::new(core2::io::ErrorKind::Other, CB_ERR) },
            CbErr::Missing => SessionError::MissingChannelBindingData(CB_ERR.into()),
            CbErr::Input => SessionError::InputDataRequired,
            CbErr::Done => SessionError::MechanismDone,
            CbErr::Mutual => SessionError::MutualAuthenticationFailed,
            CbErr::Layer => SessionError::NoSecurityLayer,
            CbErr::Validation => SessionError::ValidationError(ValidationError::Boxed(CB_ERR.into())),
            CbErr::Unvalidated => SessionError::NoValidate,
            CbErr::Eof => SessionError::Io { source: core2::io::Error::new(core2::io::ErrorKind::UnexpectedEof, CB_ERR) },
            CbErr::Binary => SessionError::Base64 { source: base64::DecodeError::InvalidLength(7) },
        }
    }
}

#[derive(Default)]
pub struct Log {
    pub events: Vec<Ev>,
    pub calls: usize,
}
pub type LogRef = Arc<Mutex<Log>>;

pub struct Cb {
    pub s: Script,
    pub log: LogRef,
}
impl Cb {
    pub fn new(s: Script) -> (Cb, LogRef) {
        let log = LogRef::default();
        (Cb { s, log: log.clone() }, log)
    }
}

fn prop_name(r: &Request) -> &'static str {
    macro_rules! names {
        ($($p:ty => $n:expr),* $(,)?) => { $( if r.is::<$p>() { return $n; } )* }
    }
    names! {
        AuthId => "AuthId", AuthzId => "AuthzId", Password => "Password", OAuthBearerToken => "OAuthBearerToken",
        OAuthBearerKV => "OAuthBearerKV", AnonymousToken => "AnonymousToken", ChannelBindings => "ChannelBindings",
        OverrideCBType => "OverrideCBType", SaltedPassword => "SaltedPassword", ScramCachedPassword<'static> => "ScramCachedPassword",
        ScramStoredPassword<'static> => "ScramStoredPassword", XOAuth2Validate => "XOAuth2Validate", XOAuth2Error => "XOAuth2Error",
        OAuthBearerValidate => "OAuthBearerValidate", OAuthBearerErrored => "OAuthBearerErrored", GssService => "GssService",
        Hostname => "Hostname", GssSecurityLayer => "GssSecurityLayer",
    }
    "?"
}

/// `ScramCachedPassword` has public fields but no public constructor.
pub fn cached_password<'a>(client_key: &'a [u8], server_key: &'a [u8]) -> ScramCachedPassword<'a> {
    let mut u = std::mem::MaybeUninit::<ScramCachedPassword<'a>>::uninit();
    unsafe {
        let p = u.as_mut_ptr();
        std::ptr::addr_of_mut!((*p).client_key).write(client_key);
        std::ptr::addr_of_mut!((*p).server_key).write(server_key);
        u.assume_init()
    }
}

thread_local! {
    static DURING: std::cell::RefCell<Option<std::rc::Rc<dyn Fn()>>> = const { std::cell::RefCell::new(None) };
}
/// Has `f` run during every callback of this thread, until the returned value is dropped.
pub fn during_callbacks(f: impl Fn() + 'static) -> impl Drop {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            DURING.with(|d| d.borrow_mut().take());
        }
    }
    DURING.with(|d| *d.borrow_mut() = Some(std::rc::Rc::new(f)));
    Off
}
fn during() {
    let f = DURING.with(|d| d.borrow().clone());
    if let Some(f) = f {
        f();
    }
}

impl SessionCallback for Cb {
    fn callback(&self, sd: &SessionData, context: &Context, request: &mut Request) -> Result<(), SessionError> {
        during();
        let ctx = Ctx::of(sd, context);
        let n = {
            let mut l = self.log.lock().unwrap();
            let n = l.calls;
            l.calls += 1;
            let name = prop_name(request);
            l.events.push(Ev::Request(name, ctx.clone()));
            n
        };
        let s = &self.s;
        if let Some((at, e)) = s.fail_at {
            if at == n {
                return Err(e.make());
            }
        }
        if s.take_errors {
            if let Some(e) = request.get_action::<XOAuth2Error>() {
                self.log.lock().unwrap().events.push(Ev::XError(e.to_string()));
                return Ok(());
            }
            if let Some(e) = request.get_action::<OAuthBearerErrored>() {
                self.log.lock().unwrap().events.push(Ev::OError(e.status.to_string(), e.scope.map(str::to_string), e.openid_config.map(str::to_string)));
                return Ok(());
            }
        }
        if s.take_cached {
            if let Some(k) = request.get_action::<ScramCachedPassword<'static>>() {
                self.log.lock().unwrap().events.push(Ev::Cached { client_key: k.client_key.to_vec(), server_key: k.server_key.to_vec(), ctx });
                return Ok(());
            }
        }
        // The values live as short as the interface allows: whatever looks at one later looks at freed memory.
        if let Some(v) = &s.authid {
            request.satisfy::<AuthId>(&v.clone())?;
        }
        if let Some(v) = &s.authzid {
            request.satisfy::<AuthzId>(&v.clone())?;
        }
        if let Some(v) = &s.password {
            request.satisfy::<Password>(&v.clone())?;
        }
        if let Some(v) = &s.token {
            request.satisfy::<OAuthBearerToken>(&v.clone())?;
        }
        if let Some(v) = &s.kv {
            let v = v.clone();
            let pairs: Vec<(&str, &str)> = v.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            request.satisfy::<OAuthBearerKV>(&pairs[..])?;
        }
        if let Some(v) = &s.anon {
            request.satisfy::<AnonymousToken>(&v.clone())?;
        }
        if let Some((c, k)) = &s.cached {
            request.satisfy::<ScramCachedPassword<'static>>(&cached_password(&c.clone(), &k.clone()))?;
        }
        if let Some(v) = &s.salted {
            request.satisfy::<SaltedPassword>(&v.clone())?;
        }
        if let Some(v) = &s.override_cb {
            request.satisfy::<OverrideCBType>(&v.clone())?;
        }
        if let Some(n) = &ctx.cbname {
            if let Some((_, d)) = s.bindings.iter().find(|(b, _)| b == n) {
                request.satisfy::<ChannelBindings>(&d.clone())?;
            }
        }
        if let Some(u) = ctx.authid.as_ref().and_then(|u| s.users.get(u)) {
            let u = u.clone();
            request.satisfy::<ScramStoredPassword<'static>>(&ScramStoredPassword::new(u.iterations, &u.salt, &u.stored_key, &u.server_key))?;
        }
        match &s.xval {
            Some(Ok(())) => {
                request.satisfy::<XOAuth2Validate>(&Ok(()))?;
            }
            Some(Err(e)) => {
                request.satisfy::<XOAuth2Validate>(&Err(e.clone().as_str()))?;
            }
            None => {}
        }
        match &s.oval {
            Some(Ok(())) => {
                request.satisfy::<OAuthBearerValidate>(&Ok(()))?;
            }
            Some(Err((a, b, c))) => {
                request.satisfy::<OAuthBearerValidate>(&Err(OAuthBearerError::new(&a.clone(), b.clone().as_deref(), c.clone().as_deref())))?;
            }
            None => {}
        }
        if let Some(v) = &s.service {
            request.satisfy::<GssService>(&v.clone())?;
        }
        if let Some(v) = &s.hostname {
            request.satisfy::<Hostname>(&v.clone())?;
        }
        if let Some(v) = s.layers {
            request.satisfy::<GssSecurityLayer>(&SecurityLayer::from_bits_truncate(v))?;
        }
        Ok(())
    }

    fn enable_channel_binding(&self) -> bool {
        self.s.cb_enabled
    }

    fn prefer<'a>(&self, a: Option<&'a Mechanism>, b: &'a Mechanism) -> Ordering {
        let Some(order) = &self.s.order else {
            struct D;
            impl SessionCallback for D {}
            return D.prefer(a, b);
        };
        if self.s.rejected.iter().any(|r| *r == b.mechanism.as_str()) {
            return Ordering::Greater;
        }
        let rank = |m: &Mechanism| order.iter().position(|o| *o == m.mechanism.as_str()).unwrap_or(usize::MAX);
        match a {
            None => Ordering::Less,
            // earlier in the list is better
            Some(a) => rank(b).cmp(&rank(a)),
        }
    }

    fn validate(&self, sd: &SessionData, context: &Context, validate: &mut Validate<'_>) -> Result<(), ValidationError> {
        during();
        let ctx = Ctx::of(sd, context);
        self.log.lock().unwrap().events.push(Ev::Validate(ctx.clone()));
        match &self.s.val {
            Val::Auto => {
                validate.finalize::<TestVal>(auto_value(&ctx));
            }
            Val::Nothing => {}
            Val::Fail(m) => return Err(val_err(m)),
            Val::Ops(ops) => {
                for o in ops {
                    match o {
                        ValOp::Finalize(v) => validate.finalize::<TestVal>(v.clone()),
                        ValOp::With(v) => {
                            validate.with::<TestVal, _>(|| Ok(v.clone()))?;
                        }
                        ValOp::WithErr(m) => {
                            validate.with::<TestVal, _>(|| Err(val_err(m)))?;
                        }
                        ValOp::WithErrDropped(m) => {
                            let _ = validate.with::<TestVal, _>(|| Err(val_err(m)));
                        }
                        ValOp::OtherFinalize(v) => validate.finalize::<OtherVal>(v.to_string()),
                        ValOp::OtherWith(v) => {
                            validate.with::<OtherVal, _>(|| Ok(v.to_string()))?;
                        }
                        ValOp::Noop => {}
                    }
                }
            }
        }
        Ok(())
    }
}

/// How [`ValidationError::MissingRequiredProperty`] is shown; as a failure text it asks for that variant.
pub const MISSING_PROPERTY: &str = "A required property was not provided";
pub fn val_err(m: &str) -> ValidationError {
    if m == MISSING_PROPERTY {
        ValidationError::MissingRequiredProperty
    } else {
        ValidationError::Boxed(m.into())
    }
}
pub fn val_text(src: &mut Src) -> String {
    if src.chance(1, 3) {
        MISSING_PROPERTY.into()
    } else {
        word(src, 12)
    }
}

/// The validation value of [`Val::Auto`].
pub fn auto_value(ctx: &Ctx) -> String {
    format!("{}|{:?}|{:?}|{:?}|{:?}", ctx.mech, ctx.authid, ctx.authz(), ctx.token, ctx.anon)
}

pub fn validations(log: &LogRef) -> Vec<Ctx> {
    log.lock().unwrap().events.iter().filter_map(|e| if let Ev::Validate(c) = e { Some(c.clone()) } else { None }).collect()
}
pub fn requests(log: &LogRef, name: &str) -> Vec<Ctx> {
    log.lock().unwrap().events.iter().filter_map(|e| if let Ev::Request(n, c) = e { (*n == name).then(|| c.clone()) } else { None }).collect()
}
pub fn cached_events(log: &LogRef) -> Vec<(Vec<u8>, Vec<u8>, Ctx)> {
    log.lock()
        .unwrap()
        .events
        .iter()
        .filter_map(|e| if let Ev::Cached { client_key, server_key, ctx } = e { Some((client_key.clone(), server_key.clone(), ctx.clone())) } else { None })
        .collect()
}

/* ------------------------------------------------------------------ sessions */

/// Channel binding data known to the protocol implementation.
#[derive(Clone, Debug, Default)]
pub struct ProtoCb(pub Vec<(String, Vec<u8>)>);
impl ChannelBindingCallback for ProtoCb {
    fn get_cb_data(&self, cbname: &str) -> Option<&[u8]> {
        during();
        self.0.iter().find(|(n, _)| n == cbname).map(|(_, d)| d.as_slice())
    }
}

pub fn mech(name: &str) -> &'static Mechname {
    Mechname::parse(interned(name).as_bytes()).expect("harness mechanism name")
}
/// The text kept for good, once per thread.
pub fn interned(name: &str) -> &'static str {
    LEAKED.with(|l| {
        let mut l = l.borrow_mut();
        if let Some(x) = l.get(name) {
            return *x;
        }
        let x: &'static str = Box::leak(name.to_string().into_boxed_str());
        l.insert(name.to_string(), x);
        x
    })
}
thread_local! {
    static LEAKED: std::cell::RefCell<HashMap<String, &'static str>> = Default::default();
}

pub fn builtin(name: &str) -> Option<Mechanism> {
    use rsasl::mechanisms as m;
    Some(match name {
        "PLAIN" => m::plain::PLAIN,
        "LOGIN" => m::login::LOGIN,
        "ANONYMOUS" => m::anonymous::ANONYMOUS,
        "EXTERNAL" => m::external::EXTERNAL,
        "XOAUTH2" => m::xoauth2::XOAUTH2,
        "OAUTHBEARER" => m::oauthbearer::OAUTHBEARER,
        "GSSAPI" => m::gssapi::GSSAPI,
        "SCRAM-SHA-1" => m::scram::SCRAM_SHA1,
        "SCRAM-SHA-1-PLUS" => m::scram::SCRAM_SHA1_PLUS,
        "SCRAM-SHA-256" => m::scram::SCRAM_SHA256,
        "SCRAM-SHA-256-PLUS" => m::scram::SCRAM_SHA256_PLUS,
        "SCRAM-SHA-512" => m::scram::SCRAM_SHA512,
        "SCRAM-SHA-512-PLUS" => m::scram::SCRAM_SHA512_PLUS,
        _ => return None,
    })
}
pub const BUILTINS: [&str; 13] = [
    "SCRAM-SHA-512", "SCRAM-SHA-512-PLUS", "SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "PLAIN", "LOGIN", "ANONYMOUS",
    "EXTERNAL", "XOAUTH2", "OAUTHBEARER", "GSSAPI",
];
/// mechanisms without SCRAM and GSSAPI
pub const SIMPLE: [&str; 6] = ["PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER"];

thread_local! {
    static REGS: std::cell::RefCell<HashMap<Vec<String>, &'static [Mechanism]>> = Default::default();
}
/// A registry of built-in mechanisms in the given order (leaked once per distinct list and thread).
pub fn registry(names: &[&str]) -> Registry {
    let key: Vec<String> = names.iter().map(|s| (*s).to_string()).collect();
    let r = REGS.with(|r| {
        *r.borrow_mut().entry(key).or_insert_with(|| {
            let v: Vec<Mechanism> = names.iter().map(|n| builtin(n).expect("harness: builtin")).collect();
            Box::leak(v.into_boxed_slice())
        })
    });
    Registry::with_mechanisms(r)
}
pub fn config(names: &[&str], cb: Cb) -> Arc<SASLConfig> {
    SASLConfig::builder().with_registry(registry(names)).with_callback(cb).expect("config")
}

pub enum Sess {
    C(Session<NoValidation, ProtoCb>),
    S(Session<TestVal, ProtoCb>),
}
pub struct Out {
    pub res: Result<State, SessionError>,
    pub bytes: Vec<u8>,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
    pub fn running(&self) -> bool {
        matches!(self.res, Ok(State::Running))
    }
    pub fn fin(&self, sent: bool) -> bool {
        match &self.res {
            Ok(State::Finished(MessageSent::Yes)) => sent,
            Ok(State::Finished(MessageSent::No)) => !sent,
            _ => false,
        }
    }
    pub fn finished(&self) -> bool {
        matches!(self.res, Ok(State::Finished(_)))
    }
    pub fn desc(&self) -> String {
        format!("{} out={}", rdesc(&self.res), show(&self.bytes))
    }
}
pub fn rdesc(r: &Result<State, SessionError>) -> String {
    match r {
        Ok(s) => format!("Ok({s:?})"),
        Err(e) => format!("Err({e:?})"),
    }
}
/// Coarse class of an error, independent of texts.
pub fn ekind(e: &SessionError) -> &'static str {
    use rsasl::callback::CallbackError as CE;
    match e {
        SessionError::Io { .. } => "io",
        SessionError::Base64 { .. } => "base64",
        SessionError::NoSecurityLayer => "nolayer",
        SessionError::InputDataRequired => "input",
        SessionError::MechanismDone => "done",
        SessionError::MechanismError(_) => "mech",
        SessionError::CallbackError(CE::NoCallback(_)) => "nocallback",
        SessionError::CallbackError(_) => "callback",
        SessionError::ValidationError(_) => "validation",
        SessionError::Boxed(_) => "boxed",
        SessionError::NoValidate => "novalidate",
        SessionError::MutualAuthenticationFailed => "mutual",
        SessionError::MissingChannelBindingData(_) => "nocb",
        _ => "other",
    }
}
pub fn kind(r: &Result<State, SessionError>) -> &'static str {
    match r {
        Ok(State::Running) => "running",
        Ok(State::Finished(MessageSent::Yes)) => "finished+msg",
        Ok(State::Finished(MessageSent::No)) => "finished",
        Err(e) => ekind(e),
    }
}

impl Sess {
    pub fn client(cfg: &Arc<SASLConfig>, offered: &[&str]) -> Result<Sess, SASLError> {
        Self::client_cb(cfg, offered, ProtoCb::default())
    }
    pub fn client_cb(cfg: &Arc<SASLConfig>, offered: &[&str], cb: ProtoCb) -> Result<Sess, SASLError> {
        let names: Vec<&Mechname> = offered.iter().map(|o| mech(o)).collect();
        SASLClient::with_cb(cfg.clone(), cb).start_suggested(names.iter()).map(Sess::C)
    }
    pub fn server(cfg: &Arc<SASLConfig>, name: &str) -> Result<Sess, SASLError> {
        Self::server_cb(cfg, name, ProtoCb::default())
    }
    pub fn server_cb(cfg: &Arc<SASLConfig>, name: &str, cb: ProtoCb) -> Result<Sess, SASLError> {
        SASLServer::<TestVal, ProtoCb>::with_cb(cfg.clone(), cb).start_suggested(mech(name)).map(Sess::S)
    }
    pub fn step(&mut self, input: Option<&[u8]>) -> Out {
        let mut out = Vec::new();
        let res = self.step_w(input, &mut out);
        Out { res, bytes: out }
    }
    pub fn step64(&mut self, input: Option<&[u8]>) -> Out {
        let mut out = Vec::new();
        let res = match self {
            Sess::C(s) => s.step64(input, &mut out),
            Sess::S(s) => s.step64(input, &mut out),
        };
        Out { res, bytes: out }
    }
    pub fn step_w(&mut self, input: Option<&[u8]>, w: &mut impl core2::io::Write) -> Result<State, SessionError> {
        match self {
            Sess::C(s) => s.step(input, w),
            Sess::S(s) => s.step(input, w),
        }
    }
    pub fn step64_w(&mut self, input: Option<&[u8]>, w: &mut impl core2::io::Write) -> Result<State, SessionError> {
        match self {
            Sess::C(s) => s.step64(input, w),
            Sess::S(s) => s.step64(input, w),
        }
    }
    pub fn validation(&mut self) -> Option<String> {
        match self {
            Sess::C(s) => s.validation().map(|()| String::new()),
            Sess::S(s) => s.validation(),
        }
    }
    pub fn mechname(&self) -> String {
        match self {
            Sess::C(s) => s.get_mechname().as_str().to_string(),
            Sess::S(s) => s.get_mechname().as_str().to_string(),
        }
    }
    pub fn first(&self) -> bool {
        match self {
            Sess::C(s) => s.are_we_first(),
            Sess::S(s) => s.are_we_first(),
        }
    }
    pub fn has_layer(&self) -> bool {
        match self {
            Sess::C(s) => s.has_security_layer(),
            Sess::S(s) => s.has_security_layer(),
        }
    }
    pub fn encode(&mut self, i: &[u8], w: &mut impl core2::io::Write) -> Result<usize, SessionError> {
        match self {
            Sess::C(s) => s.encode(i, w),
            Sess::S(s) => s.encode(i, w),
        }
    }
    pub fn decode(&mut self, i: &[u8], w: &mut impl core2::io::Write) -> Result<usize, SessionError> {
        match self {
            Sess::C(s) => s.decode(i, w),
            Sess::S(s) => s.decode(i, w),
        }
    }
}

/// A client of exactly one mechanism.
pub fn client_of(name: &str, script: Script) -> (Sess, LogRef) {
    client_of_cb(name, script, ProtoCb::default())
}
pub fn client_of_cb(name: &str, mut script: Script, cb: ProtoCb) -> (Sess, LogRef) {
    if name.ends_with("-PLUS") {
        script.cb_enabled = true;
    }
    let (c, log) = Cb::new(script);
    let cfg = config(&[name], c);
    (Sess::client_cb(&cfg, &[name], cb).unwrap_or_else(|e| panic!("rsasl refused to start {name}: {e:?}")), log)
}
/// A server of exactly one mechanism.
pub fn server_of(name: &str, script: Script) -> (Sess, LogRef) {
    server_of_cb(name, script, ProtoCb::default())
}
pub fn server_of_cb(name: &str, script: Script, cb: ProtoCb) -> (Sess, LogRef) {
    let (c, log) = Cb::new(script);
    let cfg = config(&[name], c);
    (Sess::server_cb(&cfg, name, cb).unwrap_or_else(|e| panic!("rsasl refused to start {name}: {e:?}")), log)
}

/// A server of one mechanism whose configuration has the given registry.
pub fn server_reg(reg: &[&str], name: &str, script: Script, cb: ProtoCb) -> (Sess, LogRef) {
    let (c, log) = Cb::new(script);
    let cfg = config(reg, c);
    (Sess::server_cb(&cfg, name, cb).unwrap_or_else(|e| panic!("rsasl refused to start {name}: {e:?}")), log)
}

/* ------------------------------------------------------------------ text */

pub fn show(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for &c in b.iter().take(200) {
        match c {
            b'"' | b'\\' => {
                s.push('\\');
                s.push(c as char);
            }
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    s.push('"');
    if b.len() > 200 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

pub fn b64(d: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::with_capacity(d.len().div_ceil(3) * 4);
    for c in d.chunks(3) {
        let v = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            if i <= c.len() {
                s.push(A[((v >> (18 - 6 * i)) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
/// Strict decoder of canonical padded base64.
/// Base64 of the right form, whatever the bits at its end that do not count.
pub fn loose64(s: &[u8]) -> Option<Vec<u8>> {
    if let Some(v) = unb64(s) {
        return Some(v);
    }
    // the last character may be one with other bits set
    let k = s.iter().position(|c| *c == b'=').unwrap_or(s.len());
    if k == 0 {
        return None;
    }
    const D: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut t = s.to_vec();
    let v = D.iter().position(|c| *c == s[k - 1])?;
    t[k - 1] = D[match s.len() - k {
        1 => v & !3,
        2 => v & !15,
        _ => return None,
    }];
    unb64(&t)
}
pub fn unb64(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let val = |c: u8| -> Option<u32> {
        Some(match c {
            b'A'..=b'Z' => u32::from(c - b'A'),
            b'a'..=b'z' => u32::from(c - b'a') + 26,
            b'0'..=b'9' => u32::from(c - b'0') + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        })
    };
    let mut out = vec![];
    let n = s.len() / 4;
    for (i, q) in s.chunks(4).enumerate() {
        let pad = if i + 1 == n { q.iter().rev().take_while(|c| **c == b'=').count() } else { 0 };
        if pad > 2 {
            return None;
        }
        let mut v = 0u32;
        for (j, c) in q.iter().enumerate() {
            v = (v << 6) | if j >= 4 - pad { 0 } else { val(*c)? };
        }
        let b = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        let keep = 3 - pad;
        if b[keep..].iter().any(|x| *x != 0) {
            return None;
        }
        out.extend_from_slice(&b[..keep]);
    }
    Some(out)
}

/* ------------------------------------------------------------------ generators */

/// A text value. `soh`/`nul` also allow the bytes 0x01 and 0x00, the separators of some wire formats.
#[derive(Clone, Copy)]
pub struct Txt {
    pub max: usize,
    pub soh: bool,
    pub nul: bool,
    pub empty: bool,
}
pub const TXT: Txt = Txt { max: 24, soh: false, nul: false, empty: false };

/// A length around one where buffers, blocks and limits commonly end.
pub fn boundary(src: &mut Src) -> usize {
    let n = if src.chance(1, 12) {
        *src.pick(&[2048usize, 8192, 16384, 32768, 65536])
    } else {
        *src.pick(&[64usize, 128, 255, 256, 512, 1000, 1024, 4096])
    };
    (n + src.idx(5)) - 2
}
/// Channel-binding data: the usual sizes, little of it, or a lot.
pub fn cbdata(src: &mut Src) -> Vec<u8> {
    let n = match src.below(4) {
        0 => 12,
        1 => 32,
        2 => src.range(0, 4),
        _ if src.chance(1, 16) => {
            let n = boundary(src);
            return (0..n).map(|i| (i % 251 + i / 997) as u8).collect();
        }
        _ => src.range(1, 80),
    };
    src.bytes(n)
}
/// Data for a security layer: mostly short, at times longer than any buffer.
pub fn layer_data(src: &mut Src, max: usize) -> Vec<u8> {
    if src.chance(1, 16) {
        let n = if src.chance(1, 8) { 131_072 + src.idx(5) - 2 } else { boundary(src) };
        let k = src.below(256) as usize;
        // no period of a usual block size
        return (0..n).map(|i| (i % 251 + i / 997 + k) as u8).collect();
    }
    let n = src.size(max);
    src.bytes(n)
}
/// A long text of about the given number of bytes, mostly of one kind of character.
pub fn long_text(src: &mut Src, bytes: usize) -> String {
    let c = *src.pick(&['a', '\u{e9}', '\u{4e2d}', '\u{1F600}', ',', '=']);
    let mut s = String::new();
    for _ in 0..src.idx(4) {
        s.push((b'a' + src.below(26) as u8) as char);
    }
    while s.len() < bytes {
        s.push(c);
    }
    for _ in 0..src.idx(4) {
        s.push((b'a' + src.below(26) as u8) as char);
    }
    s
}
pub fn text(src: &mut Src, t: Txt) -> String {
    if t.max >= 20 && src.chance(1, 40) {
        let n = boundary(src);
        return long_text(src, n);
    }
    if t.max >= 20 && src.chance(1, 24) {
        // names that code may treat in a special way
        return (*src.pick(&[
            "user@localhost", "user@example.com", "User@Example.COM", "USER", "User", "user@EXAMPLE.ORG", "@localhost", "user@", "EXAMPLE\\user", "root", "admin", "administrator", "anonymous", "Anonymous", "guest", "nobody", "none", "null", "localhost", "user/host",
            "user+tag@example.org", "user%example.org", "self", "me", "*", "-", "default", "test", "u:user", "dn:cn=user", "0", "1", "true", "false", "user.", "user$", "~user", "user#1", "user;x", "user?x", "xn--user",
        ]))
        .to_string();
    }
    let mut n = src.size(t.max);
    if !t.empty && n == 0 {
        n = 1;
    }
    let mut s = String::new();
    // most texts are plain, some are full of special characters
    let style = src.weighted(&[5, 3, 2]);
    for _ in 0..n {
        match style {
            0 => s.push((b'a' + src.below(26) as u8) as char),
            1 => match src.weighted(&[4, 2, 2, 1, 1, 1]) {
                0 => s.push((b'a' + src.below(26) as u8) as char),
                1 => s.push(','),
                2 => s.push('='),
                3 => s.push_str(*src.pick(&["=2C", "=3D", "=2c", "a=", "n=", ",r=", "p=", "auth=", "Bearer ", "user="])),
                4 => s.push(*src.pick(&['@', '.', '-', '_', ' ', '"', '\\', '/', ':', '%', '{', '}', '\n', '\t'])),
                _ => {
                    if t.soh && src.flag() {
                        s.push('\u{1}');
                    } else if t.nul && src.flag() {
                        s.push('\0');
                    } else {
                        s.push('=');
                    }
                }
            },
            _ => match src.weighted(&[3, 2, 2, 1, 1]) {
                0 => s.push((b'a' + src.below(26) as u8) as char),
                1 => s.push(*src.pick(&['ä', 'ß', 'é', 'Ж', '中', '\u{1F600}', 'ª', 'Ⅸ', '\u{00A0}', '\u{00AD}', '\u{200B}', '\u{FF21}', '\u{0301}'])),
                2 => s.push((0x20 + src.below(95) as u8) as char),
                3 => s.push(*src.pick(&['\u{5d0}', '\u{627}', '\u{7}', '\u{85}', '\u{FEFF}', '\u{E000}', '\u{10FFFF}', '\u{2028}'])),
                _ => {
                    if t.soh && src.flag() {
                        s.push('\u{1}');
                    } else if t.nul && src.flag() {
                        s.push('\0');
                    } else {
                        s.push('A');
                    }
                }
            },
        }
    }
    if s.len() + 4 <= t.max && src.chance(1, 12) {
        affix(src, &mut s);
    }
    s
}
/// What careless code cuts off: white space, control characters, quotes and the like around a text.
fn affix(src: &mut Src, s: &mut String) {
    if src.chance(1, 3) {
        // other notations of a character, and other words for the text
        let (a, b) = *src.pick(&[
            ("%20", ""), ("%2C", ""), ("%3d", ""), ("%00", ""), ("%25", ""), ("+", "+"), ("&amp;", ""), ("&#44;", ""), ("\\", ""), ("\\\\", ""), ("\\n", ""), ("\\,", ""), ("\\0", ""), ("\\x2c", ""), ("\\u002c", ""), ("=00", ""), ("=0", ""), ("=3D2C", ""), ("==", ""), ("<", ">"), ("\"", "\""), ("'", "'"), ("(", ")"), ("[", "]"),
            ("{", "}"), ("${", "}"), ("user=", ""), ("dn:", ""), ("u:", ""), ("mailto:", ""), ("CN=", ",O=x"), ("//", ""), ("../", ""), ("#", ""), (";", ""), ("*", "*"), ("=?utf-8?q?", "?="), ("xn--", ""), ("", "@EXAMPLE.COM"), ("", "/resource"), ("", "+tag"), ("DOMAIN\\", ""), ("", "\u{0130}"), ("\u{1f82}", ""),
        ]);
        s.insert_str(0, a);
        s.push_str(b);
        return;
    }
    let a = *src.pick(&[" ", "\t", "\n", "\r\n", "\r", "\u{b}", "\u{c}", "\u{1b}", "\u{7f}", "\u{a0}", "\u{3000}", "\u{feff}", "\"", "'", "<", "@", ".", "-", "0", "A", "\u{301}", "\u{ad}"]);
    match src.below(3) {
        0 => s.push_str(a),
        1 => s.insert_str(0, a),
        _ => {
            s.insert_str(0, a);
            s.push_str(a);
        }
    }
}
/// A plain lower-case name
pub fn word(src: &mut Src, max: usize) -> String {
    let n = src.range(1, max);
    (0..n).map(|_| (b'a' + src.below(26) as u8) as char).collect()
}
pub fn password(src: &mut Src) -> Vec<u8> {
    if src.chance(1, 16) {
        // what code may take for something else than the password itself
        return match src.below(5) {
            0 | 1 => (*src.pick(&[
                "password", "secret", "*", "!", "!!", "x", "0", "null", "none", "anonymous", "{PLAIN}secret", "{CLEAR}secret", "{SSHA}MTIzNDU2Nzg=", "{SCRAM-SHA-1}4096$c2FsdA==$a:b", "$2y$10$abcdefghijklmnopqrstuv", "$6$salt$hash",
                "SCRAM-SHA-256$4096:c2FsdA==$a:b", "c2VjcmV0", "0x736563726574", "pencil\n", "\\x41", "%00", "secret\r\n", "file:///etc/passwd", "$PASSWORD", "user", "=", "=2C",
            ]))
            .as_bytes()
            .to_vec(),
            2 => {
                // as long as a hash, raw
                let n = *src.pick(&[16usize, 20, 24, 32, 48, 64, 128]);
                (0..n).map(|_| 1 + src.below(255) as u8).collect()
            }
            3 => {
                // as long as a hash, in hexadecimal
                let n = *src.pick(&[32usize, 40, 64, 128]);
                (0..n).map(|_| *src.pick(b"0123456789abcdef")).collect()
            }
            _ => {
                let n = *src.pick(&[20usize, 32, 64]);
                let raw: Vec<u8> = (0..n).map(|_| src.below(256) as u8).collect();
                b64(&raw).into_bytes()
            }
        };
    }
    match src.weighted(&[6, 3, 1]) {
        0 => text(src, Txt { max: 20, ..TXT }).into_bytes(),
        1 => {
            let n = src.range(1, 24);
            (0..n).map(|_| 1 + src.below(255) as u8).collect()
        }
        _ if src.chance(1, 4) => {
            let n = boundary(src);
            vec![0x21 + src.below(90) as u8; n]
        }
        _ => {
            // longer than a hash block
            let n = src.range(60, 200);
            (0..n).map(|_| 0x21 + src.below(90) as u8).collect()
        }
    }
}
pub fn opt<T>(src: &mut Src, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
    if src.flag() {
        Some(f(src))
    } else {
        None
    }
}

/// `v` with a piece inserted, removed, replaced, repeated or moved, often at one of the given joints.
pub fn bend(src: &mut Src, v: &[u8], joints: &[usize], alphabet: &[u8]) -> Vec<u8> {
    let pos = |src: &mut Src| match src.below(4) {
        0 => 0,
        1 => v.len(),
        2 if !joints.is_empty() => (*src.pick(joints)).min(v.len()),
        _ => src.idx(v.len() + 1),
    };
    let (a, b) = (pos(src), pos(src));
    let (a, b) = (a.min(b), a.max(b));
    let new: Vec<u8> = if src.chance(1, 3) {
        v[a..b].to_vec()
    } else {
        let n = src.range(1, 4);
        (0..n).map(|_| *src.pick(alphabet)).collect()
    };
    match src.below(7) {
        // insert
        0 => [&v[..a], &new, &v[a..]].concat(),
        1 => [&v[..b], &new, &v[b..]].concat(),
        // remove, replace, repeat
        2 => [&v[..a], &v[b..]].concat(),
        3 => [&v[..a], &new, &v[b..]].concat(),
        4 => [&v[..b], &v[a..]].concat(),
        // exchange two parts
        5 => [&v[a..], &v[..a]].concat(),
        // change the case
        _ => {
            let mut out = v.to_vec();
            for c in &mut out[a..b] {
                *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            }
            out
        }
    }
}

/// Random structure-aware damage to a message; `other` are messages or fragments to splice in.
pub fn mutate(src: &mut Src, msg: &[u8], other: &[&[u8]]) -> Vec<u8> {
    let mut m = msg.to_vec();
    let rounds = 1 + src.weighted(&[6, 2, 1]);
    for _ in 0..rounds {
        mutate_once(src, &mut m, other);
    }
    m
}
const TOKENS: [&[u8]; 26] = [
    b",", b"=", b"\0", b"\x01", b"\x01\x01", b"r=", b"n=", b"s=", b"i=", b"c=", b"p=", b"v=", b"e=", b"m=", b"a=", b"y", b"n,,", b"=2C", b"=3D", b"=", b"auth=",
    b"auth=Bearer ", b"user=", b"\xff", b"\xc3", b"99999999999999999999",
];
fn mutate_once(src: &mut Src, m: &mut Vec<u8>, other: &[&[u8]]) {
    let seg = |m: &[u8], src: &mut Src| -> (usize, usize) {
        // bounds of a comma- or SOH- or NUL-separated segment
        let mut cuts = vec![0];
        for (i, b) in m.iter().enumerate() {
            if matches!(b, b',' | 1 | 0) {
                cuts.push(i + 1);
            }
        }
        let k = src.idx(cuts.len());
        let start = cuts[k];
        let end = cuts.get(k + 1).map_or(m.len(), |e| e - 1);
        (start, end)
    };
    match src.below(15) {
        13 => {
            // what line-based peers leave at the end of a message or of a part
            let (_, end) = seg(m, src);
            let i = if src.chance(2, 3) { m.len() } else { end };
            let t = *src.pick(&[&b"\n"[..], b"\r\n", b"\r", b" ", b"\t", b"\0", b"=", b"==", b"\n\n", b" \n", b"\x0b", b"\xc2\xa0"]);
            m.splice(i..i, t.iter().copied());
        }
        0 if !m.is_empty() => {
            let i = src.idx(m.len());
            m[i] ^= 1 << src.below(8);
        }
        1 if !m.is_empty() => {
            let i = src.idx(m.len());
            m[i] = src.below(256) as u8;
        }
        2 if !m.is_empty() => {
            let i = src.idx(m.len());
            m.remove(i);
        }
        3 => {
            let i = src.idx(m.len() + 1);
            m.insert(i, src.below(256) as u8);
        }
        4 => {
            let i = src.idx(m.len() + 1);
            m.truncate(i);
        }
        5 => {
            let i = src.idx(m.len() + 1);
            let t = *src.pick(&TOKENS);
            m.splice(i..i, t.iter().copied());
        }
        6 => {
            let (a, b) = seg(m, src);
            m.drain(a..b);
        }
        7 => {
            // cut a segment down to a prefix
            let (a, b) = seg(m, src);
            let k = a + src.idx(b - a + 1);
            m.drain(k..b);
        }
        8 => {
            // duplicate a segment
            let (a, b) = seg(m, src);
            let s: Vec<u8> = m[a..b].to_vec();
            let mut ins = s;
            ins.push(b',');
            m.splice(a..a, ins);
        }
        9 => {
            let (a, b) = seg(m, src);
            let t = *src.pick(&TOKENS);
            m.splice(a..b, t.iter().copied());
        }
        10 if !other.is_empty() => {
            let o = *src.pick(other);
            let i = src.idx(m.len() + 1);
            let a = src.idx(o.len() + 1);
            let b = a + src.idx(o.len() - a + 1);
            if src.flag() {
                m.truncate(i);
            }
            let i = i.min(m.len());
            m.splice(i..i, o[a..b].iter().copied());
        }
        12 => {
            // make a part long, sometimes of characters of several bytes
            let i = src.idx(m.len() + 1);
            let n = if src.flag() { boundary(src) } else { src.range(1, 40) };
            let t = long_text(src, n);
            m.splice(i..i, t.bytes());
        }
        11 => {
            // add a trailing segment
            m.push(b',');
            let n = src.idx(6);
            for _ in 0..n {
                m.push(0x20 + src.below(95) as u8);
            }
        }
        _ => {
            // swap two segments
            let (a, b) = seg(m, src);
            let (c, d) = seg(m, src);
            if b < c || d < a {
                let (a, b, c, d) = if b < c { (a, b, c, d) } else { (c, d, a, b) };
                let x = m[a..b].to_vec();
                let y = m[c..d].to_vec();
                m.splice(c..d, x);
                m.splice(a..b, y);
            } else if !m.is_empty() {
                let i = src.idx(m.len());
                m[i] = m[i].wrapping_add(1);
            }
        }
    }
}
/// Arbitrary peer input: random bytes, token soup, or nothing.
pub fn soup(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[2, 5, 1]) {
        0 => {
            let n = src.size(64);
            src.bytes(n)
        }
        1 => {
            let n = src.size(14);
            let mut v = vec![];
            for _ in 0..n {
                if src.flag() {
                    v.extend_from_slice(*src.pick(&TOKENS));
                } else {
                    let k = src.idx(5);
                    for _ in 0..k {
                        v.push(0x20 + src.below(95) as u8);
                    }
                }
            }
            v
        }
        _ => {
            let n = src.idx(4);
            src.bytes(n)
        }
    }
}

/* ------------------------------------------------------------------ whole exchanges */

/// An ordinary exchange of one mechanism: values for both sides and what must come of it.
#[derive(Clone, Debug)]
pub struct Pairing {
    pub mech: &'static str,
    pub client: Script,
    pub server: Script,
    pub ccb: ProtoCb,
    pub scb: ProtoCb,
    /// the server accepts the client (otherwise it tells the client about the error)
    pub accept: bool,
    /// what validation is shown
    pub authid: Option<String>,
    pub authzid: Option<String>,
    pub password: Option<Vec<u8>>,
    pub token: Option<String>,
    pub kv: Option<Kv>,
    pub anon: Option<String>,
}
/// mechanisms of which ordinary exchanges can be made
pub const PAIRABLE: [&str; 12] = [
    "PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER", "SCRAM-SHA-256", "SCRAM-SHA-1", "SCRAM-SHA-512", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-1-PLUS",
    "SCRAM-SHA-512-PLUS",
];
pub fn alg_of(mech: &str) -> crate::scramref::Alg {
    use crate::scramref::Alg;
    if mech.contains("SHA-1") {
        Alg::Sha1
    } else if mech.contains("256") {
        Alg::Sha256
    } else {
        Alg::Sha512
    }
}
/// Whether the server of this mechanism can tell the client of an error within the exchange.
pub fn has_error_message(mech: &str) -> bool {
    mech.starts_with("SCRAM") || mech.ends_with("OAUTH2") || mech == "OAUTHBEARER"
}

/// A text that every mechanism carries (string preparation keeps it as it is): half of them plain
/// words, the others with separators and escapes of the wire formats, or other alphabets.
fn carried(src: &mut Src, max: usize) -> String {
    if !src.flag() {
        return word(src, max);
    }
    let n = src.range(1, max);
    (0..n)
        .map(|_| match src.weighted(&[4, 3, 3, 2]) {
            0 => (b'a' + src.below(26) as u8) as char,
            1 => *src.pick(&[',', '=']),
            2 => *src.pick(&['@', '.', '-', '_', ' ', '"', '\\', '/', ':', '%', '{', '}', '\'', '+', '~', '&', '<']),
            _ => *src.pick(&['ä', 'ß', 'é', 'Ж', '中', 'ñ', 'ł', 'Ø']),
        })
        .collect()
}
/// A password: a word, a text as above, or bytes that are not UTF-8.
fn carried_password(src: &mut Src, nul: bool) -> Vec<u8> {
    match src.weighted(&[3, 3, 2]) {
        0 => word(src, 12).into_bytes(),
        1 => carried(src, 80).into_bytes(),
        _ => {
            let n = src.range(1, 20);
            let mut v: Vec<u8> = (0..n).map(|_| if nul { src.below(256) } else { 1 + src.below(255) } as u8).collect();
            let i = src.idx(n + 1);
            v.insert(i, 0xff);
            v
        }
    }
}
/// A bearer token: the alphabet of RFC 6750, mostly.
fn carried_token(src: &mut Src, max: usize) -> String {
    if !src.flag() {
        return word(src, max);
    }
    let n = src.range(1, max);
    (0..n).map(|_| *src.pick(&['a', 'Z', '0', '7', 'q', '-', '.', '_', '~', '+', '/', '='])).collect()
}

/// Values of all kinds which every mechanism carries unchanged.
pub fn pairing(src: &mut Src, mech: &'static str, accept: bool) -> Pairing {
    let mut p = Pairing {
        mech,
        client: Script { take_errors: true, take_cached: true, ..Script::default() },
        server: Script::default(),
        ccb: ProtoCb::default(),
        scb: ProtoCb::default(),
        accept,
        authid: None,
        authzid: None,
        password: None,
        token: None,
        kv: None,
        anon: None,
    };
    let accept = accept || !has_error_message(mech);
    p.accept = accept;
    let user = carried(src, 12);
    let authz = if src.flag() { Some(carried(src, 8)) } else { None };
    match mech {
        "PLAIN" | "LOGIN" => {
            let pw = carried_password(src, mech == "LOGIN");
            p.client.authid = Some(user.clone());
            p.client.password = Some(pw.clone());
            p.authid = Some(user);
            p.password = Some(pw);
            if mech == "PLAIN" {
                p.client.authzid = authz.clone();
                p.authzid = authz;
            }
        }
        "ANONYMOUS" => {
            p.client.anon = authz.clone();
            p.anon = Some(authz.unwrap_or_default());
        }
        "EXTERNAL" => {
            p.client.authzid = authz.clone();
            p.authzid = authz;
        }
        "XOAUTH2" | "OAUTHBEARER" => {
            let token = carried_token(src, 16);
            p.client.token = Some(token.clone());
            p.token = Some(token);
            if mech == "XOAUTH2" {
                p.client.authid = Some(user.clone());
                p.authid = Some(user);
                p.server.xval = Some(if accept { Ok(()) } else { Err(format!("{{\"status\":\"{}\"}}", carried(src, 4))) });
            } else {
                p.client.authzid = authz.clone();
                p.authzid = authz;
                let n = src.idx(3);
                let kv: Kv = (0..n).map(|_| (word(src, 4), if src.chance(1, 8) { String::new() } else { carried_token(src, 6) })).filter(|(k, _)| k != "auth").collect();
                if !kv.is_empty() || src.flag() {
                    p.client.kv = Some(kv.clone());
                }
                p.kv = Some(kv);
                p.server.oval = Some(if accept {
                    Ok(())
                } else {
                    Err((carried(src, 6), if src.flag() { Some(carried(src, 5)) } else { None }, if src.flag() { Some(carried(src, 5)) } else { None }))
                });
            }
        }
        _ => {
            let alg = alg_of(mech);
            let pw = carried_password(src, true);
            let sl = src.range(1, 20);
            let salt = src.bytes(sl);
            let it = 1 + src.below(4) as u32;
            p.client.authid = Some(user.clone());
            p.client.authzid = authz.clone();
            p.client.password = Some(pw.clone());
            let mut stored = alg.stored(&pw, &salt, it);
            if !accept {
                let i = src.idx(stored.stored_key.len());
                stored.stored_key[i] ^= 1 << src.below(8);
            }
            p.server.users.insert(user.clone(), stored);
            p.authid = Some(user);
            p.authzid = authz;
            if mech.ends_with("-PLUS") {
                let n = src.range(1, 40);
                let data = src.bytes(n);
                let name = *src.pick(&["tls-unique", "tls-exporter", "tls-server-end-point"]);
                if name == "tls-server-end-point" {
                    p.client.override_cb = Some(name.to_string());
                }
                let v = (name.to_string(), data);
                if src.flag() {
                    p.ccb.0.push(v.clone());
                } else {
                    p.client.bindings.push(v.clone());
                }
                if src.flag() {
                    p.scb.0.push(v);
                } else {
                    p.server.bindings.push(v);
                }
            }
        }
    }
    p
}
impl Pairing {
    pub fn start(&self) -> (Sess, LogRef, Sess, LogRef) {
        let (c, cl) = client_of_cb(self.mech, self.client.clone(), self.ccb.clone());
        let (s, sl) = server_of_cb(self.mech, self.server.clone(), self.scb.clone());
        (c, cl, s, sl)
    }
    /// Whether validation was shown exactly the values of the client.
    pub fn shown(&self, v: &Ctx) -> bool {
        v.mech == self.mech
            && v.server
            && v.authid == self.authid
            && v.authz() == self.authzid.as_deref().unwrap_or("")
            && v.password == self.password
            && v.token == self.token
            && v.kv.clone().unwrap_or_default() == self.kv.clone().unwrap_or_default()
            && v.anon == self.anon
    }
}

/// The end of an exchange run by alternating messages.
pub struct Driven {
    pub client: Vec<Out>,
    pub server: Vec<Out>,
    pub client_done: bool,
    pub server_done: bool,
    /// both sides expect a message, or a message was left over
    pub stuck: bool,
}
impl Driven {
    pub fn failed(&self) -> bool {
        self.client.iter().chain(&self.server).any(|o| o.res.is_err())
    }
    pub fn complete(&self) -> bool {
        self.client_done && self.server_done && !self.stuck && !self.failed()
    }
    pub fn desc(&self) -> String {
        let f = |v: &[Out]| v.iter().map(Out::desc).collect::<Vec<_>>().join("; ");
        format!("client [{}] server [{}]{}", f(&self.client), f(&self.server), if self.stuck { " (left with an undelivered message)" } else { "" })
    }
}
/// Alternates messages between the sides until both are finished or one fails.
pub fn drive(c: &mut Sess, s: &mut Sess) -> Driven {
    let mut d = Driven { client: vec![], server: vec![], client_done: false, server_done: false, stuck: false };
    let mut client_turn = c.first();
    let mut input: Option<Vec<u8>> = None;
    for _ in 0..24 {
        let done = if client_turn { d.client_done } else { d.server_done };
        if done {
            d.stuck = input.is_some();
            return d;
        }
        let o = if client_turn { c.step(input.as_deref()) } else { s.step(input.as_deref()) };
        input = match &o.res {
            Ok(State::Running) | Ok(State::Finished(MessageSent::Yes)) => Some(o.bytes.clone()),
            _ => None,
        };
        let (err, fin) = (o.res.is_err(), o.finished());
        if client_turn {
            d.client_done |= fin;
            d.client.push(o);
        } else {
            d.server_done |= fin;
            d.server.push(o);
        }
        if err || (d.client_done && d.server_done && input.is_none()) {
            return d;
        }
        client_turn = !client_turn;
    }
    d.stuck = true;
    d
}

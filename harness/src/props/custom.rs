//! C12 and the second half of C19: what a (custom) mechanism and the user's callback see of each other.
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use core2::io::Write;
use rsasl::callback::{CallbackError, Context, Request, SessionCallback, SessionData};
use rsasl::mechanism::{Authentication, Demand, DemandReply, EmptyProvider, MechanismData, Provider, ProviderExt, ThisProvider};
use rsasl::prelude::*;
use rsasl::property::{AuthId, ChannelBindingName, ChannelBindings, Password, Property, SizedProperty};
use rsasl::registry::{Matches, Mechanism as Mech, Named, Side};
use rsasl::validate::{NoValidation, Validate, ValidationError};
use std::cell::RefCell;
use std::sync::{Arc, Mutex};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        rule: "A case runs a custom mechanism that makes a generated sequence of optional and required requests, channel-binding requests, actions and validations with generated context values against a callback that answers each of them with a generated sequence of satisfy, satisfy_with, get_action, is and context queries for arbitrary properties, and errors; everything both sides observe is compared with a model. Non-trivial: a callback invocation made at least two operations.",
        assumptions: &["what further calls do after the mechanism itself refused a value is not judged"],
        suites: vec![suite("requests", c12_requests, 2_800_000, 14_000_000)],
        expect_labels: &["satisfied twice", "wrong property", "optional unanswered", "required unanswered", "mechanism refuses", "closure error", "callback error", "action", "action ignored", "channel binding", "validation", "swallowed"],
    }]
}

/* ------------------------------------------------------------------ custom mechanisms */

pub type Factory = Box<dyn FnMut() -> Box<dyn Authentication>>;
thread_local! {
    /// what the next session of a custom mechanism started on this thread is
    static FACTORY: RefCell<Option<Factory>> = const { RefCell::new(None) };
}
pub fn set_factory(f: Factory) {
    FACTORY.with(|c| *c.borrow_mut() = Some(f));
}
fn make() -> Box<dyn Authentication> {
    FACTORY.with(|c| (c.borrow_mut().as_mut().expect("harness: factory"))())
}
pub struct CFirst;
impl Named for CFirst {
    fn mech() -> &'static Mech {
        &CUSTOM[0]
    }
}
pub struct SFirst;
impl Named for SFirst {
    fn mech() -> &'static Mech {
        &CUSTOM[1]
    }
}
const CF_NAME: &Mechname = Mechname::const_new_unchecked(b"X-CLIENT_FIRST");
const SF_NAME: &Mechname = Mechname::const_new_unchecked(b"X-SERVER_FIRST");
pub static CUSTOM: [Mech; 2] = [
    Mech::build(CF_NAME, 150, Some(|| Ok(make())), Some(|_| Ok(make())), Side::Client, |_| Some(Matches::<CFirst>::name()), |_| true),
    Mech::build(SF_NAME, 150, Some(|| Ok(make())), Some(|_| Ok(make())), Side::Server, |_| Some(Matches::<SFirst>::name()), |_| true),
];

fn start(cb: impl SessionCallback + 'static, server: bool, which: usize, proto: ProtoCb) -> Result<Sess, Fail> {
    let cfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(&CUSTOM)).with_callback(cb).expect("config");
    let name = CUSTOM[which].mechanism;
    let r = if server {
        SASLServer::<TestVal, ProtoCb>::with_cb(cfg, proto).start_suggested(name).map(Sess::S)
    } else {
        SASLClient::with_cb(cfg, proto).start_suggested([&name]).map(Sess::C)
    };
    r.map_err(|e| Fail { sig: "start".into(), msg: format!("custom mechanism: {e:?}"), harness: false })
}

/* ------------------------------------------------------------------ properties of several types */

macro_rules! unsized_prop {
    ($n:ident, $v:ty) => {
        struct $n;
        impl<'a> Property<'a> for $n {
            type Value = $v;
        }
    };
}
unsized_prop!(PText, str);
unsized_prop!(PText2, str);
unsized_prop!(PBytes, [u8]);
struct PNum;
impl<'a> SizedProperty<'a> for PNum {
    type Value = u64;
}
struct PNum2;
impl<'a> SizedProperty<'a> for PNum2 {
    type Value = u64;
}
struct PPair;
impl<'a> SizedProperty<'a> for PPair {
    type Value = (&'a str, u32);
}
const NAMES: [&str; 10] = ["PText", "PText2", "PBytes", "PNum", "PNum2", "PPair", "AuthId", "Password", "ChannelBindings", "ChannelBindingName"];
const CB: usize = 8;
const CBNAME: usize = 9;

/// $body is evaluated with the type P, `give!(s, |v| ..)` to make a value of it and `canon(v)`
macro_rules! by_prop {
    ($i:expr, $p:ident, $sized:ident, $unsized:block, $sizedb:block) => {
        match $i {
            0 => { type $p = PText; $unsized }
            1 => { type $p = PText2; $unsized }
            2 => { type $p = PBytes; $unsized }
            3 => { type $p = PNum; $sizedb }
            4 => { type $p = PNum2; $sizedb }
            5 => { type $p = PPair; $sizedb }
            6 => { type $p = AuthId; $unsized }
            7 => { type $p = Password; $unsized }
            8 => { type $p = ChannelBindings; $unsized }
            _ => { type $p = ChannelBindingName; $unsized }
        }
    };
}
macro_rules! each_prop {
    ($i:expr, $p:ident, $b:block) => {
        by_prop!($i, $p, x, $b, $b)
    };
}
fn num(s: &str) -> u64 {
    s.bytes().fold(7, |a, b| a.wrapping_mul(31).wrapping_add(u64::from(b)))
}
/// Making and reading values of a property from a text
trait Tv: for<'p> Property<'p> {
    fn canon(v: &<Self as Property<'_>>::Value) -> String;
    fn give<R>(s: &str, f: impl FnOnce(&<Self as Property<'_>>::Value) -> R) -> R;
}
macro_rules! tv_str {
    ($($n:ident),*) => { $( impl Tv for $n {
        fn canon(v: &str) -> String { format!("{v:?}") }
        fn give<R>(s: &str, f: impl FnOnce(&str) -> R) -> R { f(s) }
    } )* };
}
macro_rules! tv_bytes {
    ($($n:ident),*) => { $( impl Tv for $n {
        fn canon(v: &[u8]) -> String { format!("{v:?}") }
        fn give<R>(s: &str, f: impl FnOnce(&[u8]) -> R) -> R { f(s.as_bytes()) }
    } )* };
}
macro_rules! tv_num {
    ($($n:ident),*) => { $( impl Tv for $n {
        fn canon(v: &u64) -> String { format!("{v}") }
        fn give<R>(s: &str, f: impl FnOnce(&u64) -> R) -> R { f(&num(s)) }
    } )* };
}
tv_str!(PText, PText2, AuthId, ChannelBindingName);
tv_bytes!(PBytes, Password, ChannelBindings);
tv_num!(PNum, PNum2);
impl Tv for PPair {
    fn canon(v: &(&str, u32)) -> String {
        format!("{v:?}")
    }
    fn give<R>(s: &str, f: impl FnOnce(&(&str, u32)) -> R) -> R {
        f(&(s, s.len() as u32))
    }
}
/// How the value made from `s` reads
fn canon_of(p: usize, s: &str) -> String {
    each_prop!(p, P, { <P as Tv>::give(s, |v| <P as Tv>::canon(v)) })
}

/* ------------------------------------------------------------------ context */

#[derive(Clone, Debug, Default)]
struct Values {
    // property, text
    vals: Vec<(usize, String)>,
}
struct Provide<'a> {
    vals: &'a [(usize, String)],
    nums: &'a [u64],
    pairs: &'a [(&'a str, u32)],
}
impl<'a> Provider<'a> for Provide<'a> {
    fn provide(&self, req: &mut Demand<'a>) -> DemandReply<()> {
        for (i, (p, s)) in self.vals.iter().enumerate() {
            match p {
                0 => req.provide_ref::<PText>(s)?.done()?,
                1 => req.provide_ref::<PText2>(s)?.done()?,
                2 => req.provide_ref::<PBytes>(s.as_bytes())?.done()?,
                3 => req.provide_ref::<PNum>(&self.nums[i])?.done()?,
                4 => req.provide_ref::<PNum2>(&self.nums[i])?.done()?,
                5 => req.provide_ref::<PPair>(&self.pairs[i])?.done()?,
                6 => req.provide_ref::<AuthId>(s)?.done()?,
                7 => req.provide_ref::<Password>(s.as_bytes())?.done()?,
                8 => req.provide_ref::<ChannelBindings>(s.as_bytes())?.done()?,
                _ => req.provide_ref::<ChannelBindingName>(s)?.done()?,
            }
        }
        req.done()
    }
}
impl Values {
    fn nums(&self) -> Vec<u64> {
        self.vals.iter().map(|(_, s)| num(s)).collect()
    }
    fn pairs(&self) -> Vec<(&str, u32)> {
        self.vals.iter().map(|(_, s)| (s.as_str(), s.len() as u32)).collect()
    }
    fn first(&self, p: usize) -> Option<&str> {
        self.vals.iter().find(|(q, _)| *q == p).map(|(_, s)| s.as_str())
    }
}
/// How a request's context is put together
#[derive(Clone, Debug)]
enum Shape {
    Empty,
    One,
    Two,
    /// a single value, then the rest
    This,
}
#[derive(Clone, Debug)]
struct CtxPlan {
    shape: Shape,
    a: Values,
    b: Values,
}
/// A short word, at times a long text.
fn value(src: &mut Src, max: usize) -> String {
    if src.chance(1, 32) {
        let n = boundary(src);
        return long_text(src, n);
    }
    word(src, max)
}
impl CtxPlan {
    fn gen(src: &mut Src) -> CtxPlan {
        let vals = |src: &mut Src| Values { vals: (0..src.idx(4)).map(|_| (src.idx(10), value(src, 5))).collect() };
        let shape = match src.below(4) {
            0 => Shape::Empty,
            1 => Shape::One,
            2 => Shape::Two,
            _ => Shape::This,
        };
        let (a, b) = (vals(src), vals(src));
        CtxPlan { shape, a, b }
    }
    fn find(&self, p: usize) -> Option<&str> {
        match self.shape {
            Shape::Empty => None,
            Shape::One => self.a.first(p),
            Shape::Two => self.a.first(p).or_else(|| self.b.first(p)),
            Shape::This => (p == 0).then_some("this").or_else(|| self.b.first(p)),
        }
    }
}
macro_rules! with_ctx {
    ($plan:expr, $p:ident, $body:expr) => {{
        let (an, ap, bn, bp) = ($plan.a.nums(), $plan.a.pairs(), $plan.b.nums(), $plan.b.pairs());
        let a = Provide { vals: &$plan.a.vals, nums: &an, pairs: &ap };
        let b = Provide { vals: &$plan.b.vals, nums: &bn, pairs: &bp };
        match $plan.shape {
            Shape::Empty => {
                let $p = EmptyProvider;
                $body
            }
            Shape::One => {
                let $p = a;
                $body
            }
            Shape::Two => {
                let $p = a.and(b);
                $body
            }
            Shape::This => {
                let $p = ThisProvider::<PText>::with("this").and(b);
                $body
            }
        }
    }};
}

/* ------------------------------------------------------------------ mechanism script */

#[derive(Clone, Debug)]
enum MOp {
    Need { prop: usize, required: bool, refuse: bool },
    Action { prop: usize, value: String },
    Cb { name: String, required: bool },
    Validate,
}
#[derive(Clone, Debug)]
struct MStep {
    ops: Vec<(MOp, CtxPlan, /* return the error */ bool)>,
    out: Vec<u8>,
    end: u8,
}
const REFUSED: &str = "the mechanism refuses this value";

struct Scripted {
    steps: Vec<MStep>,
    at: usize,
    log: Arc<Mutex<Vec<String>>>,
}
fn outcome(r: &Result<Option<String>, SessionError>) -> String {
    match r {
        Ok(Some(v)) => format!("value {v}"),
        Ok(None) => "nothing".into(),
        Err(e) => err(e),
    }
}
fn err(e: &SessionError) -> String {
    match e {
        SessionError::Boxed(b) => format!("error {b}"),
        SessionError::CallbackError(CallbackError::NoValue) => "error NoValue".into(),
        SessionError::CallbackError(CallbackError::NoCallback(_)) => "error NoCallback".into(),
        SessionError::Io { source } => format!("error io {source}"),
        SessionError::MissingChannelBindingData(n) => format!("error no binding {n}"),
        SessionError::ValidationError(v) => format!("error validation {v}"),
        e => format!("error? {e:?}"),
    }
}
impl Authentication for Scripted {
    fn step(&mut self, md: &mut MechanismData, _: Option<&[u8]>, w: &mut dyn Write) -> Result<State, SessionError> {
        let step = self.steps[self.at].clone();
        self.at += 1;
        for (op, ctx, stop) in &step.ops {
            let r: Result<Option<String>, SessionError> = with_ctx!(ctx, p, {
                match op {
                    MOp::Need { prop, required, refuse } => each_prop!(*prop, P, {
                        let f = |v: &<P as Property<'_>>::Value| {
                            if *refuse {
                                Err(SessionError::Boxed(REFUSED.into()))
                            } else {
                                Ok(<P as Tv>::canon(v))
                            }
                        };
                        if *required {
                            md.need_with::<P, _, _>(&p, f).map(Some)
                        } else {
                            md.maybe_need_with::<P, _, _>(&p, f)
                        }
                    }),
                    MOp::Action { prop, value } => each_prop!(*prop, P, { <P as Tv>::give(value, |v| md.action::<P>(&p, v)).map(|()| None) }),
                    MOp::Cb { name, required } => {
                        let f = |v: &[u8]| Ok(<ChannelBindings as Tv>::canon(v));
                        if *required {
                            md.need_cb_data(name, p, f).map(Some)
                        } else {
                            md.maybe_need_cb_data(name, p, f)
                        }
                    }
                    MOp::Validate => md.validate(&p).map(|()| None).map_err(SessionError::from),
                }
            });
            self.log.lock().unwrap().push(outcome(&r));
            if *stop {
                r?;
            }
        }
        w.write_all(&step.out)?;
        Ok(match step.end {
            0 => State::Running,
            1 => State::Finished(MessageSent::Yes),
            _ => State::Finished(MessageSent::No),
        })
    }
}

/* ------------------------------------------------------------------ callback script */

#[derive(Clone, Debug)]
enum COp {
    Sat(usize, String),
    With(usize, String),
    WithErr(usize),
    Act(usize),
    Is(usize),
    Ctx(usize),
    Fail(u8),
}
#[derive(Clone, Debug)]
struct CCall {
    // operation, propagate an error
    ops: Vec<(COp, bool)>,
}
const CLOSURE: &str = "the closure failed";
const VALIDATION: &str = "validation failed";
fn cb_error(k: u8) -> SessionError {
    match k {
        0 => CbErr::Boxed.make(),
        1 => CbErr::NoValue.make(),
        2 => CbErr::Io.make(),
        4 => CbErr::Input.make(),
        5 => CbErr::Done.make(),
        6 => CbErr::Mutual.make(),
        7 => CbErr::Validation.make(),
        8 => CbErr::Layer.make(),
        9 => CbErr::Unvalidated.make(),
        10 => CbErr::Eof.make(),
        11 => CbErr::Missing.make(),
        _ => SessionError::CallbackError(CallbackError::NoCallback("some property")),
    }
}
struct ScriptedCb {
    calls: Vec<CCall>,
    log: Arc<Mutex<Vec<String>>>,
    at: Mutex<usize>,
}
fn sized_with(p: usize, r: &mut Request, s: &str, fail: bool, ran: &mut bool) -> Option<Result<(), SessionError>> {
    macro_rules! go {
        ($p:ident, $v:expr) => {
            Some(
                r.satisfy_with::<$p, _>(|| {
                    *ran = true;
                    if fail {
                        Err(SessionError::Boxed(CLOSURE.into()))
                    } else {
                        Ok($v)
                    }
                })
                .map(|_| ()),
            )
        };
    }
    match p {
        3 => go!(PNum, num(s)),
        4 => go!(PNum2, num(s)),
        5 => {
            // the value borrows from the text
            let s: &'static str = interned(s);
            go!(PPair, (s, s.len() as u32))
        }
        _ => None,
    }
}
fn sat_desc(r: &Result<(), SessionError>) -> String {
    match r {
        Ok(()) => "goes on".into(),
        Err(SessionError::CallbackError(e)) if !matches!(e, CallbackError::NoValue | CallbackError::NoCallback(_)) => "returns early".into(),
        Err(e) => err(e),
    }
}
impl SessionCallback for ScriptedCb {
    fn callback(&self, sd: &SessionData, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        let n = {
            let mut at = self.at.lock().unwrap();
            *at += 1;
            *at - 1
        };
        let log = |s: String| self.log.lock().unwrap().push(s);
        log(format!("call {} {:?}", sd.mechanism().mechanism, sd.side()));
        let Some(call) = self.calls.get(n) else { return Ok(()) };
        for (op, propagate) in &call.ops {
            match op {
                COp::Sat(p, s) => {
                    let x = each_prop!(*p, P, { <P as Tv>::give(s, |v| r.satisfy::<P>(v).map(|_| ())) });
                    log(format!("satisfy {} {}", NAMES[*p], sat_desc(&x)));
                    if *propagate {
                        x?;
                    }
                }
                COp::With(p, _) | COp::WithErr(p) => {
                    let (s, fail) = if let COp::With(_, s) = op { (s.as_str(), false) } else { ("", true) };
                    let mut ran = false;
                    let x = sized_with(*p, r, s, fail, &mut ran).expect("harness: sized");
                    log(format!("satisfy_with {} {} {}", NAMES[*p], if ran { "evaluated" } else { "not evaluated" }, sat_desc(&x)));
                    if *propagate {
                        x?;
                    }
                }
                COp::Act(p) => {
                    let v = each_prop!(*p, P, { r.get_action::<P>().map(|v| <P as Tv>::canon(v)) });
                    log(format!("action {} {v:?}", NAMES[*p]));
                }
                COp::Is(p) => {
                    let v = each_prop!(*p, P, { r.is::<P>() });
                    log(format!("is {} {v}", NAMES[*p]));
                }
                COp::Ctx(p) => log(ctx_line(c, *p)),
                COp::Fail(k) => return Err(cb_error(*k)),
            }
        }
        Ok(())
    }
    fn validate(&self, sd: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        let n = {
            let mut at = self.at.lock().unwrap();
            *at += 1;
            *at - 1
        };
        let log = |s: String| self.log.lock().unwrap().push(s);
        log(format!("validate {} {:?} {} {}", sd.mechanism().mechanism, sd.side(), v.is::<TestVal>(), v.is::<NoValidation>()));
        let Some(call) = self.calls.get(n) else { return Ok(()) };
        for (op, _) in &call.ops {
            match op {
                COp::Ctx(p) => log(ctx_line(c, *p)),
                COp::Fail(k) if k % 2 == 1 => return Err(ValidationError::MissingRequiredProperty),
                COp::Fail(_) => return Err(ValidationError::Boxed(VALIDATION.into())),
                _ => {}
            }
        }
        Ok(())
    }
}
fn ctx_line(c: &Context, p: usize) -> String {
    let v = each_prop!(p, P, { c.get_ref::<P>().map(|v| <P as Tv>::canon(v)) });
    format!("context {} {v:?}", NAMES[p])
}

/* ------------------------------------------------------------------ model and property */

enum Req<'a> {
    Satisfy(usize, /* mechanism refuses */ bool),
    Action(usize, &'a str),
}
/// What one callback invocation does: the log, whether/with what the request was answered, its result
struct Called {
    answer: Option<String>,
    taken: bool,
    result: Result<(), String>,
    /// behaviour beyond this point is not specified
    open: bool,
}
fn model_call(src: &mut Src, call: Option<&CCall>, req: &Req, ctx: &dyn Fn(usize) -> Option<String>, log: &mut Vec<String>) -> Called {
    let mut c = Called { answer: None, taken: false, result: Ok(()), open: false };
    let Some(call) = call else { return c };
    if call.ops.len() > 1 {
        src.nontrivial();
    }
    for (op, propagate) in &call.ops {
        match op {
            COp::Sat(p, _) | COp::With(p, _) | COp::WithErr(p) => {
                let with = !matches!(op, COp::Sat(..));
                let matching = matches!(req, Req::Satisfy(q, _) if q == p);
                if !matching {
                    src.label("wrong property");
                }
                if matching && c.answer.is_some() {
                    src.label("satisfied twice");
                }
                let live = matching && c.answer.is_none();
                let (desc, stop): (String, Option<Result<(), String>>) = if !live {
                    ("goes on".into(), None)
                } else if matches!(op, COp::WithErr(_)) {
                    src.label("closure error");
                    (format!("error {CLOSURE}"), Some(Err(format!("error {CLOSURE}"))))
                } else if matches!(req, Req::Satisfy(_, true)) {
                    src.label("mechanism refuses");
                    if !propagate {
                        c.open = true;
                    }
                    (format!("error {REFUSED}"), Some(Err(format!("error {REFUSED}"))))
                } else {
                    let (COp::Sat(_, s) | COp::With(_, s)) = op else { unreachable!() };
                    c.answer = Some(canon_of(*p, s));
                    if !propagate {
                        src.label("swallowed");
                    }
                    ("returns early".into(), Some(Ok(())))
                };
                if with {
                    log.push(format!("satisfy_with {} {} {desc}", NAMES[*p], if live { "evaluated" } else { "not evaluated" }));
                } else {
                    log.push(format!("satisfy {} {desc}", NAMES[*p]));
                }
                if let (Some(r), true) = (stop, *propagate) {
                    c.result = r;
                    return c;
                }
                if c.open {
                    return c;
                }
            }
            COp::Act(p) => {
                let v = match req {
                    Req::Action(q, s) if q == p && !c.taken => {
                        c.taken = true;
                        src.label("action");
                        Some(canon_of(*p, s))
                    }
                    _ => None,
                };
                log.push(format!("action {} {v:?}", NAMES[*p]));
            }
            COp::Is(p) => {
                let v = matches!(req, Req::Satisfy(q, _) | Req::Action(q, _) if q == p);
                log.push(format!("is {} {v}", NAMES[*p]));
            }
            COp::Ctx(p) => log.push(format!("context {} {:?}", NAMES[*p], ctx(*p))),
            COp::Fail(k) => {
                src.label("callback error");
                c.result = Err(err(&cb_error(*k)));
                return c;
            }
        }
    }
    c
}

fn c12_requests(src: &mut Src) -> R {
    let server = src.flag();
    let which = src.idx(2);
    // which properties are used: few, so that they meet
    let few: Vec<usize> = (0..src.range(1, 4)).map(|_| src.idx(9)).collect();
    let nsteps = src.range(1, 3);
    let mut steps = vec![];
    let mut total = 0;
    for i in 0..nsteps {
        let n = src.size(4);
        let ops = (0..n)
            .map(|_| {
                total += 1;
                let op = match src.weighted(&[6, 3, 2, 1]) {
                    0 => MOp::Need { prop: *src.pick(&few), required: src.flag(), refuse: src.chance(1, 6) },
                    1 => MOp::Action { prop: *src.pick(&few), value: value(src, 6) },
                    2 => MOp::Cb { name: (*src.pick(&["tls-unique", "tls-exporter", "x"])).to_string(), required: src.flag() },
                    _ => MOp::Validate,
                };
                (op, CtxPlan::gen(src), src.chance(1, 3))
            })
            .collect();
        let out = word(src, 4).into_bytes();
        let end = if i + 1 < nsteps { 0 } else { src.below(3) as u8 };
        steps.push(MStep { ops, out, end });
    }
    let mut few_cb = few.clone();
    few_cb.push(CB);
    let calls: Vec<CCall> = (0..total)
        .map(|_| CCall {
            ops: (0..src.size(5))
                .map(|_| {
                    let p = if src.chance(1, 6) { src.idx(10) } else { *src.pick(&few_cb) };
                    let op = match src.weighted(&[6, 2, 1, 3, 1, 2, 1]) {
                        0 => COp::Sat(p, text(src, Txt { max: 12, empty: true, nul: true, soh: true })),
                        1 if (3..=5).contains(&p) => COp::With(p, word(src, 3)),
                        2 if (3..=5).contains(&p) => COp::WithErr(p),
                        3 => COp::Act(p),
                        4 => COp::Is(p),
                        5 => COp::Ctx(if src.flag() { p } else { src.idx(10) }),
                        6 => COp::Fail(src.below(12) as u8),
                        _ => COp::Sat(p, value(src, 6)),
                    };
                    (op, src.chance(2, 3))
                })
                .collect(),
        })
        .collect();
    let proto = ProtoCb(if src.flag() { vec![("tls-unique".into(), cbdata(src)), ("x".into(), vec![])] } else { vec![] });
    src.note(|| format!("{} side, mechanism {steps:?}, callback {calls:?}, protocol bindings {proto:?}", if server { "server" } else { "client" }));

    // the model
    let name = CUSTOM[which].mechanism.as_str();
    let side = if server { "Server" } else { "Client" };
    let mut cb_log: Vec<String> = vec![];
    let mut mech_log: Vec<String> = vec![];
    let mut results: Vec<(String, Vec<u8>)> = vec![];
    let mut n = 0;
    'model: for st in &steps {
        let mut failed = None;
        for (op, ctx, stop) in &st.ops {
            let look = |extra: Option<&str>, p: usize| -> Option<String> {
                if p == CBNAME {
                    if let Some(e) = extra {
                        return Some(canon_of(p, e));
                    }
                }
                ctx.find(p).map(|s| canon_of(p, s))
            };
            let enter = |n: &mut usize, log: &mut Vec<String>| {
                log.push(format!("call {name} {side}"));
                *n += 1;
                calls.get(*n - 1)
            };
            let r: Result<Option<String>, String> = match op {
                MOp::Need { prop, required, refuse } => {
                    let call = enter(&mut n, &mut cb_log);
                    let c = model_call(src, call, &Req::Satisfy(*prop, *refuse), &|p| look(None, p), &mut cb_log);
                    if c.open {
                        return Ok(());
                    }
                    answered(src, c, *required, "error NoCallback")
                }
                MOp::Cb { name, required } => {
                    src.label("channel binding");
                    if let Some((_, d)) = proto.0.iter().find(|(x, _)| x == name) {
                        Ok(Some(format!("{d:?}")))
                    } else {
                        let call = enter(&mut n, &mut cb_log);
                        let c = model_call(src, call, &Req::Satisfy(CB, false), &|p| look(Some(name), p), &mut cb_log);
                        answered(src, c, *required, &format!("error no binding {name}"))
                    }
                }
                MOp::Action { prop, value } => {
                    let call = enter(&mut n, &mut cb_log);
                    let c = model_call(src, call, &Req::Action(*prop, value), &|p| look(None, p), &mut cb_log);
                    match c.result {
                        Err(e) => Err(e),
                        Ok(()) if c.taken => Ok(None),
                        Ok(()) => {
                            src.label("action ignored");
                            Err("error NoCallback".into())
                        }
                    }
                }
                MOp::Validate => {
                    src.label("validation");
                    n += 1;
                    cb_log.push(format!("validate {name} {side} {server} {}", !server));
                    let mut r = Ok(None);
                    for (o, _) in calls.get(n - 1).map_or(&[][..], |c| &c.ops) {
                        match o {
                            COp::Ctx(p) => cb_log.push(format!("context {} {:?}", NAMES[*p], look(None, *p))),
                            COp::Fail(k) => {
                                r = Err(format!("error validation {}", if k % 2 == 1 { MISSING_PROPERTY } else { VALIDATION }));
                                break;
                            }
                            _ => {}
                        }
                    }
                    r
                }
            };
            mech_log.push(match &r {
                Ok(Some(v)) => format!("value {v}"),
                Ok(None) => "nothing".into(),
                Err(e) => e.clone(),
            });
            if let (Err(e), true) = (&r, *stop) {
                failed = Some(e.clone());
                break;
            }
        }
        if let Some(e) = failed {
            results.push((e, vec![]));
            break 'model;
        }
        let end = ["running", "finished+msg", "finished"][usize::from(st.end)];
        results.push((end.to_string(), st.out.clone()));
    }

    // the real thing
    let (mlog, clog) = (Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new(vec![])));
    let (st, ml) = (steps.clone(), mlog.clone());
    set_factory(Box::new(move || Box::new(Scripted { steps: st.clone(), at: 0, log: ml.clone() })));
    let cb = ScriptedCb { calls, log: clog.clone(), at: Mutex::new(0) };
    let mut s = start(cb, server, which, proto)?;
    ensure!(s.first() == (server == (which == 1)), "first", "are_we_first of {name} on the {side} is {}", s.first());
    for (i, (want, out)) in results.iter().enumerate() {
        let o = s.step(None);
        let got = match &o.res {
            Ok(_) => kind(&o.res).to_string(),
            Err(e) => err(e),
        };
        let (m, c) = (mlog.lock().unwrap().clone(), clog.lock().unwrap().clone());
        let km = m.len().min(mech_log.len());
        let kc = c.len().min(cb_log.len());
        ensure!(c[..kc] == cb_log[..kc] && c.len() <= cb_log.len(), "callback-view", "step {i}: the callback saw\n{}\ninstead of\n{}", c.join("\n"), cb_log.join("\n"));
        ensure!(m[..km] == mech_log[..km] && m.len() <= mech_log.len(), "mechanism-view", "step {i}: the mechanism got\n{}\ninstead of\n{}", m.join("\n"), mech_log.join("\n"));
        ensure!(got == *want && o.bytes == *out, "step-result", "step {i}: {} instead of {want} {}", o.desc(), show(out));
    }
    let (m, c) = (mlog.lock().unwrap().clone(), clog.lock().unwrap().clone());
    ensure!(c == cb_log, "callback-view", "the callback saw\n{}\ninstead of\n{}", c.join("\n"), cb_log.join("\n"));
    ensure!(m == mech_log, "mechanism-view", "the mechanism got\n{}\ninstead of\n{}", m.join("\n"), mech_log.join("\n"));
    Ok(())
}
fn answered(src: &mut Src, c: Called, required: bool, missing: &str) -> Result<Option<String>, String> {
    match c.result {
        Err(e) if e != "error NoValue" => Err(e),
        _ => match c.answer {
            Some(v) => Ok(Some(v)),
            None if required => {
                src.label("required unanswered");
                Err(missing.to_string())
            }
            None => {
                src.label("optional unanswered");
                Ok(None)
            }
        },
    }
}

/* ------------------------------------------------------------------ C19 custom */

struct Layer {
    /// the layer is installed after this many steps
    after: usize,
    at: usize,
    key: u8,
    /// this call of encode/decode fails
    fail_at: Option<usize>,
    calls: usize,
    /// at most this much is taken per call
    max: usize,
    log: Arc<Mutex<Vec<(bool, Vec<u8>, Vec<u8>)>>>,
}
const LAYER_ERR: &str = "the layer is broken";
impl Layer {
    fn code(&mut self, enc: bool, input: &[u8], w: &mut dyn Write) -> Result<usize, SessionError> {
        if self.at < self.after {
            return Err(SessionError::NoSecurityLayer);
        }
        self.calls += 1;
        let n = input.len().min(self.max);
        let out: Vec<u8> = input[..n].iter().map(|b| b ^ self.key).collect();
        self.log.lock().unwrap().push((enc, input.to_vec(), out.clone()));
        w.write_all(&out)?;
        if self.fail_at == Some(self.calls - 1) {
            return Err(SessionError::Boxed(LAYER_ERR.into()));
        }
        Ok(n)
    }
}
impl Authentication for Layer {
    fn step(&mut self, _: &mut MechanismData, _: Option<&[u8]>, w: &mut dyn Write) -> Result<State, SessionError> {
        self.at += 1;
        w.write_all(b"m")?;
        Ok(if self.at >= 3 { State::Finished(MessageSent::Yes) } else { State::Running })
    }
    fn encode(&mut self, input: &[u8], w: &mut dyn Write) -> Result<usize, SessionError> {
        self.code(true, input, w)
    }
    fn decode(&mut self, input: &[u8], w: &mut dyn Write) -> Result<usize, SessionError> {
        self.code(false, input, w)
    }
    fn has_security_layer(&self) -> bool {
        self.at >= self.after
    }
}

pub fn c19_custom(src: &mut Src) -> R {
    struct NoCb;
    impl SessionCallback for NoCb {}
    let server = src.flag();
    let which = src.idx(2);
    let after = src.range(1, 4);
    let key = src.below(256) as u8;
    let fail_at = opt(src, |s| s.idx(6));
    let max = *src.pick(&[usize::MAX, 1, 7, 0]);
    let log = Arc::new(Mutex::new(vec![]));
    let l = log.clone();
    set_factory(Box::new(move || Box::new(Layer { after, at: 0, key, fail_at, calls: 0, max, log: l.clone() })));
    let mut s = start(NoCb, server, which, ProtoCb::default())?;
    let mut calls = 0;
    let mut seen = 0;
    src.note(|| format!("layer after {after} steps, key {key}, failing {fail_at:?}, at most {max}"));
    for at in 0..=3usize {
        let installed = at >= after;
        for _ in 0..src.idx(4) {
            ensure!(s.has_layer() == installed, "layer-claim", "has_security_layer is {} after {at} steps, installed after {after}", s.has_layer());
            let enc = src.flag();
            let data = crate::common::layer_data(src, 60);
            let n = data.len();
            let mut w: Vec<u8> = vec![];
            let r = if enc { s.encode(&data, &mut w) } else { s.decode(&data, &mut w) };
            src.note(|| format!("{} {} -> {r:?} {}", if enc { "encode" } else { "decode" }, show(&data), show(&w)));
            if !installed {
                ensure!(matches!(r, Err(SessionError::NoSecurityLayer)) && w.is_empty(), "layer-early", "{r:?} with output {} before the layer was installed", show(&w));
                continue;
            }
            src.label("layer");
            src.nontrivial();
            let k = n.min(max);
            let want: Vec<u8> = data[..k].iter().map(|b| b ^ key).collect();
            let events = log.lock().unwrap().clone();
            ensure!(events.len() == seen + 1 && events[seen] == (enc, data.clone(), want.clone()), "layer-input", "the layer was given {:?} for {} of {}", events.get(seen..), if enc { "encode" } else { "decode" }, show(&data));
            seen += 1;
            ensure!(w == want, "layer-output", "the layer wrote {} and the caller got {}", show(&want), show(&w));
            if fail_at == Some(calls) {
                src.label("layer error");
                ensure!(matches!(&r, Err(SessionError::Boxed(e)) if e.to_string() == LAYER_ERR), "layer-error", "the layer failed and the caller got {r:?}");
            } else {
                ensure!(matches!(r, Ok(m) if m == k), "layer-count", "{k} of {n} bytes were taken and the caller got {r:?}");
            }
            calls += 1;
        }
        if at < 3 {
            let o = s.step(Some(b"x"));
            ensure!(o.ok() && o.bytes == b"m", "layer-step", "{}", o.desc());
        }
    }
    Ok(())
}

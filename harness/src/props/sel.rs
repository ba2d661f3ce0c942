//! C08: which mechanism is started; C14: mechanism names.
use super::custom::set_factory;
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use core2::io::Write;
use rsasl::callback::{Context, Request, SessionCallback, SessionData};
use rsasl::mechanism::{Authentication, MechanismData};
use rsasl::mechname::MechanismNameError;
use rsasl::prelude::*;
use rsasl::registry::{Matches, Mechanism as Mech, Named, Selection, Selector, Side};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::convert::TryFrom;
use std::sync::{Arc, Mutex};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "Suite client starts a client with a generated registry (built-in and custom mechanisms), offer (known, unknown, repeated names in any order), channel-binding setting and preference (default, generated ranks with ties, rejections), compares with a model and then runs the exchange with a server of the mechanism it reports. Suite server requests generated names of servers with generated registries. Suite crowd does both with registries of up to 160 custom mechanisms whose names, priorities, sides and ways to select are generated and whose names differ little from each other, and offers of up to 5000 names. Non-trivial: at least two registered mechanisms were offered (client, crowd), or the registry has at least two (server).",
            assumptions: &["a preference callback is a consistent order; among equally preferred mechanisms any may be started"],
            suites: vec![suite("client", c08_client, 1_600_000, 8_000_000), suite("server", c08_server, 1_200_000, 6_000_000), suite("crowd", c08_crowd, 240_000, 1_500_000)],
            expect_labels: &["custom", "rejected", "all rejected", "tie", "none shared", "bindings off", "plus", "default preference", "not registered", "client only", "many registered", "thousands offered"],
        },
        Prop {
            id: "C14",
            rule: "Suite name gives byte strings of valid, almost valid and arbitrary form to every constructor; suite position puts every byte value at a generated position of a valid name. Non-trivial: the string is neither empty nor of one character.",
            assumptions: &[],
            suites: vec![suite("name", c14_name, 8_000_000, 40_000_000), suite("position", c14_position, 16_000, 100_000)],
            expect_labels: &["valid", "invalid", "empty", "not UTF-8", "long"],
        },
    ]
}

/* ------------------------------------------------------------------ custom mechanisms */

/// A mechanism of one message that tells its own name
struct Tell(&'static str);
impl Authentication for Tell {
    fn step(&mut self, _: &mut MechanismData, _: Option<&[u8]>, w: &mut dyn Write) -> Result<State, SessionError> {
        w.write_all(self.0.as_bytes())?;
        Ok(State::Finished(MessageSent::Yes))
    }
}
macro_rules! customs {
    ($($n:ident $i:expr, $name:literal, $prio:expr, $client:expr, $server:expr, $first:expr, $select:expr;)*) => {
        $( struct $n;
        impl Named for $n {
            fn mech() -> &'static Mech { &CUSTOMS[$i] }
        } )*
        static CUSTOMS: [Mech; 7] = [$( Mech::build(Mechname::const_new_unchecked($name), $prio, $client, $server, $first, $select, |_| true) ),*];
    };
}
macro_rules! tell {
    ($n:literal) => {
        Some(|| Ok(Box::new(Tell($n)) as Box<dyn Authentication>))
    };
}
macro_rules! tell_server {
    ($n:literal) => {
        Some(|_| Ok(Box::new(Tell($n)) as Box<dyn Authentication>))
    };
}
customs! {
    XBest 0, b"X-BEST", 10_000, tell!("X-BEST"), tell_server!("X-BEST"), Side::Client, |_| Some(Matches::<XBest>::name());
    XWorst 1, b"X-WORST", 0, tell!("X-WORST"), tell_server!("X-WORST"), Side::Server, |_| Some(Matches::<XWorst>::name());
    XBound 2, b"X-BOUND", 550, tell!("X-BOUND"), tell_server!("X-BOUND"), Side::Client, |cb| if cb { Some(Matches::<XBound>::name()) } else { None };
    XServer 3, b"X-SERVER", 5_000, None, tell_server!("X-SERVER"), Side::Client, |_| Some(Matches::<XServer>::name());
    XClient 4, b"X-CLIENT", 350, tell!("X-CLIENT"), None, Side::Client, |_| Some(Matches::<XClient>::name());
    XLate 5, b"X-LATE", 300, tell!("X-LATE"), tell_server!("X-LATE"), Side::Client, |_| Some(Selection::Nothing(Box::new(Late(false))));
    XPl 6, b"PLAI", 301, tell!("PLAI"), tell_server!("PLAI"), Side::Client, |_| Some(Matches::<XPl>::name());
}
/// A selector that decides only after the whole offer was seen
struct Late(bool);
impl Selector for Late {
    fn select(&mut self, m: &Mechname) -> Option<&'static Mech> {
        if m.as_str() == "X-LATE" {
            self.0 = true;
        }
        None
    }
    fn done(&mut self) -> Option<&'static Mech> {
        self.0.then_some(&CUSTOMS[5])
    }
    fn finalize(&mut self) -> Result<Box<dyn Authentication>, SASLError> {
        Ok(Box::new(Tell("X-LATE")))
    }
}
fn any_mech(name: &str) -> Mech {
    builtin(name).unwrap_or_else(|| *CUSTOMS.iter().find(|m| m.mechanism.as_str() == name).expect("harness: mechanism"))
}
const POOL: [&str; 20] = [
    "PLAIN", "SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-512", "SCRAM-SHA-512-PLUS", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2",
    "OAUTHBEARER", "GSSAPI", "X-BEST", "X-WORST", "X-BOUND", "X-SERVER", "X-CLIENT", "X-LATE", "PLAI",
];
const UNKNOWN: [&str; 11] = [
    "SCRAM-SHA-25", "SCRAM-SHA-256-PLU", "SCRAM-SHA-256-PLUSS", "PLAINX", "PLAIN-", "-PLUS", "X", "SCRAM-SHA-224", "SCRAM-SHA256", "CRAM-MD5", "EXTERNALEXTERNAL",
];
fn priority(name: &str) -> usize {
    match name {
        "X-BEST" => 10_000,
        "X-WORST" => 0,
        "X-BOUND" => 550,
        "X-CLIENT" => 350,
        "PLAI" => 301,
        "SCRAM-SHA-256-PLUS" | "SCRAM-SHA-512-PLUS" => 700,
        "SCRAM-SHA-256" | "SCRAM-SHA-512" => 600,
        "SCRAM-SHA-1-PLUS" => 500,
        "SCRAM-SHA-1" => 400,
        "LOGIN" => 200,
        "ANONYMOUS" | "EXTERNAL" => 100,
        _ => 300,
    }
}
fn has_client(name: &str) -> bool {
    name != "X-SERVER"
}
fn has_server(name: &str) -> bool {
    name != "X-CLIENT"
}
fn needs_bindings(name: &str) -> bool {
    name.ends_with("-PLUS") || name == "X-BOUND"
}

/// Registries have to be 'static; this one is until it is dropped at the end of the case, after
/// everything made from it.
struct Reg(*mut [Mech]);
impl Reg {
    fn new(names: &[&'static str]) -> Reg {
        let v: Vec<Mech> = names.iter().map(|n| any_mech(n)).collect();
        Reg(Box::into_raw(v.into_boxed_slice()))
    }
    fn registry(&self) -> Registry {
        Registry::with_mechanisms(unsafe { &*self.0 })
    }
}
impl Drop for Reg {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.0) });
    }
}
fn gen_reg(src: &mut Src) -> Vec<&'static str> {
    let mut pool = POOL.to_vec();
    let n = src.size(POOL.len());
    // a few mechanisms in any order, or all but a few
    src.shuffle(&mut pool);
    pool.truncate(n);
    pool
}

/* ------------------------------------------------------------------ C08 */

struct PreferCb {
    cb: bool,
    /// ranks (higher is better) and None for rejected ones; without it the default preference
    ranks: Option<HashMap<&'static str, Option<u64>>>,
    seen: Arc<Mutex<Vec<(Option<String>, String)>>>,
    inner: Cb,
}
impl SessionCallback for PreferCb {
    fn callback(&self, s: &SessionData, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        self.inner.callback(s, c, r)
    }
    fn enable_channel_binding(&self) -> bool {
        self.cb
    }
    fn prefer<'a>(&self, a: Option<&'a Mech>, b: &'a Mech) -> Ordering {
        self.seen.lock().unwrap().push((a.map(|m| m.mechanism.to_string()), b.mechanism.to_string()));
        let Some(ranks) = &self.ranks else {
            struct D;
            impl SessionCallback for D {}
            return D.prefer(a, b);
        };
        let rank = |m: &Mech| ranks.get(m.mechanism.as_str()).copied().flatten();
        match (a.map(rank), rank(b)) {
            (_, None) => Ordering::Greater,
            (None, Some(_)) => Ordering::Less,
            (Some(x), y) => x.cmp(&y),
        }
    }
}

fn c08_client(src: &mut Src) -> R {
    let registered = gen_reg(src);
    let reg = Reg::new(&registered);
    let cb = src.flag();
    let mut offer: Vec<&'static str> = vec![];
    let all = src.chance(1, 6);
    for m in &registered {
        if all || src.flag() {
            offer.push(*m);
        }
    }
    for _ in 0..src.size(4) {
        offer.push(if src.flag() { *src.pick(&UNKNOWN) } else { *src.pick(&POOL) });
    }
    if src.chance(1, 4) && !offer.is_empty() {
        let d = *src.pick(&offer);
        offer.push(d);
    }
    if src.chance(1, 12) {
        // servers may offer more than anyone knows, and more than once
        src.label("many offered");
        for _ in 0..src.range(20, 600) {
            offer.push(if src.chance(9, 10) || offer.is_empty() { *src.pick(&UNKNOWN) } else { *src.pick(&offer) });
        }
    }
    src.shuffle(&mut offer);
    let ranks = opt(src, |s| {
        let reject = s.chance(1, 3);
        let max = *s.pick(&[30u64, 3]);
        POOL.iter().map(|m| (*m, if reject && s.chance(2, 5) { None } else { Some(s.below(max)) })).collect::<HashMap<_, _>>()
    });
    let reject_all = ranks.is_some() && src.chance(1, 12);
    let ranks = ranks.map(|r| if reject_all { r.into_keys().map(|k| (k, None)).collect() } else { r });

    // the model
    let usable: Vec<&'static str> = registered.iter().copied().filter(|m| offer.contains(m) && has_client(m) && (cb || !needs_bindings(m))).collect();
    let rank = |m: &'static str| -> Option<u64> { ranks.as_ref().map_or(Some(priority(m) as u64), |r| r[m]) };
    let candidates: Vec<&'static str> = usable.iter().copied().filter(|m| rank(m).is_some()).collect();
    let best = candidates.iter().map(|m| rank(m)).max().flatten();
    let winners: Vec<&'static str> = candidates.iter().copied().filter(|m| rank(m) == best).collect();
    if registered.iter().filter(|m| offer.contains(m)).count() > 1 {
        src.nontrivial();
    }
    if winners.iter().any(|w| w.starts_with("X-")) {
        src.label("custom");
    }
    if winners.iter().any(|w| w.ends_with("-PLUS")) {
        src.label("plus");
    }
    if candidates.len() < usable.len() {
        src.label("rejected");
        if candidates.is_empty() {
            src.label("all rejected");
        }
    }
    if winners.len() > 1 {
        src.label("tie");
    }
    if usable.is_empty() && !registered.is_empty() {
        src.label("none shared");
    }
    if !cb && registered.iter().any(|m| needs_bindings(m) && offer.contains(m)) {
        src.label("bindings off");
    }
    if ranks.is_none() && usable.len() > 1 {
        src.label("default preference");
    }
    src.note(|| format!("registry {registered:?}, offer {offer:?}, channel bindings {cb}, ranks {:?}", ranks.as_ref().map(|r| registered.iter().map(|m| (*m, r[m])).collect::<Vec<_>>())));

    let names: Vec<&Mechname> = offer.iter().map(|o| mech(o)).collect();
    let iter = src.flag();
    let start = |script: Script, ccb: ProtoCb| {
        let seen = Arc::new(Mutex::new(vec![]));
        let (inner, _) = Cb::new(script);
        let cfg = SASLConfig::builder().with_registry(reg.registry()).with_callback(PreferCb { cb, ranks: ranks.clone(), seen: seen.clone(), inner }).expect("config");
        let c = SASLClient::with_cb(cfg, ccb);
        let r = if iter { c.start_suggested_iter(names.iter().copied()) } else { c.start_suggested(names.iter()) };
        (r.map(Sess::C), seen)
    };
    let (r, seen) = start(Script::default(), ProtoCb::default());
    for (a, b) in seen.lock().unwrap().iter() {
        ensure!(usable.contains(&b.as_str()), "asks-unusable", "the preference callback was asked about {b}, which can not be used");
        if let Some(a) = a {
            ensure!(candidates.contains(&a.as_str()), "keeps-rejected", "the preference callback was asked to compare {b} with {a}, which it rejected or which can not be used");
        }
    }
    let s = match r {
        Err(e) => {
            ensure!(matches!(e, SASLError::NoSharedMechanism), "start-error", "{e:?}");
            ensure!(winners.is_empty(), "not-started", "no mechanism was started although {winners:?} could be");
            return Ok(());
        }
        Ok(s) => s,
    };
    let name = s.mechname();
    ensure!(offer.contains(&name.as_str()), "not-offered", "{name} was started, which the server did not offer");
    ensure!(usable.contains(&name.as_str()), "unusable", "{name} was started, of {usable:?} that can be used");
    ensure!(candidates.contains(&name.as_str()), "rejected-started", "{name} was started, which the preference callback rejects");
    ensure!(winners.contains(&name.as_str()), "not-preferred", "{name} was started, but {winners:?} is preferred");

    // it is the mechanism it says it is
    let name: &'static str = *winners.iter().find(|w| **w == name).unwrap();
    if let Some(pm) = PAIRABLE.iter().find(|p| **p == name) {
        let p = pairing(src, pm, true);
        let (c, _) = start(p.client.clone(), p.ccb.clone());
        let Ok(mut c) = c else { return fail("start-twice", "the second start failed") };
        ensure!(c.mechname() == name, "start-twice", "{} was started the second time, {name} the first", c.mechname());
        let (mut s, _) = server_of_cb(pm, p.server.clone(), p.scb.clone());
        ensure!(c.first() == (name != "LOGIN") && s.first() != c.first(), "first", "{name}: are_we_first is {} on the client and {} on the server", c.first(), s.first());
        let d = drive(&mut c, &mut s);
        ensure!(d.complete(), "not-itself", "{name}: the exchange with a server of the same mechanism did not complete: {}", d.desc());
    } else if name != "GSSAPI" {
        let mut s = s;
        let o = s.step(None);
        ensure!(o.bytes == name.as_bytes(), "not-itself", "{name} was reported, but the mechanism started is {}", show(&o.bytes));
        ensure!(s.first() == (name != "X-WORST"), "first", "{name}: are_we_first is {}", s.first());
    }
    Ok(())
}

fn c08_server(src: &mut Src) -> R {
    let registered = gen_reg(src);
    let reg = Reg::new(&registered);
    let wanted: &'static str = match src.weighted(&[6, 2, 2]) {
        0 if !registered.is_empty() => *src.pick(&registered),
        1 => *src.pick(&UNKNOWN),
        _ => *src.pick(&POOL),
    };
    if registered.len() > 1 {
        src.nontrivial();
    }
    src.note(|| format!("registry {registered:?}, requested {wanted}"));
    let known = registered.contains(&wanted);
    if !known {
        src.label("not registered");
    } else if !has_server(wanted) {
        src.label("client only");
    }
    set_factory(Box::new(|| Box::new(Tell("?"))));
    let pairable = PAIRABLE.iter().find(|p| **p == wanted);
    let p = pairable.map(|pm| pairing(src, pm, true));
    let (script, scb) = p.as_ref().map_or((Script::default(), ProtoCb::default()), |p| (p.server.clone(), p.scb.clone()));
    let (cb, _) = Cb::new(script);
    let cfg = SASLConfig::builder().with_registry(reg.registry()).with_callback(cb).expect("config");
    let server = SASLServer::<TestVal, ProtoCb>::with_cb(cfg, scb);
    let mut available: Vec<String> = server.get_available().into_iter().map(|m| m.mechanism.to_string()).collect();
    let mut want: Vec<String> = registered.iter().filter(|m| has_server(m)).map(|m| (*m).to_string()).collect();
    available.sort();
    want.sort();
    ensure!(available == want, "available", "{available:?} are listed as available instead of {want:?}");
    match server.start_suggested(mech(wanted)) {
        Err(e) => {
            ensure!(matches!(e, SASLError::NoSharedMechanism), "start-error", "{e:?}");
            ensure!(!known || !has_server(wanted), "not-started", "{wanted} was not started although it is registered");
        }
        Ok(s) => {
            let mut s = Sess::S(s);
            ensure!(known && has_server(wanted), "unregistered", "{} was started for {wanted}, which is not registered with a server side", s.mechname());
            ensure!(s.mechname() == wanted, "other", "{} was started for {wanted}", s.mechname());
            if let (Some(p), Some(pm)) = (p, pairable) {
                // (the client does not support channel bindings)
                let (mut c, _) = client_of_cb(pm, p.client.clone(), p.ccb.clone());
                let d = drive(&mut c, &mut s);
                ensure!(d.complete(), "not-itself", "{wanted}: the exchange with a client of the same mechanism did not complete: {}", d.desc());
            } else if wanted != "GSSAPI" {
                let o = s.step(None);
                ensure!(o.bytes == wanted.as_bytes(), "not-itself", "{wanted} was requested, but the mechanism started is {}", show(&o.bytes));
                ensure!(s.first() == (wanted == "X-WORST"), "first", "{wanted}: are_we_first is {}", s.first());
            }
        }
    }
    Ok(())
}

/* ------------------------------------------------------------------ C08, many mechanisms */

const MANY: usize = 160;
thread_local! {
    /// The mechanisms of the case that runs on this thread, and how each is selected.
    static TABLE: std::cell::Cell<(&'static [Mech], &'static [How])> = const { std::cell::Cell::new((&[], &[])) };
}
#[derive(Clone, Copy, Debug)]
struct How {
    bound: bool,
    late: bool,
}
struct Nth<const I: usize>;
impl<const I: usize> Named for Nth<I> {
    fn mech() -> &'static Mech {
        &TABLE.get().0[I]
    }
}
struct LateNth(usize, bool);
impl Selector for LateNth {
    fn select(&mut self, m: &Mechname) -> Option<&'static Mech> {
        self.1 |= m.as_bytes() == TABLE.get().0[self.0].mechanism.as_bytes();
        None
    }
    fn done(&mut self) -> Option<&'static Mech> {
        self.1.then(|| &TABLE.get().0[self.0])
    }
    fn finalize(&mut self) -> Result<Box<dyn Authentication>, SASLError> {
        Ok(Box::new(TellNth(self.0)))
    }
}
fn select_nth<const I: usize>(cb: bool) -> Option<Selection> {
    let how = TABLE.get().1[I];
    if how.bound && !cb {
        None
    } else if how.late {
        Some(Selection::Nothing(Box::new(LateNth(I, false))))
    } else {
        Some(Matches::<Nth<I>>::name())
    }
}
/// A mechanism of one message that tells which one it is
struct TellNth(usize);
impl Authentication for TellNth {
    fn step(&mut self, _: &mut MechanismData, _: Option<&[u8]>, w: &mut dyn Write) -> Result<State, SessionError> {
        w.write_all(self.0.to_string().as_bytes())?;
        Ok(State::Finished(MessageSent::Yes))
    }
}
type Started = Result<Box<dyn Authentication>, SASLError>;
fn client_nth<const I: usize>() -> Started {
    Ok(Box::new(TellNth(I)))
}
fn server_nth<const I: usize>(_: &SASLConfig) -> Started {
    Ok(Box::new(TellNth(I)))
}
type Fns = (fn(bool) -> Option<Selection>, fn() -> Started, fn(&SASLConfig) -> Started);
macro_rules! nths {
    ($($t:literal)*) => {
        [$(
            (select_nth::<{ $t * 10 }>, client_nth::<{ $t * 10 }>, server_nth::<{ $t * 10 }>),
            (select_nth::<{ $t * 10 + 1 }>, client_nth::<{ $t * 10 + 1 }>, server_nth::<{ $t * 10 + 1 }>),
            (select_nth::<{ $t * 10 + 2 }>, client_nth::<{ $t * 10 + 2 }>, server_nth::<{ $t * 10 + 2 }>),
            (select_nth::<{ $t * 10 + 3 }>, client_nth::<{ $t * 10 + 3 }>, server_nth::<{ $t * 10 + 3 }>),
            (select_nth::<{ $t * 10 + 4 }>, client_nth::<{ $t * 10 + 4 }>, server_nth::<{ $t * 10 + 4 }>),
            (select_nth::<{ $t * 10 + 5 }>, client_nth::<{ $t * 10 + 5 }>, server_nth::<{ $t * 10 + 5 }>),
            (select_nth::<{ $t * 10 + 6 }>, client_nth::<{ $t * 10 + 6 }>, server_nth::<{ $t * 10 + 6 }>),
            (select_nth::<{ $t * 10 + 7 }>, client_nth::<{ $t * 10 + 7 }>, server_nth::<{ $t * 10 + 7 }>),
            (select_nth::<{ $t * 10 + 8 }>, client_nth::<{ $t * 10 + 8 }>, server_nth::<{ $t * 10 + 8 }>),
            (select_nth::<{ $t * 10 + 9 }>, client_nth::<{ $t * 10 + 9 }>, server_nth::<{ $t * 10 + 9 }>),
        )*]
    };
}
static NTHS: [Fns; MANY] = nths!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);

/// The names and mechanisms of one case; freed after everything made from them.
struct Crowd {
    names: *mut [Box<[u8]>],
    mechs: *mut [Mech],
    hows: *mut [How],
}
impl Drop for Crowd {
    fn drop(&mut self) {
        TABLE.set((&[], &[]));
        unsafe {
            drop(Box::from_raw(self.mechs));
            drop(Box::from_raw(self.hows));
            drop(Box::from_raw(self.names));
        }
    }
}
const NAME_CHARS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
/// A name, often one that differs little from one there is.
fn crowd_name(src: &mut Src, near: &[Box<[u8]>]) -> Vec<u8> {
    if near.is_empty() || src.chance(1, 3) {
        let max = if src.chance(1, 8) { 40 } else { 20 };
        let n = src.range(1, max);
        return (0..n).map(|_| *src.pick(NAME_CHARS)).collect();
    }
    let mut v = src.pick(near).to_vec();
    match src.below(5) {
        0 => v.push(*src.pick(NAME_CHARS)),
        1 => v.insert(0, *src.pick(NAME_CHARS)),
        2 if v.len() > 1 => {
            v.pop();
        }
        3 => v.extend_from_slice(b"-PLUS"),
        _ => {
            let i = src.idx(v.len());
            v[i] = *src.pick(NAME_CHARS);
        }
    }
    v
}

fn c08_crowd(src: &mut Src) -> R {
    let n = match src.weighted(&[4, 4, 1]) {
        0 => src.range(1, 8),
        1 => src.range(2, 40),
        _ => src.range(33, MANY),
    };
    let mut names: Vec<Box<[u8]>> = vec![];
    while names.len() < n {
        let v = crowd_name(src, &names).into_boxed_slice();
        if !names.contains(&v) {
            names.push(v);
        } else {
            // (a replay may give the same choices for ever)
            let mut v = format!("X{}", names.len()).into_bytes();
            while names.iter().any(|x| x[..] == v[..]) {
                v.push(b'X');
            }
            names.push(v.into_boxed_slice());
        }
    }
    let base = src.below(1000) as usize;
    let spread = *src.pick(&[1usize, 3, 12, 1000]);
    let prios: Vec<usize> = (0..n).map(|_| if src.chance(1, 60) { *src.pick(&[0, usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) + base]) } else { base + src.idx(spread) }).collect();
    let sides: Vec<(bool, bool, bool)> = (0..n).map(|_| (!src.chance(1, 8), !src.chance(1, 8), src.flag())).collect();
    let hows: Vec<How> = (0..n).map(|_| How { bound: src.chance(1, 8), late: src.chance(1, 8) }).collect();
    let names: &'static mut [Box<[u8]>] = Box::leak(names.into_boxed_slice());
    let names: *mut [Box<[u8]>] = names;
    let shown: &'static [Box<[u8]>] = unsafe { &*names };
    let mechs: Vec<Mech> = (0..n)
        .map(|i| {
            let (select, client, server) = NTHS[i];
            let name: &'static Mechname = Mechname::parse(&shown[i]).expect("harness: name");
            Mech::build(name, prios[i], sides[i].0.then_some(client), sides[i].1.then_some(server), if sides[i].2 { Side::Client } else { Side::Server }, select, |_| true)
        })
        .collect();
    let crowd = Crowd { names, mechs: Box::into_raw(mechs.into_boxed_slice()), hows: Box::into_raw(hows.clone().into_boxed_slice()) };
    let table: &'static [Mech] = unsafe { &*crowd.mechs };
    TABLE.set((table, unsafe { &*crowd.hows }));

    // what is offered
    let mut offer: Vec<Vec<u8>> = vec![];
    let most = src.chance(1, 3);
    for x in shown {
        if if most { !src.chance(1, 10) } else { src.flag() } {
            offer.push(x.to_vec());
        }
    }
    let more = if src.chance(1, 200) {
        src.label("thousands offered");
        src.range(900, 5000)
    } else {
        src.size(12)
    };
    let few: Vec<Vec<u8>> = (0..more.min(24)).map(|_| if src.chance(1, 4) { src.pick(shown).to_vec() } else { crowd_name(src, shown) }).collect();
    let unknown: Vec<Vec<u8>> = few.iter().filter(|f| !shown.iter().any(|x| x[..] == f[..])).cloned().collect();
    if more <= few.len() {
        offer.extend(few);
    } else if !unknown.is_empty() {
        offer.extend((0..more).map(|i| unknown[i % unknown.len()].clone()));
    }
    src.shuffle(&mut offer);
    let cb = src.flag();
    let ranks: Option<HashMap<&'static str, Option<u64>>> = opt(src, |s| {
        let max = *s.pick(&[1000u64, 3]);
        table.iter().map(|m| (m.mechanism.as_str(), if s.chance(1, 6) { None } else { Some(s.below(max)) })).collect()
    });
    if n > 32 {
        src.label("many registered");
    }
    let usable: Vec<usize> = (0..n).filter(|i| sides[*i].0 && (cb || !hows[*i].bound) && offer.iter().any(|o| o[..] == shown[*i][..])).collect();
    let rank = |i: usize| ranks.as_ref().map_or(Some(prios[i] as u64), |r| r[table[i].mechanism.as_str()]);
    let best = usable.iter().filter_map(|i| rank(*i)).max();
    let winners: Vec<usize> = if best.is_none() { vec![] } else { usable.iter().copied().filter(|i| rank(*i) == best).collect() };
    if usable.len() > 1 {
        src.nontrivial();
    }
    src.note(|| format!("{n} registered: {:?}, {} offered: {:?}, channel bindings {cb}, ranks {ranks:?}", (0..n.min(50)).map(|i| (show(&shown[i]), prios[i], sides[i], hows[i])).collect::<Vec<_>>(), offer.len(), offer.iter().take(50).map(|o| show(o)).collect::<Vec<_>>()));

    let config = || {
        let (inner, _) = Cb::new(Script::default());
        SASLConfig::builder().with_registry(Registry::with_mechanisms(table)).with_callback(PreferCb { cb, ranks: ranks.clone(), seen: Arc::default(), inner }).expect("config")
    };
    let offered: Vec<&Mechname> = offer.iter().map(|o| Mechname::parse(o).expect("harness: offer")).collect();
    let c = SASLClient::with_cb(config(), ProtoCb::default());
    let r = if src.flag() { c.start_suggested_iter(offered.iter().copied()) } else { c.start_suggested(offered.iter()) };
    match r {
        Err(e) => {
            ensure!(matches!(e, SASLError::NoSharedMechanism), "start-error", "{e:?}");
            ensure!(winners.is_empty(), "not-started", "no mechanism was started although {:?} could be", winners.iter().map(|i| show(&shown[*i])).collect::<Vec<_>>());
        }
        Ok(s) => {
            let mut s = Sess::C(s);
            let name = s.mechname();
            let w = winners.iter().find(|i| shown[**i][..] == *name.as_bytes());
            let Some(w) = w else {
                return fail("not-preferred", format!("{name} was started, but {:?} is preferred", winners.iter().map(|i| show(&shown[*i])).collect::<Vec<_>>()));
            };
            ensure!(s.first() == sides[*w].2, "first", "{name}: are_we_first is {}", s.first());
            let o = s.step(None);
            ensure!(o.bytes == w.to_string().as_bytes(), "not-itself", "{name} was reported, but the mechanism started is number {}, not {w}", show(&o.bytes));
        }
    }

    // the server with the same registry
    let server = SASLServer::<TestVal, ProtoCb>::with_cb(config(), ProtoCb::default());
    let mut available: Vec<String> = server.get_available().into_iter().map(|m| m.mechanism.to_string()).collect();
    let mut want: Vec<String> = (0..n).filter(|i| sides[*i].1).map(|i| table[i].mechanism.to_string()).collect();
    available.sort();
    want.sort();
    ensure!(available == want, "available", "{available:?} are listed as available instead of {want:?}");
    let wanted = if src.flag() { src.pick(shown).to_vec() } else { crowd_name(src, shown) };
    let i = shown.iter().position(|x| x[..] == wanted[..]).filter(|i| sides[*i].1);
    match (server.start_suggested(Mechname::parse(&wanted).expect("harness: name")), i) {
        (Err(e), i) => {
            ensure!(matches!(e, SASLError::NoSharedMechanism), "start-error", "{e:?}");
            ensure!(i.is_none(), "not-started", "{} was not started although it is registered", show(&wanted));
        }
        (Ok(s), None) => return fail("unregistered", format!("{} was started for {}, which is not registered with a server side", Sess::S(s).mechname(), show(&wanted))),
        (Ok(s), Some(i)) => {
            let mut s = Sess::S(s);
            ensure!(s.mechname().as_bytes() == &wanted[..], "other", "{} was started for {}", s.mechname(), show(&wanted));
            ensure!(s.first() != sides[i].2, "first", "{}: are_we_first is {}", show(&wanted), s.first());
            let o = s.step(None);
            ensure!(o.bytes == i.to_string().as_bytes(), "not-itself", "{} was requested, but the mechanism started is number {}, not {i}", show(&wanted), show(&o.bytes));
        }
    }
    Ok(())
}

/* ------------------------------------------------------------------ C14 */

fn valid(b: u8) -> bool {
    b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'-' || b == b'_'
}
fn check_name(src: &mut Src, s: &[u8]) -> R {
    if s.len() > 1 {
        src.nontrivial();
    }
    if s.len() > 20 {
        src.label("long");
    }
    let bad = s.iter().position(|b| !valid(*b));
    let as_text = std::str::from_utf8(s).ok();
    if as_text.is_none() {
        src.label("not UTF-8");
    }
    src.label(if s.is_empty() {
        "empty"
    } else if bad.is_none() {
        "valid"
    } else {
        "invalid"
    });
    src.note(|| show(s));
    let mut all = vec![("parse", Mechname::parse(s)), ("try_from bytes", <&Mechname>::try_from(s))];
    if let Some(t) = as_text {
        all.push(("try_from text", <&Mechname>::try_from(t)));
    }
    for (how, r) in all {
        match (r, bad) {
            (Ok(n), None) if !s.is_empty() => {
                let t = as_text.expect("harness: valid names are text");
                ensure!(n.as_bytes() == s && n.as_str() == t && n.to_string() == t && &**n == t, "name-changed", "{how}: {} reads back as {} / {} / {n}", show(s), show(n.as_bytes()), n.as_str());
                ensure!(n.len() == s.len(), "name-changed", "{how}: {} has length {}", show(s), n.len());
                let same = *n == *s && *s == *n && *n == *t && *t == *n && *n == *Mechname::parse(s).expect("parsed before");
                ensure!(same, "name-unequal", "{how}: {} does not compare equal to itself", show(s));
                // and to nothing else
                let mut other = s.to_vec();
                match src.below(3) {
                    0 => {
                        other.pop();
                    }
                    1 => other.push(b'A'),
                    _ => {
                        let i = src.idx(other.len());
                        let step = 1 + src.below(255) as u8;
                        other[i] = other[i].wrapping_add(step);
                    }
                }
                let mut equal = *n == other[..] || other[..] == *n;
                if let Ok(t) = std::str::from_utf8(&other) {
                    equal |= *n == *t || *t == *n;
                }
                if let Ok(o) = Mechname::parse(&other) {
                    equal |= *n == *o || *o == *n;
                }
                ensure!(!equal, "name-equal", "{how}: {} compares equal to {}", show(s), show(&other));
            }
            (Err(MechanismNameError::TooShort), _) if s.is_empty() => {}
            (Err(MechanismNameError::InvalidChar { index, value }), Some(i)) => {
                ensure!(index == i && value == s[i], "name-position", "{how}: {}: the error points at {index} ({value:#x}) instead of {i} ({:#x})", show(s), s[i]);
            }
            (Ok(_), _) => return fail("name-accepted", format!("{how}: {} was accepted", show(s))),
            (Err(e), _) => return fail("name-refused", format!("{how}: {} was refused: {e}", show(s))),
        }
    }
    Ok(())
}
fn c14_name(src: &mut Src) -> R {
    let n = match src.weighted(&[5, 3, 1]) {
        0 => src.size(8),
        1 => src.size(30),
        _ => src.size(400),
    };
    let edge = b"@[`az{/:-_.,^]AZ09 \0\x7f\x80\xff\xc3\xa4";
    let style = src.below(4);
    let mut s: Vec<u8> = vec![];
    for _ in 0..n {
        s.push(match style {
            0 | 1 => *src.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"),
            2 => *src.pick(edge),
            _ => src.below(256) as u8,
        });
    }
    if style == 1 && n > 0 {
        for _ in 0..src.range(1, 3) {
            let i = src.idx(n);
            s[i] = if src.flag() { *src.pick(edge) } else { src.below(256) as u8 };
        }
    }
    check_name(src, &s)
}
fn c14_position(src: &mut Src) -> R {
    let n = src.range(1, 24);
    let mut s: Vec<u8> = (0..n).map(|_| *src.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_")).collect();
    let i = src.idx(n);
    for b in 0..=255u8 {
        s[i] = b;
        check_name(src, &s)?;
    }
    Ok(())
}

//! C05, C09, C10, C11, C13, C19, C21: properties of the step interface over whole exchanges.
use super::creds::completed;
use super::simple::{judge_oauth, ref_plain, ref_xoauth2, Judged};
use crate::alloc_guard;
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::scramref::unescape;
use rsasl::callback::{Context, Request, SessionCallback, SessionData};
use rsasl::mechanisms::oauthbearer::properties::{OAuthBearerError, OAuthBearerValidate};
use rsasl::mechanisms::xoauth2::properties::XOAuth2Validate;
use rsasl::prelude::*;
use rsasl::property::OAuthBearerToken;
use rsasl::validate::{Validate, ValidationError};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "A case runs an exchange of any mechanism and lets one side receive, at generated points, damaged messages (structure-aware mutations of the peer's real message, token soup, random bytes, up to 100 kB, nothing) through plain or base64 stepping, until it fails or finishes; in the suite long, a real message with a run of repeated pieces of up to 2 MB in it, whose processor time is measured. Non-trivial: at least one message differing from the peer's was given to the side under test.",
            assumptions: &["CPU time bought with a huge iteration count in a well-formed SCRAM message is outside of this property; such messages are given only to clients with cached keys"],
            suites: vec![suite("damage", c05_damage, 1_500_000, 30_000_000), suite("long", c05_long, 3_000, 60_000), suite("gssapi", super::gss::c05_gssapi, 200_000, 4_000_000)],
            expect_labels: &["mutation", "soup", "large", "none", "bad base64", "client", "server", "still accepted", "long accepted", "long refused"],
        },
        Prop {
            id: "C09",
            rule: "A case runs an exchange of any mechanism, successful or refused by the server, comparing every result with the table of the mechanism's messages, with calls without input inserted where a message is required. Non-trivial: a call without input was inserted, or the exchange has more than two messages.",
            assumptions: &["nothing is judged after a session finished or failed, which the documentation leaves undefined"],
            suites: vec![suite("table", c09_table, 1_200_000, 10_000_000), suite("gssapi", super::gss::c09_gssapi, 300_000, 3_000_000)],
            expect_labels: &["no input", "refused", "LOGIN", "SCRAM"],
        },
        Prop {
            id: "C10",
            rule: "A case runs an exchange of any mechanism in which one step writes to a writer with a generated schedule of short writes, interruptions, and possibly a persistent failure (error or zero-length writes) after a generated number of bytes; plain or base64. Non-trivial: the writer did not take the message in one call.",
            assumptions: &["interrupted writes are retried, as the write_all of the standard library does"],
            suites: vec![suite("writer", c10_writer, 2_000_000, 10_000_000), suite("gssapi", super::gss::c10_gssapi, 600_000, 3_000_000)],
            expect_labels: &["short", "interrupted", "error", "zero", "full", "base64", "plain", "SCRAM", "vectored"],
        },
        Prop {
            id: "C11",
            rule: "Suite twin runs two identical sessions of a mechanism without randomness side by side, one stepped plain and one stepped with base64, over a generated history of regular, damaged and absent messages; suite exchange runs whole exchanges of all mechanisms in base64; suite invalid gives input that is not base64. Non-trivial: a message went through base64 in either direction.",
            assumptions: &["whether non-zero trailing bits in the last character are refused is not judged"],
            suites: vec![suite("twin", c11_twin, 1_200_000, 6_000_000), suite("exchange", c11_exchange, 800_000, 4_000_000), suite("invalid", c11_invalid, 800_000, 4_000_000)],
            expect_labels: &["padding", "empty message", "SCRAM", "bad character", "bad padding", "bad length"],
        },
        Prop {
            id: "C13",
            rule: "A case runs an exchange of any mechanism with a generated validation callback: any sequence of values set for the right and for another validation type, with and without closures, or an error. Non-trivial: the callback did more than set one value.",
            assumptions: &[],
            suites: vec![suite("script", c13_script, 1_600_000, 8_000_000), suite("types", c13_types, 200_000, 1_000_000), suite("gssapi", super::gss::c13_gssapi, 600_000, 3_000_000)],
            expect_labels: &["error", "error from closure", "nothing", "two values", "other type", "server error message"],
        },
        Prop {
            id: "C19",
            rule: "A case runs an exchange of any mechanism and asks both sessions, between any two steps, whether they have a security layer and to encode and decode generated data; the suite custom does the same with a mechanism that installs a layer. Non-trivial: data was given at a point after the first step.",
            assumptions: &["what passes through the layers of GSSAPI is covered by C18; here it must have none before it finished, and none afterwards unless the client selected one"],
            suites: vec![suite("none", c19_none, 1_200_000, 6_000_000), suite("custom", super::custom::c19_custom, 400_000, 2_000_000), suite("gssapi", super::gss::c19_gssapi, 400_000, 2_000_000)],
            expect_labels: &["before", "between", "after", "layer", "layer error", "GSSAPI before", "finished without a layer", "agreed on a layer"],
        },
        Prop {
            id: "C21",
            rule: "A case starts 2 to 12 exchanges with different users, mechanisms and outcomes from one shared server configuration and shared or separate client configurations, steps them in a generated interleaving (suite interleaved), also from within the callbacks of each other (suite nested), or on several threads (suite threads), or 66 to 1030 of them that are all begun before any ends, or that run while a few wait (suite crowd), and compares every outcome with the one the exchange has alone. Non-trivial: at least two exchanges were in progress at the same time.",
            assumptions: &["thread schedules are those of the operating system"],
            suites: vec![suite("interleaved", c21_interleaved, 240_000, 1_200_000), suite("nested", c21_nested, 60_000, 300_000), suite("threads", c21_threads, 6_000, 30_000), suite("crowd", c21_crowd, 400, 2_000)],
            expect_labels: &["inside a callback", "one waits", "all wait", "related to another", "same mechanism", "shared client configuration", "refused", "dropped"],
        },
    ]
}

fn family(mech: &str) -> &'static str {
    if mech.starts_with("SCRAM") {
        "SCRAM"
    } else {
        PAIRABLE.iter().find(|m| **m == mech).copied().unwrap_or("?")
    }
}

/* ------------------------------------------------------------------ C05 */

/// A number after "i=" that a client would spend minutes on
pub fn expensive(m: &[u8]) -> bool {
    let mut i = 0;
    while i + 2 < m.len() {
        if &m[i..i + 2] == b"i=" {
            let t: String = m[i + 2..].iter().copied().skip_while(|c| *c == b'+').take_while(u8::is_ascii_digit).map(char::from).collect();
            if t.parse::<u64>().map_or(false, |n| n > 3000 && n <= u64::from(u32::MAX)) {
                return true;
            }
        }
        i += 1;
    }
    false
}

/// Whether a message can possibly be one the given side understands at this point (`nth` message received).
fn plausible(mech: &str, server: bool, nth: usize, m: &[u8]) -> bool {
    let text = std::str::from_utf8(m).is_ok();
    match (mech, server, nth) {
        ("PLAIN", true, 0) => ref_plain(m).is_some(),
        ("LOGIN", true, 0) | ("EXTERNAL" | "ANONYMOUS", true, _) | ("XOAUTH2", false, _) => text,
        ("XOAUTH2", true, 0) => ref_xoauth2(m).is_some(),
        ("OAUTHBEARER", true, 0) => !matches!(judge_oauth(m), Judged::MustNot(_)),
        ("OAUTHBEARER", false, _) => m.is_empty() || serde_json::from_str::<serde_json::Value>(&String::from_utf8_lossy(m)).is_ok(),
        (s, true, 0) if s.starts_with("SCRAM") => {
            let p: Vec<&[u8]> = m.split(|b| *b == b',').collect();
            p.len() >= 4
                && matches!(p[0], b"n" | b"y") | p[0].starts_with(b"p=")
                && (p[1].is_empty() || p[1].strip_prefix(b"a=").map_or(false, |a| unescape(a).is_some()))
                && p[2].strip_prefix(b"n=").map_or(false, |a| unescape(a).is_some())
                && p[3].starts_with(b"r=")
        }
        (s, true, _) if s.starts_with("SCRAM") => {
            let p: Vec<&[u8]> = m.split(|b| *b == b',').collect();
            p.len() >= 3 && p[0].starts_with(b"c=") && p[1].starts_with(b"r=") && p.last().unwrap().starts_with(b"p=")
        }
        (s, false, 0) if s.starts_with("SCRAM") => {
            let p: Vec<&[u8]> = m.split(|b| *b == b',').collect();
            p.len() >= 3 && p[0].starts_with(b"r=") && p[1].starts_with(b"s=") && p[2].starts_with(b"i=")
        }
        (s, false, _) if s.starts_with("SCRAM") => m.starts_with(b"v="),
        _ => true,
    }
}

const UNITS: [&str; 25] = [
    "a", ",", "=", "\x01", "\0", "\"", "{", "A", "[", "\\", "\x01k=v", "\x01=", ",a=b", ",a=", "=2C", "=3D", "{\"a\":", "ä", "m=,", "1", "\"a\":1,", "\\u0041", " ", "\u{ad}", "Å",
];

/// The processor time of this thread in milliseconds.
fn cpu_ms() -> u64 {
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    }
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    if unsafe { clock_gettime(3, &mut t) } != 0 {
        return 0;
    }
    t.sec as u64 * 1000 + t.nsec as u64 / 1_000_000
}

/// Messages of up to 2 MB take time and memory in proportion to their length.
fn c05_long(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let accept = src.flag();
    let mut p = pairing(src, mech, accept);
    p.client.take_errors = src.flag();
    let target_server = src.flag();
    if mech.starts_with("SCRAM") && !target_server {
        let u = p.server.users.values().next().unwrap();
        let alg = alg_of(mech);
        p.client.cached = Some(alg.keys(&alg.hi(p.client.password.as_ref().unwrap(), &u.salt, u.iterations)));
    }
    let (mut c, _, mut s, _) = p.start();
    let at = src.idx(2);
    let mut nth = 0;
    let mut client_turn = c.first();
    let mut msg: Option<Vec<u8>> = None;
    for _ in 0..8 {
        let o = if client_turn != target_server {
            let sess = if target_server { &mut s } else { &mut c };
            if msg.is_some() && nth >= at {
                let mut m = msg.clone().unwrap_or_default();
                let unit = *src.pick(&UNITS);
                let n = src.range(300_000, 2_000_000) as usize;
                // at a field's start, its end, or anywhere
                let edge = |b: u8| matches!(b, 0 | 1 | b',' | b'=' | b'"');
                let spots: Vec<usize> = (0..=m.len()).filter(|i| *i == 0 || *i == m.len() || edge(m[*i]) || edge(m[*i - 1])).collect();
                let i = if src.chance(3, 4) { *src.pick(&spots) } else { src.idx(m.len() + 1) };
                m.splice(i..i, unit.bytes().cycle().take(n));
                let n = m.len();
                src.nontrivial();
                src.note(|| format!("{mech} {}: {n} bytes, with {unit:?} repeated at {i} of {}", if target_server { "server" } else { "client" }, show(msg.as_deref().unwrap_or_default())));
                let live = alloc_guard::mark();
                let t0 = cpu_ms();
                let o = sess.step(Some(&m));
                let ms = cpu_ms() - t0;
                src.label(if o.ok() { "long accepted" } else { "long refused" });
                let peak = alloc_guard::peak() - live;
                let per_byte = if mech == "OAUTHBEARER" && target_server { 240 } else { 60 };
                ensure!(peak < 200_000 + per_byte * n as i64, "memory", "{mech}: {peak} bytes of memory for an input of {n} bytes");
                ensure!(o.bytes.len() < 4096 + 8 * n, "output", "{mech}: {} bytes of output for an input of {n} bytes", o.bytes.len());
                ensure!(ms < 20_000, "time", "{mech}: {ms} ms of processor time for an input of {n} bytes");
                ensure!(!o.ok() || plausible(mech, target_server, nth, &m), "accepts-garbage", "{mech}: a long message was accepted: {}", o.desc());
                return Ok(());
            }
            nth += usize::from(msg.is_some());
            sess.step(msg.as_deref())
        } else if client_turn {
            c.step(msg.as_deref())
        } else {
            s.step(msg.as_deref())
        };
        if !o.ok() {
            break;
        }
        msg = Some(o.bytes);
        client_turn = !client_turn;
    }
    Ok(())
}

fn c05_damage(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let accept = src.flag();
    let mut p = pairing(src, mech, accept);
    let target_server = src.flag();
    src.label(if target_server { "server" } else { "client" });
    let cached = mech.starts_with("SCRAM") && !target_server && src.flag();
    if cached {
        let u = p.server.users.values().next().unwrap();
        let alg = alg_of(mech);
        p.client.cached = Some(alg.keys(&alg.hi(p.client.password.as_ref().unwrap(), &u.salt, u.iterations)));
    }
    if src.chance(1, 8) {
        p.client.take_errors = false;
    }
    if src.chance(1, 12) {
        p.server.xval = None;
        p.server.oval = None;
    }
    if mech.starts_with("SCRAM") && target_server && src.chance(1, 4) {
        // the name a mutation is likely to produce is known too
        for n in ["", "a", "=", ","] {
            let u = p.server.users.values().next().unwrap().clone();
            p.server.users.insert(n.to_string(), u);
        }
    }
    let base64 = src.chance(1, 4);
    src.note(|| format!("{mech}, {} under test{}", if target_server { "server" } else { "client" }, if base64 { ", base64" } else { "" }));
    let (mut c, _, mut s, log) = p.start();
    let mut client_turn = c.first();
    let mut msg: Option<Vec<u8>> = None;
    let mut history: Vec<Vec<u8>> = vec![];
    let mut received = 0usize;
    // what is given to the side that speaks first is not a message of its peer
    let mut start = target_server != client_turn;
    let mut size = 0;
    for _ in 0..8 {
        let under_test = client_turn != target_server;
        if !under_test {
            let o = if client_turn { c.step(msg.as_deref()) } else { s.step(msg.as_deref()) };
            // the honest peer may have stopped; the side under test is given something all the same
            history.push(o.bytes.clone());
            msg = Some(o.bytes);
            client_turn = !client_turn;
            continue;
        }
        let mut input = msg.clone();
        if src.chance(1, 2) {
            let others: Vec<&[u8]> = history.iter().map(Vec::as_slice).collect();
            input = match src.weighted(&[10, 3, 1, 2, 2]) {
                0 => {
                    src.label("mutation");
                    let base = msg.clone().unwrap_or_default();
                    Some(mutate(src, &base, &others))
                }
                1 => {
                    src.label("soup");
                    Some(soup(src))
                }
                2 => {
                    src.label("large");
                    let mut m = msg.clone().unwrap_or_default();
                    let at = src.idx(m.len() + 1);
                    let n = src.range(1000, 100_000);
                    let unit = *src.pick(&UNITS);
                    m.splice(at..at, unit.bytes().cycle().take(n));
                    Some(m)
                }
                3 => {
                    src.label("none");
                    None
                }
                _ => Some(history.first().cloned().unwrap_or_default()),
            };
        }
        if input.as_deref().map_or(false, |m| !cached && !target_server && mech.starts_with("SCRAM") && expensive(m)) {
            return Ok(());
        }
        let changed = input != msg;
        if changed {
            src.nontrivial();
        }
        let calls = log.lock().unwrap().calls;
        let sess = if target_server { &mut s } else { &mut c };
        let mut garbage64 = None;
        let live = alloc_guard::mark();
        let o = if base64 {
            let mut enc = input.as_ref().map(|i| b64(i).into_bytes());
            if let Some(e) = enc.as_mut() {
                if src.chance(1, 6) {
                    src.label("bad base64");
                    *e = mutate(src, e, &[]);
                    garbage64 = Some(e.iter().any(|c| !c.is_ascii_alphanumeric() && !matches!(c, b'+' | b'/' | b'=')));
                    if let Some(d) = unb64(e) {
                        if !cached && expensive(&d) {
                            return Ok(());
                        }
                    } else if !cached && !target_server && mech.starts_with("SCRAM") && garbage64 == Some(false) {
                        return Ok(());
                    }
                }
            }
            size += enc.as_ref().map_or(0, Vec::len);
            sess.step64(enc.as_deref())
        } else {
            sess.step(input.as_deref())
        };
        // what was given before may be remembered
        size += input.as_ref().map_or(0, Vec::len);
        let peak = alloc_guard::peak() - live;
        src.note(|| format!("input {} -> {}", input.as_ref().map_or("none".into(), |i| show(i)), o.desc()));
        // two bytes can be a whole field, which is kept twice: by the code under test and by the callback
        let per_byte = if mech == "OAUTHBEARER" && target_server { 240 } else { 60 };
        let allowed = 200_000 + per_byte * size as i64;
        // the side under test may also hold what its own user supplied
        let fine = peak < allowed || peak < allowed + 20 * format!("{:?}{:?}", p.client, p.server).len() as i64;
        ensure!(fine, "memory", "{mech}: {peak} bytes of memory for an input of {size} bytes");
        ensure!(o.bytes.len() < 4096 + 8 * size, "output", "{mech}: {} bytes of output for an input of {size} bytes", o.bytes.len());
        if garbage64 == Some(true) {
            ensure!(o.res.is_err(), "bad-base64", "{mech}: input that is not base64 was accepted: {}", o.desc());
            ensure!(!target_server || log.lock().unwrap().calls == calls, "bad-base64", "{mech}: the callback was asked because of input that is not base64");
        }
        if garbage64.is_none() && !start {
            if let Some(m) = &input {
                if o.ok() && !plausible(mech, target_server, received, m) {
                    return fail("accepts-garbage", format!("{mech} {}: message {} (the {}th from the peer) was accepted: {}", if target_server { "server" } else { "client" }, show(m), received + 1, o.desc()));
                }
            }
        }
        if o.ok() && changed {
            src.label("still accepted");
        }
        match &o.res {
            Ok(State::Running) => {
                received += usize::from(!start);
                start = false;
                let bytes = if base64 { unb64(&o.bytes).unwrap_or_default() } else { o.bytes.clone() };
                history.push(bytes.clone());
                msg = Some(bytes);
                client_turn = !client_turn;
            }
            // nothing has happened: the step is repeated
            Err(SessionError::InputDataRequired) if input.is_none() => {}
            _ => break,
        }
    }
    Ok(())
}

/* ------------------------------------------------------------------ C09 */

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Want {
    /// running, message written
    Run,
    /// finished with a message
    End,
    /// finished without a message
    Quiet,
    /// the server's refusal makes the client fail
    Broken,
}
use Want::*;
/// (results of the client's steps, results of the server's steps)
fn table(mech: &str, accept: bool) -> (&'static [Want], &'static [Want]) {
    match (mech, accept) {
        ("PLAIN" | "EXTERNAL" | "ANONYMOUS", _) => (&[End], &[Quiet]),
        ("LOGIN", _) => (&[Run, End], &[Run, Run, Quiet]),
        ("XOAUTH2" | "OAUTHBEARER", true) => (&[Run, Quiet], &[Quiet]),
        ("XOAUTH2" | "OAUTHBEARER", false) => (&[Run, End], &[Run, Quiet]),
        (_, true) => (&[Run, Run, Quiet], &[Run, End]),
        (_, false) => (&[Run, Run, Broken], &[Run, End]),
    }
}
/// Whether a step without input must be refused (nth step of that side).
fn needs_input(mech: &str, server: bool, nth: usize) -> bool {
    match (mech, server) {
        ("PLAIN" | "XOAUTH2" | "OAUTHBEARER", true) => nth == 0,
        ("LOGIN", true) => nth > 0,
        (m, true) => m.starts_with("SCRAM"),
        (m, false) => m.starts_with("SCRAM") && nth > 0,
    }
}

fn c09_table(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let accept = src.chance(2, 3);
    let p = pairing(src, mech, accept);
    src.label(family(mech));
    if !p.accept {
        src.label("refused");
    }
    let (ct, st) = table(mech, p.accept);
    let (mut c, clog, mut s, slog) = p.start();
    ensure!(c.first() == (mech != "LOGIN") && s.first() == (mech == "LOGIN"), "first", "{mech}: client first {}, server first {}", c.first(), s.first());
    ensure!(c.mechname() == mech && s.mechname() == mech, "name", "{mech}: sessions are called {} and {}", c.mechname(), s.mechname());
    if ct.len() + st.len() > 2 {
        src.nontrivial();
    }
    let density = src.below(3);
    let mut client_turn = c.first();
    let (mut ci, mut si) = (0, 0);
    let mut input: Option<Vec<u8>> = None;
    let mut trace = vec![];
    loop {
        let (sess, i, tab, log) = if client_turn { (&mut c, &mut ci, ct, &clog) } else { (&mut s, &mut si, st, &slog) };
        if *i >= tab.len() {
            ensure!(input.is_none(), "table", "{mech}: a message is left for the {}: {trace:?}", if client_turn { "client" } else { "server" });
            break;
        }
        if needs_input(mech, !client_turn, *i) && src.chance(density, 3) {
            for _ in 0..1 + src.idx(2) {
                src.label("no input");
                src.nontrivial();
                let before = log.lock().unwrap().events.len();
                let o = sess.step(None);
                ensure!(kind(&o.res) == "input" && o.bytes.is_empty(), "no-input", "{mech}: a step without input where a message is required: {}; so far {trace:?}", o.desc());
                ensure!(log.lock().unwrap().events.len() == before, "no-input", "{mech}: a step without input called the callback");
                ensure!(sess.validation().is_none(), "no-input", "{mech}: a step without input left a validation value");
            }
        }
        if needs_input(mech, !client_turn, *i) && input.is_none() {
            return harness_bug(format!("{mech}: no message to deliver: {trace:?}"));
        }
        let o = sess.step(input.as_deref());
        trace.push(format!("{} {}", if client_turn { "C" } else { "S" }, o.desc()));
        let ok = match tab[*i] {
            Run => o.running(),
            End => o.fin(true),
            Quiet => o.fin(false) && o.bytes.is_empty(),
            Broken => o.res.is_err() && o.bytes.is_empty() && kind(&o.res) != "input",
        };
        ensure!(ok, "table", "{mech} (accept {}): step {} of the {} gave {}, expected {:?}; {trace:?}", p.accept, *i, if client_turn { "client" } else { "server" }, o.desc(), tab[*i]);
        // the messages of all mechanisms here are not empty, with these exceptions
        let may_be_empty = matches!(mech, "EXTERNAL" | "ANONYMOUS") || (matches!(mech, "XOAUTH2" | "OAUTHBEARER") && tab[*i] == End);
        ensure!(may_be_empty || !matches!(tab[*i], Run | End) || !o.bytes.is_empty(), "table", "{mech}: no message was written: {trace:?}");
        *i += 1;
        input = if matches!(tab[*i - 1], Run | End) { Some(o.bytes) } else { None };
        client_turn = !client_turn;
        if ci >= ct.len() && si >= st.len() {
            break;
        }
    }
    ensure!(ci == ct.len() && si == st.len(), "table", "{mech}: the exchange ended early: {trace:?}");
    src.note(|| format!("{mech}: {trace:?}"));
    let v = validations(&slog);
    let expect = usize::from(p.accept || !mech.starts_with("SCRAM"));
    ensure!(v.len() == expect && v.iter().all(|v| p.shown(v)), "table-validation", "{mech}: validations {v:?}");
    Ok(())
}

/* ------------------------------------------------------------------ C10 */

#[derive(Clone, Debug)]
pub(super) enum WAct {
    Short(usize),
    Interrupted,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub(super) enum WEnd {
    Full,
    Zero,
    Err(std::io::ErrorKind),
}
pub(super) struct BadWriter {
    pub acts: Vec<WAct>,
    pub next: usize,
    /// most that is taken in one call
    pub piece: usize,
    /// bytes taken before the end
    pub room: usize,
    pub end: WEnd,
    pub vectored: bool,
    pub got: Vec<u8>,
    pub calls: usize,
    /// the end is a single failure, everything after it is taken
    pub once: bool,
    /// the writer refused data
    pub hit: bool,
    pub after_hit: usize,
}
impl BadWriter {
    fn take(&mut self, bufs: &[&[u8]]) -> std::io::Result<usize> {
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        if total == 0 {
            return Ok(0);
        }
        self.calls += 1;
        if self.hit {
            self.after_hit += 1;
            if self.after_hit > 10_000 {
                panic!("rsasl: the writer is asked over and over again after it refused data");
            }
        }
        if self.got.len() > 4 << 20 {
            panic!("rsasl: the writer is given data over and over again");
        }
        let mut n = total.min(self.piece);
        if self.next < self.acts.len() {
            let a = self.acts[self.next].clone();
            self.next += 1;
            match a {
                WAct::Short(k) => n = n.min(k),
                WAct::Interrupted => return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)),
            }
        }
        n = n.min(self.room);
        if n == 0 {
            self.hit = true;
            if self.once {
                self.room = usize::MAX;
            }
            return match self.end {
                WEnd::Err(k) => Err(std::io::Error::new(k, "scripted writer failure")),
                _ => Ok(0),
            };
        }
        self.room -= n;
        let mut left = n;
        for b in bufs {
            let k = left.min(b.len());
            self.got.extend_from_slice(&b[..k]);
            left -= k;
        }
        Ok(n)
    }
}
impl std::io::Write for BadWriter {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.take(&[buf])
    }
    fn write_vectored(&mut self, bufs: &[std::io::IoSlice<'_>]) -> std::io::Result<usize> {
        if self.vectored {
            let v: Vec<&[u8]> = bufs.iter().map(|b| &b[..]).collect();
            self.take(&v)
        } else {
            // what the standard library does for writers without vectored writes
            let b = bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &b[..]);
            self.take(&[b])
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
pub(super) fn bad_writer(src: &mut Src) -> BadWriter {
    let n = src.size(12);
    let acts = (0..n)
        .map(|_| match src.weighted(&[3, 1]) {
            0 if src.chance(1, 8) => WAct::Short(crate::common::boundary(src)),
            0 => WAct::Short(1 + src.size(20)),
            _ => WAct::Interrupted,
        })
        .collect();
    let (room, end) = match src.weighted(&[3, 2, 3]) {
        0 => (usize::MAX, WEnd::Full),
        1 if src.chance(1, 8) => (crate::common::boundary(src), WEnd::Zero),
        1 => (src.size(120), WEnd::Zero),
        _ => {
            use std::io::ErrorKind as K;
            let room = if src.chance(1, 8) { crate::common::boundary(src) } else { src.size(120) };
            (room, WEnd::Err(*src.pick(&[K::BrokenPipe, K::WouldBlock, K::Other, K::WriteZero, K::TimedOut, K::UnexpectedEof])))
        }
    };
    let piece = match src.below(8) {
        0 => 1 + src.idx(16),
        1 => crate::common::boundary(src),
        _ => usize::MAX,
    };
    BadWriter { acts, next: 0, piece, room, end, vectored: src.flag(), got: vec![], calls: 0, once: src.flag(), hit: false, after_hit: 0 }
}

fn c10_writer(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let accept = src.chance(2, 3);
    let mut p = pairing(src, mech, accept);
    // longer values, so that there is something to split
    let filler = if src.chance(1, 8) { crate::common::boundary(src) } else { src.size(60) };
    let pad = "y".repeat(filler);
    for v in [&mut p.client.authzid, &mut p.authzid, &mut p.client.token, &mut p.token, &mut p.client.anon].into_iter().flatten() {
        v.push_str(&pad);
    }
    if mech == "ANONYMOUS" && p.client.anon.is_some() {
        p.anon = p.client.anon.clone();
    }
    if let Some(Err((e, _, _))) = &mut p.server.oval {
        e.push_str(&pad);
    }
    if let Some(Err(e)) = &mut p.server.xval {
        e.push_str(&pad);
    }
    src.label(if mech.starts_with("SCRAM") { "SCRAM" } else { "simple" });
    let (ct, st) = table(mech, p.accept);
    // which step of the exchange gets the writer
    let victim = src.idx(ct.len() + st.len());
    let base64 = src.chance(1, 3);
    src.label(if base64 { "base64" } else { "plain" });
    let mut w = bad_writer(src);
    let (mut c, _, mut s, slog) = p.start();
    let mut client_turn = c.first();
    let mut input: Option<Vec<u8>> = None;
    let mut d = Driven { client: vec![], server: vec![], client_done: false, server_done: false, stuck: false };
    let mut turn = 0;
    loop {
        if if client_turn { d.client_done } else { d.server_done } {
            d.stuck = input.is_some();
            break;
        }
        let sess = if client_turn { &mut c } else { &mut s };
        let o = if turn == victim {
            let enc = input.as_ref().map(|i| b64(i).into_bytes());
            let res = if base64 { sess.step64_w(enc.as_deref(), &mut w) } else { sess.step_w(input.as_deref(), &mut w) };
            let got = w.got.clone();
            src.note(|| format!("{mech}: step {turn} with {:?} then {:?} after {} bytes: {} writer got {}", w.acts, w.end, w.got.len(), rdesc(&res), show(&got)));
            if w.calls > 1 || w.hit {
                src.nontrivial();
                src.label(if w.vectored { "vectored" } else { "unvectored" });
            }
            if w.acts[..w.next].iter().any(|a| matches!(a, WAct::Interrupted)) {
                src.label("interrupted");
            }
            if w.acts[..w.next].iter().any(|a| matches!(a, WAct::Short(_))) {
                src.label("short");
            }
            if w.hit {
                src.label(if w.end == WEnd::Zero { "zero" } else { "error" });
                src.label(if w.once { "single failure" } else { "persistent failure" });
            }
            // a step that tries again after a single failure and gets everything through is fine
            if w.hit && !(w.once && res.is_ok()) {
                ensure!(
                    res.is_err(),
                    "lost-message",
                    "{mech}: step {turn} ({}) returned {} although the writer refused data ({:?}); it got {}",
                    if base64 { "base64" } else { "plain" },
                    rdesc(&res),
                    w.end,
                    show(&got)
                );
                ensure!(ekind(res.as_ref().unwrap_err()) == "io" || (mech == "OAUTHBEARER" && !client_turn), "lost-message", "{mech}: the writer's failure is reported as {}", rdesc(&res));
                return Ok(());
            }
            src.label("full");
            let bytes = if base64 {
                match unb64(&got) {
                    Some(b) => b,
                    None => return fail("lost-message", format!("{mech}: step {turn}: the writer got {} which is not base64; {}", show(&got), rdesc(&res))),
                }
            } else {
                got
            };
            Out { res, bytes }
        } else {
            sess.step(input.as_deref())
        };
        turn += 1;
        input = match &o.res {
            Ok(State::Running) | Ok(State::Finished(MessageSent::Yes)) => Some(o.bytes.clone()),
            _ => None,
        };
        let (err, fin) = (o.res.is_err(), o.finished());
        if client_turn {
            d.client_done |= fin;
            d.client.push(o);
        } else {
            d.server_done |= fin;
            d.server.push(o);
        }
        if err || (d.client_done && d.server_done && input.is_none()) || turn > 20 {
            break;
        }
        client_turn = !client_turn;
    }
    // the writer took everything in the end, so the exchange must be the ordinary one
    let v = validations(&slog);
    completed(&p, &d, &v, &mut s).map_err(|mut f| {
        f.sig = "changed-message".into();
        f.msg = format!("after a step through a writer with {:?} (everything was taken): {}", w.acts, f.msg);
        f
    })
}

/* ------------------------------------------------------------------ C11 */

const TWINS: [&str; 6] = ["PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER"];

fn c11_twin(src: &mut Src) -> R {
    let mech = *src.pick(&TWINS);
    let accept = src.flag();
    let mut p = pairing(src, mech, accept);
    let server = src.flag();
    if src.chance(1, 5) {
        p.client.password = None;
        p.server.oval = None;
        p.server.xval = None;
    }
    if src.chance(1, 5) {
        let e = CbErr::any(src);
        p.client.fail_at = Some((src.idx(3), e));
        p.server.fail_at = p.client.fail_at;
    }
    if src.chance(1, 6) {
        p.server.val = Val::Fail(val_text(src));
    }
    let mk = || if server { server_of(mech, p.server.clone()) } else { client_of(mech, p.client.clone()) };
    let (mut a, alog) = mk();
    let (mut b, blog) = mk();
    // what the honest peer says
    let (mut pc, _, mut ps, _) = p.start();
    let honest = drive(&mut pc, &mut ps);
    let peer = if server { &honest.client } else { &honest.server };
    let mut input: Option<Vec<u8>> = if a.first() { None } else { peer.first().map(|o| o.bytes.clone()) };
    let mut k = usize::from(!a.first());
    for step in 0..4 {
        if src.chance(1, 6) {
            input = match src.below(3) {
                0 => None,
                1 => Some(soup(src)),
                _ => {
                    let m = input.clone().unwrap_or_default();
                    Some(mutate(src, &m, &[]))
                }
            };
        }
        let enc = input.as_ref().map(|i| b64(i));
        let x = a.step(input.as_deref());
        let y = b.step64(enc.as_ref().map(String::as_bytes));
        src.note(|| format!("{mech} {}: {:?} -> {} / {enc:?} -> {}", if server { "server" } else { "client" }, input.as_ref().map(|i| show(i)), x.desc(), y.desc()));
        ensure!(kind(&x.res) == kind(&y.res) && format!("{:?}", x.res) == format!("{:?}", y.res), "step64-result", "{mech}: step gave {}, step64 gave {}", x.desc(), y.desc());
        if x.ok() {
            if !x.bytes.is_empty() {
                src.nontrivial();
            }
            if x.bytes.len() % 3 != 0 {
                src.label("padding");
            }
            if x.bytes.is_empty() {
                src.label("empty message");
            }
            ensure!(y.bytes == b64(&x.bytes).as_bytes(), "step64-output", "{mech} step {step}: step wrote {}, whose base64 is {:?}, but step64 wrote {}", show(&x.bytes), b64(&x.bytes), show(&y.bytes));
        }
        {
            let (l, m) = (alog.lock().unwrap(), blog.lock().unwrap());
            ensure!(l.events == m.events, "step64-callbacks", "{mech}: step caused {:?}, step64 {:?}", l.events, m.events);
        }
        ensure!(a.validation() == b.validation(), "step64-validation", "{mech}: different validation values");
        match &x.res {
            Ok(State::Running) => {}
            Err(SessionError::InputDataRequired) => {
                input = peer.get(k.saturating_sub(1)).map(|o| o.bytes.clone());
                continue;
            }
            _ => break,
        }
        input = peer.get(k).map(|o| o.bytes.clone());
        k += 1;
    }
    Ok(())
}

fn c11_exchange(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let accept = src.chance(2, 3);
    let p = pairing(src, mech, accept);
    src.label(family(mech));
    let (c64, s64) = match src.below(3) {
        0 => (true, true),
        1 => (true, false),
        _ => (false, true),
    };
    let (mut c, _, mut s, slog) = p.start();
    let mut d = Driven { client: vec![], server: vec![], client_done: false, server_done: false, stuck: false };
    let mut client_turn = c.first();
    let mut input: Option<Vec<u8>> = None;
    for _ in 0..20 {
        if if client_turn { d.client_done } else { d.server_done } {
            d.stuck = input.is_some();
            break;
        }
        let (sess, x64) = if client_turn { (&mut c, c64) } else { (&mut s, s64) };
        let mut o = if x64 {
            let e = input.as_ref().map(|i| b64(i));
            sess.step64(e.as_ref().map(String::as_bytes))
        } else {
            sess.step(input.as_deref())
        };
        src.note(|| format!("{mech} {} {}", if client_turn { "C" } else { "S" }, o.desc()));
        if x64 && o.ok() {
            src.nontrivial();
            match unb64(&o.bytes) {
                Some(b) => o.bytes = b,
                None => return fail("step64-output", format!("{mech}: step64 wrote {}, which is not base64", o.desc())),
            }
        }
        input = match &o.res {
            Ok(State::Running) | Ok(State::Finished(MessageSent::Yes)) => Some(o.bytes.clone()),
            _ => None,
        };
        let (err, fin) = (o.res.is_err(), o.finished());
        if client_turn {
            d.client_done |= fin;
            d.client.push(o);
        } else {
            d.server_done |= fin;
            d.server.push(o);
        }
        if err || (d.client_done && d.server_done && input.is_none()) {
            break;
        }
        client_turn = !client_turn;
    }
    let v = validations(&slog);
    completed(&p, &d, &v, &mut s).map_err(|mut f| {
        f.sig = "step64-exchange".into();
        f
    })
}

fn c11_invalid(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let p = pairing(src, mech, true);
    let server = src.flag();
    let (mut c, clog, mut s, slog) = p.start();
    // bring the session under test to a point where it has a message to read
    let steps = src.idx(4);
    let mut client_turn = c.first();
    let mut input: Option<Vec<u8>> = None;
    for i in 0.. {
        let turn_of_test = client_turn != server;
        if turn_of_test && (input.is_some() || !c.first() != server) && i >= steps {
            break;
        }
        let o = if client_turn { c.step(input.as_deref()) } else { s.step(input.as_deref()) };
        if !o.running() && !o.fin(true) {
            return Ok(());
        }
        if turn_of_test && o.finished() {
            return Ok(());
        }
        input = Some(o.bytes);
        client_turn = !client_turn;
        if i > 8 {
            return Ok(());
        }
    }
    let mut good = match input {
        Some(i) => b64(&i).into_bytes(),
        None => b"QUJD".to_vec(),
    };
    if good.is_empty() {
        good = b"QQ==".to_vec();
    }
    let pad = good.iter().filter(|c| **c == b'=').count();
    let body = good.len() - pad;
    let bad = match src.below(3) {
        0 => {
            src.label("bad character");
            let i = src.idx(good.len() + 1);
            let ch = *src.pick(b"-_ \n\r\t.,:;!*?\0\x80\xff");
            let mut m = good.clone();
            if src.flag() && i < m.len() {
                m[i] = ch;
            } else {
                m.insert(i, ch);
            }
            m
        }
        1 => {
            src.label("bad padding");
            let mut m = good.clone();
            match src.below(4) {
                0 if pad > 0 => m.truncate(body),
                1 => m.push(b'='),
                2 => m.insert(src.idx(body.max(1)), b'='),
                _ => m.extend_from_slice(b"===="),
            }
            if m == good {
                m.push(b'=');
            }
            m
        }
        _ => {
            src.label("bad length");
            let mut m = good.clone();
            m.truncate(body);
            while m.len() % 4 != 1 {
                m.push(b'A');
            }
            m
        }
    };
    src.nontrivial();
    let (sess, log) = if server { (&mut s, &slog) } else { (&mut c, &clog) };
    let before = log.lock().unwrap().events.len();
    let o = sess.step64(Some(&bad));
    src.note(|| format!("{mech} {}: {} -> {}", if server { "server" } else { "client" }, show(&bad), o.desc()));
    ensure!(kind(&o.res) == "base64", "invalid-base64", "{mech}: input {} gave {}", show(&bad), o.desc());
    ensure!(o.bytes.is_empty(), "invalid-base64", "{mech}: input {} caused the output {}", show(&bad), show(&o.bytes));
    ensure!(log.lock().unwrap().events.len() == before, "invalid-base64", "{mech}: the mechanism went on with input {}", show(&bad));
    ensure!(sess.validation().is_none(), "invalid-base64", "{mech}: a validation value exists after input {}", show(&bad));
    Ok(())
}

/* ------------------------------------------------------------------ C13 */

fn c13_script(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let accept = src.chance(3, 4);
    let mut p = pairing(src, mech, accept);
    // the callback's operations, and what comes of them
    let mut want: Option<String> = None;
    let mut error = false;
    p.server.val = match src.weighted(&[8, 1, 1]) {
        0 => {
            let n = src.size(5);
            let mut ops = vec![];
            for _ in 0..n {
                let o = match src.weighted(&[4, 4, 1, 2, 2, 1, 1]) {
                    6 => ValOp::WithErrDropped(val_text(src)),
                    0 => ValOp::Finalize(word(src, 6)),
                    1 => ValOp::With(word(src, 6)),
                    2 => ValOp::WithErr(val_text(src)),
                    3 => ValOp::OtherFinalize(src.below(9)),
                    4 => ValOp::OtherWith(src.below(9)),
                    _ => ValOp::Noop,
                };
                ops.push(o);
            }
            let mut values = 0;
            for o in &ops {
                match o {
                    ValOp::Finalize(v) | ValOp::With(v) => {
                        values += 1;
                        if want.is_none() {
                            want = Some(v.clone());
                        }
                    }
                    // not evaluated if there is a value already
                    ValOp::WithErr(_) if want.is_none() => {
                        error = true;
                        src.label("error from closure");
                        break;
                    }
                    ValOp::OtherFinalize(_) | ValOp::OtherWith(_) => src.label("other type"),
                    _ => {}
                }
            }
            if values > 1 {
                src.label("two values");
            }
            if want.is_none() && !error {
                src.label("nothing");
            }
            if ops.len() != 1 {
                src.nontrivial();
            }
            Val::Ops(ops)
        }
        1 => {
            src.label("nothing");
            src.nontrivial();
            Val::Nothing
        }
        _ => {
            src.label("error");
            src.nontrivial();
            error = true;
            Val::Fail(val_text(src))
        }
    };
    if !p.accept && !mech.starts_with("SCRAM") {
        src.label("server error message");
    }
    src.note(|| format!("{mech} accept {}: {:?} -> {want:?} error {error}", p.accept, p.server.val));
    let (mut c, clog, mut s, slog) = p.start();
    let (ct, st) = table(mech, p.accept);
    let mut client_turn = c.first();
    let mut input: Option<Vec<u8>> = None;
    let (mut ci, mut si) = (0, 0);
    // The step at which the server validates: the last one, or the one which decides about the token.
    let at = if mech.starts_with("SCRAM") { 1 } else if mech == "LOGIN" { 2 } else { 0 };
    let validates = p.accept || !mech.starts_with("SCRAM");
    let take_early = src.flag();
    let mut taken: Vec<Option<String>> = vec![];
    loop {
        if if client_turn { ci >= ct.len() } else { si >= st.len() } {
            break;
        }
        if client_turn {
            let o = c.step(input.as_deref());
            input = if o.ok() && !o.fin(false) { Some(o.bytes) } else { None };
            ci += 1;
        } else {
            let o = s.step(input.as_deref());
            let n = validations(&slog).len();
            if si == at && validates {
                ensure!(n == 1, "validate-once", "{mech}: {n} validations after the deciding step, which gave {}", o.desc());
                if error {
                    ensure!(kind(&o.res) == "validation", "validate-error", "{mech}: the validation failed, but the step gave {}", o.desc());
                    ensure!(s.validation() == want.clone(), "validate-error", "{mech}: a failed validation left a value that was not set");
                    return Ok(());
                }
                ensure!(o.ok(), "validate-ok", "{mech}: the validation succeeded, but the step gave {}", o.desc());
            } else {
                let expected = usize::from(validates && si > at);
                ensure!(n == expected, "validate-once", "{mech}: {n} validations after step {si} of the server");
                if si < at {
                    ensure!(s.validation().is_none(), "validate-early", "{mech}: a validation value before the exchange was decided");
                }
            }
            if take_early || si + 1 == st.len() {
                taken.push(s.validation());
            }
            input = if o.ok() && !o.fin(false) { Some(o.bytes) } else { None };
            si += 1;
        }
        client_turn = !client_turn;
    }
    taken.push(s.validation());
    ensure!(si == st.len(), "validate-flow", "{mech}: the server made {si} steps");
    let got: Vec<String> = taken.into_iter().flatten().collect();
    let want: Vec<String> = if validates { want.into_iter().collect() } else { vec![] };
    ensure!(got == want, "validate-value", "{mech}: the values delivered are {got:?}, expected {want:?} from {:?}", p.server.val);
    ensure!(validations(&clog).is_empty() && c.validation().is_none(), "validate-client", "{mech}: validation on the client side");
    Ok(())
}

/// A value set for the type the protocol did not ask for never arrives, whatever the types are.
struct NumVal;
impl Validation for NumVal {
    type Value = u64;
}
struct TypesCb(Vec<(u8, u64)>);
impl SessionCallback for TypesCb {
    fn validate(&self, _: &SessionData, _: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        for (t, n) in &self.0 {
            match t {
                0 => v.finalize::<NumVal>(*n),
                1 => v.finalize::<TestVal>(n.to_string()),
                2 => v.finalize::<OtherVal>(n.to_string()),
                3 => v.finalize::<rsasl::validate::NoValidation>(()),
                4 => {
                    v.with::<NumVal, _>(|| Ok(*n))?;
                }
                _ => {
                    let is = [v.is::<NumVal>(), v.is::<TestVal>(), v.is::<OtherVal>(), v.is::<rsasl::validate::NoValidation>()];
                    if is.iter().filter(|x| **x).count() != 1 {
                        return Err(ValidationError::Boxed(format!("is of the types {is:?}").into()));
                    }
                }
            }
        }
        Ok(())
    }
}
fn c13_types(src: &mut Src) -> R {
    let n = src.size(6);
    let ops: Vec<(u8, u64)> = (0..n).map(|_| (src.below(6) as u8, src.below(1000))).collect();
    if ops.len() > 1 {
        src.nontrivial();
    }
    src.note(|| format!("{ops:?}"));
    let first = |ts: &[u8]| ops.iter().find(|(t, _)| ts.contains(t)).map(|(_, n)| *n);
    let cfg = SASLConfig::builder().with_default_mechanisms().with_callback(TypesCb(ops.clone())).expect("config");
    macro_rules! run {
        ($t:ty) => {{
            let mut s = match SASLServer::<$t>::new(cfg.clone()).start_suggested(mech("EXTERNAL")) {
                Ok(s) => s,
                Err(e) => return harness_bug(format!("{e:?}")),
            };
            let mut out = vec![];
            let r = s.step(Some(b"x"), &mut out);
            ensure!(matches!(r, Ok(State::Finished(MessageSent::No))), "types-step", "{}", rdesc(&r));
            let v = s.validation();
            let again = s.validation();
            ensure!(again.is_none(), "types-twice", "the value was delivered twice");
            v
        }};
    }
    let (a, b, c, d) = (run!(NumVal), run!(TestVal), run!(OtherVal), run!(rsasl::validate::NoValidation));
    ensure!(a == first(&[0, 4]), "types-value", "number: {a:?} from {ops:?}");
    ensure!(b == first(&[1]).map(|n| n.to_string()), "types-value", "text: {b:?} from {ops:?}");
    ensure!(c == first(&[2]).map(|n| n.to_string()), "types-value", "other text: {c:?} from {ops:?}");
    ensure!(d.is_some() == ops.iter().any(|o| o.0 == 3), "types-value", "nothing: {d:?} from {ops:?}");
    Ok(())
}

/* ------------------------------------------------------------------ C19 */

fn no_layer(src: &mut Src, s: &mut Sess, point: &'static str, mech: &str) -> R {
    src.label(point);
    ensure!(!s.has_layer(), "layer-claimed", "{mech} ({point}): a security layer is claimed");
    let data = crate::common::layer_data(src, 80);
    let mut w = bad_writer(src);
    for enc in [true, false] {
        let r = if enc { s.encode(&data, &mut w) } else { s.decode(&data, &mut w) };
        match &r {
            Err(SessionError::NoSecurityLayer) => {}
            _ => return fail("layer-used", format!("{mech} ({point}): {} of {} bytes gave {r:?}", if enc { "encode" } else { "decode" }, data.len())),
        }
        ensure!(w.calls == 0, "layer-writes", "{mech} ({point}): {} wrote {}", if enc { "encode" } else { "decode" }, show(&w.got));
    }
    Ok(())
}

fn c19_none(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let accept = src.chance(2, 3);
    let p = pairing(src, mech, accept);
    let (mut c, _, mut s, slog) = p.start();
    src.note(|| mech.to_string());
    let mut d = Driven { client: vec![], server: vec![], client_done: false, server_done: false, stuck: false };
    let mut client_turn = c.first();
    let mut input: Option<Vec<u8>> = None;
    let mut point = "before";
    for _ in 0..20 {
        if src.flag() {
            no_layer(src, &mut c, point, mech)?;
        }
        if src.flag() {
            no_layer(src, &mut s, point, mech)?;
        }
        if if client_turn { d.client_done } else { d.server_done } {
            d.stuck = input.is_some();
            break;
        }
        let sess = if client_turn { &mut c } else { &mut s };
        if point != "before" {
            src.nontrivial();
        }
        let o = sess.step(input.as_deref());
        point = "between";
        input = match &o.res {
            Ok(State::Running) | Ok(State::Finished(MessageSent::Yes)) => Some(o.bytes.clone()),
            _ => None,
        };
        let (err, fin) = (o.res.is_err(), o.finished());
        if client_turn {
            d.client_done |= fin;
            d.client.push(o);
        } else {
            d.server_done |= fin;
            d.server.push(o);
        }
        if err || (d.client_done && d.server_done && input.is_none()) {
            break;
        }
        client_turn = !client_turn;
    }
    no_layer(src, &mut c, "after", mech)?;
    no_layer(src, &mut s, "after", mech)?;
    let v = validations(&slog);
    completed(&p, &d, &v, &mut s).map_err(|mut f| {
        f.sig = "layer-disturbs".into();
        f
    })
}

/* ------------------------------------------------------------------ C21 */

/// One callback for all users of a server.
struct ManyCb {
    base: Cb,
    x: HashMap<String, Result<(), String>>,
    o: HashMap<String, Result<(), OErr>>,
}
impl SessionCallback for ManyCb {
    fn callback(&self, sd: &SessionData, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        self.base.callback(sd, c, r)?;
        let Some(t) = c.get_ref::<OAuthBearerToken>() else { return Ok(()) };
        if let Some(v) = self.x.get(t) {
            r.satisfy::<XOAuth2Validate>(&v.as_ref().map(|()| ()).map_err(String::as_str))?;
        }
        if let Some(v) = self.o.get(t) {
            let v = v.as_ref().map(|()| ()).map_err(|(a, b, c)| OAuthBearerError::new(a, b.as_deref(), c.as_deref()));
            r.satisfy::<OAuthBearerValidate>(&v)?;
        }
        Ok(())
    }
    fn enable_channel_binding(&self) -> bool {
        self.base.enable_channel_binding()
    }
    fn validate(&self, sd: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        self.base.validate(sd, c, v)
    }
}
/// One callback for a client configuration that is used for several mechanisms.
struct PerMechCb(HashMap<String, Cb>, bool);
impl SessionCallback for PerMechCb {
    fn callback(&self, sd: &SessionData, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        match self.0.get(sd.mechanism().mechanism.as_str()) {
            Some(cb) if sd.side() == rsasl::registry::Side::Client => cb.callback(sd, c, r),
            _ => Err(SessionError::Boxed("callback for a mechanism or side that was not started".into())),
        }
    }
    fn enable_channel_binding(&self) -> bool {
        self.1
    }
}

struct Ex {
    p: Pairing,
    c: Sess,
    s: Sess,
    d: Driven,
    client_turn: bool,
    input: Option<Vec<u8>>,
    over: bool,
}
impl Ex {
    fn step(&mut self) {
        if self.over {
            return;
        }
        if if self.client_turn { self.d.client_done } else { self.d.server_done } {
            self.d.stuck = self.input.is_some();
            self.over = true;
            return;
        }
        let o = if self.client_turn { self.c.step(self.input.as_deref()) } else { self.s.step(self.input.as_deref()) };
        self.input = match &o.res {
            Ok(State::Running) | Ok(State::Finished(MessageSent::Yes)) => Some(o.bytes.clone()),
            _ => None,
        };
        let (err, fin) = (o.res.is_err(), o.finished());
        if self.client_turn {
            self.d.client_done |= fin;
            self.d.client.push(o);
        } else {
            self.d.server_done |= fin;
            self.d.server.push(o);
        }
        self.over = err || (self.d.client_done && self.d.server_done && self.input.is_none());
        self.client_turn = !self.client_turn;
    }
}

/// Another exchange that has some or all of its values in common with `p`.
fn related(src: &mut Src, p: &Pairing, i: usize) -> Pairing {
    let mut p = p.clone();
    // the same user once more
    if src.chance(1, 3) {
        return p;
    }
    let tag = format!("/{i}");
    if p.mech.starts_with("SCRAM") {
        let alg = alg_of(p.mech);
        let old = p.server.users.drain().next().map(|(_, s)| s).expect("a stored credential");
        let (mut pw, mut salt, mut it) = (p.client.password.clone().expect("a password"), old.salt, old.iterations);
        match src.idx(3) {
            0 => salt.push(i as u8),
            1 => it += 1 + i as u32,
            _ => pw.extend_from_slice(tag.as_bytes()),
        }
        let mut stored = alg.stored(&pw, &salt, it);
        if !p.accept {
            let k = src.idx(stored.stored_key.len());
            stored.stored_key[k] ^= 1 << src.below(8);
        }
        p.client.password = Some(pw);
        for v in [&mut p.client.authid, &mut p.authid].into_iter().flatten() {
            v.push_str(&tag);
        }
        p.server.users.insert(p.authid.clone().expect("a user"), stored);
        return p;
    }
    // one of the values differs
    if p.password.is_some() && src.flag() {
        for v in [&mut p.client.password, &mut p.password].into_iter().flatten() {
            v.extend_from_slice(tag.as_bytes());
        }
    } else {
        for v in [&mut p.client.authid, &mut p.authid].into_iter().flatten() {
            v.push_str(&tag);
        }
    }
    p
}

/// Gives an exchange its own values.
fn own_values(p: &mut Pairing, i: usize) {
    let tag = format!("{i}");
    for v in [&mut p.client.authid, &mut p.authid, &mut p.client.authzid, &mut p.authzid, &mut p.client.token, &mut p.token, &mut p.client.anon].into_iter().flatten() {
        v.push_str(&tag);
    }
    if p.mech == "ANONYMOUS" && p.client.anon.is_some() {
        p.anon = p.client.anon.clone();
    }
    let users: HashMap<String, Stored> = p.server.users.drain().map(|(k, v)| (format!("{k}{tag}"), v)).collect();
    p.server.users = users;
}

fn many(src: &mut Src) -> Result<(Vec<Ex>, LogRef), Fail> {
    let n = src.range(2, 12);
    let mut ps: Vec<Pairing> = vec![];
    let few = src.flag();
    for i in 0..n {
        if i > 0 && src.chance(1, 3) {
            src.label("related to another");
            let j = src.idx(i);
            let p = related(src, &ps[j], i);
            ps.push(p);
            continue;
        }
        let mech = if few { PAIRABLE[(i + src.idx(2)) % 3 + 4] } else { *src.pick(&PAIRABLE) };
        let accept = src.chance(3, 4);
        let mut p = pairing(src, mech, accept);
        if !p.accept {
            src.label("refused");
        }
        own_values(&mut p, i);
        ps.push(p);
    }
    set_up(src, ps)
}

fn set_up(src: &mut Src, ps: Vec<Pairing>) -> Result<(Vec<Ex>, LogRef), Fail> {
    let mut mechs: Vec<&str> = ps.iter().map(|p| p.mech).collect();
    mechs.sort_unstable();
    let before = mechs.len();
    mechs.dedup();
    if mechs.len() < before {
        src.label("same mechanism");
    }
    // the server
    let mut script = Script { cb_enabled: true, ..Script::default() };
    let (mut x, mut o) = (HashMap::new(), HashMap::new());
    for p in &ps {
        script.users.extend(p.server.users.clone());
        if let (Some(t), Some(v)) = (&p.token, &p.server.xval) {
            x.insert(t.clone(), v.clone());
        }
        if let (Some(t), Some(v)) = (&p.token, &p.server.oval) {
            o.insert(t.clone(), v.clone());
        }
    }
    let (base, log) = Cb::new(script);
    let scfg = SASLConfig::builder().with_registry(registry(&PAIRABLE)).with_callback(ManyCb { base, x, o }).expect("config");
    // the clients: one configuration for the first exchange of every mechanism, or separate ones
    let share = src.flag();
    let mut first: [HashMap<String, Cb>; 2] = Default::default();
    let mut shared_by: Vec<bool> = vec![];
    for p in &ps {
        let f = &mut first[usize::from(p.mech.ends_with("-PLUS"))];
        let s = share && !f.contains_key(p.mech);
        if s {
            f.insert(p.mech.to_string(), Cb::new(p.client.clone()).0);
        }
        shared_by.push(s);
    }
    // one without and one with channel bindings enabled
    let mut plus = false;
    let ccfgs: [Arc<SASLConfig>; 2] = first.map(|f| {
        let c = SASLConfig::builder().with_registry(registry(&PAIRABLE)).with_callback(PerMechCb(f, plus)).expect("config");
        plus = true;
        c
    });
    let mut exs = vec![];
    for (p, shared) in ps.into_iter().zip(shared_by) {
        // channel bindings belong to the connection, so they come from the protocol here
        let mut ccb = p.ccb.clone();
        ccb.0.extend(p.client.bindings.clone());
        let mut scb = p.scb.clone();
        scb.0.extend(p.server.bindings.clone());
        let start = |e: SASLError| Fail { sig: "start".into(), msg: format!("{}: {e:?}", p.mech), harness: false };
        let c = if shared {
            src.label("shared client configuration");
            Sess::client_cb(&ccfgs[usize::from(p.mech.ends_with("-PLUS"))], &[p.mech], ccb).map_err(start)?
        } else {
            let mut script = p.client.clone();
            script.cb_enabled = p.mech.ends_with("-PLUS");
            Sess::client_cb(&config(&PAIRABLE, Cb::new(script).0), &[p.mech], ccb).map_err(start)?
        };
        let s = Sess::server_cb(&scfg, p.mech, scb).map_err(start)?;
        let client_turn = c.first();
        exs.push(Ex { p, c, s, d: Driven { client: vec![], server: vec![], client_done: false, server_done: false, stuck: false }, client_turn, input: None, over: false });
    }
    Ok((exs, log))
}

/// The validations by the value they have set
fn by_value(all: &[Ctx]) -> HashMap<String, Vec<&Ctx>> {
    let mut m: HashMap<String, Vec<&Ctx>> = HashMap::new();
    for c in all {
        m.entry(auto_value(c)).or_default().push(c);
    }
    m
}

fn judge(ex: &mut Ex, all: &HashMap<String, Vec<&Ctx>>) -> R {
    // validations belong to this exchange if they show its values
    let scram_fail = !ex.p.accept && ex.p.mech.starts_with("SCRAM");
    let value = ex.s.validation();
    let want = if scram_fail { None } else { Some(()) };
    ensure!(value.is_some() == want.is_some(), "isolation-value", "{}: validation value {value:?}; {}", ex.p.mech, ex.d.desc());
    if let Some(v) = &value {
        ensure!(all.get(v).map_or(false, |m| m.iter().any(|c| ex.p.shown(c))), "isolation-value", "{}: the validation value delivered is {v}, of another exchange than {:?}", ex.p.mech, ex.p);
    }
    if ex.p.accept {
        ensure!(ex.d.complete(), "isolation-outcome", "{}: the exchange did not complete: {}", ex.p.mech, ex.d.desc());
    } else if scram_fail {
        ensure!(ex.d.client.last().map_or(false, |o| o.res.is_err()), "isolation-outcome", "{}: a wrong password went through: {}", ex.p.mech, ex.d.desc());
    } else {
        ensure!(ex.d.complete(), "isolation-outcome", "{}: {}", ex.p.mech, ex.d.desc());
        let n = (ex.d.client.len(), ex.d.server.len());
        ensure!(n == (2, 2), "isolation-outcome", "{}: a refused token went through: {}", ex.p.mech, ex.d.desc());
    }
    ensure!(ex.s.mechname() == ex.p.mech && ex.c.mechname() == ex.p.mech, "isolation-name", "{}: {} {}", ex.p.mech, ex.c.mechname(), ex.s.mechname());
    Ok(())
}

fn c21_interleaved(src: &mut Src) -> R {
    let (mut exs, log) = many(src)?;
    let mut started = std::collections::HashSet::new();
    let mut dropped = vec![];
    let mut guard = 0;
    while exs.iter().any(|e| !e.over) && guard < 2000 {
        guard += 1;
        let live: Vec<usize> = (0..exs.len()).filter(|i| !exs[*i].over).collect();
        let k = live[src.idx(live.len())];
        // some exchanges are given up half way
        if exs.len() > 2 && src.chance(1, 60) {
            src.label("dropped");
            dropped.push(exs.remove(k).p.mech);
            started.clear();
            continue;
        }
        exs[k].step();
        started.insert(k);
        if started.len() > 1 {
            src.nontrivial();
        }
    }
    src.note(|| exs.iter().map(|e| format!("{}: {}", e.p.mech, e.d.desc())).collect::<Vec<_>>().join("\n"));
    let all = validations(&log);
    let values = by_value(&all);
    for ex in &mut exs {
        judge(ex, &values)?;
    }
    let expect: usize = exs.iter().filter(|e| e.p.accept || !e.p.mech.starts_with("SCRAM")).count();
    ensure!(all.len() >= expect && all.len() <= expect + dropped.len(), "isolation-count", "{} validations for {expect} exchanges", all.len());
    Ok(())
}

/// Hundreds of exchanges that are all in progress at some moment.
fn c21_crowd(src: &mut Src) -> R {
    let n = *src.pick(&[66usize, 130, 258, 300, 514, 600, 1030]);
    let mut kinds = vec![];
    for _ in 0..src.range(1, 4) {
        let mech = *src.pick(&PAIRABLE);
        let accept = src.chance(3, 4);
        kinds.push(pairing(src, mech, accept));
    }
    let ps = (0..n)
        .map(|i| {
            let mut p = kinds[i % kinds.len()].clone();
            own_values(&mut p, i);
            p
        })
        .collect();
    let (mut exs, log) = set_up(src, ps)?;
    src.nontrivial();
    // some wait at a certain step until all the others are there, or done
    let lead = src.idx(4);
    let patient = src.chance(1, 3);
    src.label(if patient { "one waits" } else { "all wait" });
    let waits = if patient { 1 + src.idx(4) } else { n };
    for e in &mut exs[..waits] {
        for _ in 0..lead {
            if !e.over {
                e.step();
            }
        }
    }
    for e in &mut exs[waits..] {
        for _ in 0..20 {
            if !e.over {
                e.step();
            }
        }
    }
    // then they end one after another, from a generated one on
    let k = src.idx(n);
    exs.rotate_left(k);
    if src.flag() {
        exs.reverse();
    }
    for e in &mut exs {
        for _ in 0..20 {
            if !e.over {
                e.step();
            }
        }
    }
    src.note(|| format!("{n} exchanges, {} wait after {lead} steps: {}", waits, kinds.iter().map(|p| p.mech).collect::<Vec<_>>().join(" ")));
    let all = validations(&log);
    let values = by_value(&all);
    for ex in &mut exs {
        judge(ex, &values)?;
    }
    let expect = exs.iter().filter(|e| e.p.accept || !e.p.mech.starts_with("SCRAM")).count();
    ensure!(all.len() == expect, "isolation-count", "{} validations for {expect} exchanges", all.len());
    Ok(())
}

/// What the callbacks of an exchange do may be to go on with another one, as those of a proxy do.
fn c21_nested(src: &mut Src) -> R {
    let (mut exs, log) = many(src)?;
    // what happens at the callbacks: nothing, or so many steps of that exchange
    let plan: Vec<(usize, usize)> = (0..40).map(|_| (src.idx(12), src.idx(4))).collect();
    let top: Vec<usize> = (0..60).map(|_| src.idx(12)).collect();
    let pool = Rc::new(RefCell::new(exs.drain(..).collect::<Vec<Ex>>()));
    let at = Rc::new(RefCell::new((0usize, 0usize)));
    let off = {
        let (pool, at) = (pool.clone(), at.clone());
        during_callbacks(move || {
            let (k, n) = {
                let mut at = at.borrow_mut();
                at.0 += 1;
                plan[(at.0 - 1) % plan.len()]
            };
            let len = pool.borrow().len();
            if n == 0 || len == 0 || at.borrow().0 > 2 * plan.len() {
                return;
            }
            // an exchange that is not being stepped right now
            let mut ex = pool.borrow_mut().swap_remove(k % len);
            for _ in 0..n {
                if !ex.over {
                    ex.step();
                    at.borrow_mut().1 += 1;
                }
            }
            pool.borrow_mut().push(ex);
        })
    };
    for k in top.into_iter().chain(0..500) {
        let (len, done) = {
            let p = pool.borrow();
            (p.len(), p.iter().all(|e| e.over))
        };
        if done {
            break;
        }
        let mut ex = pool.borrow_mut().swap_remove(k % len);
        ex.step();
        pool.borrow_mut().push(ex);
    }
    drop(off);
    let inside = at.borrow().1;
    if inside > 0 {
        src.label("inside a callback");
        src.nontrivial();
    }
    let mut exs = pool.borrow_mut().drain(..).collect::<Vec<Ex>>();
    src.note(|| format!("{inside} steps inside callbacks\n{}", exs.iter().map(|e| format!("{}: {}", e.p.mech, e.d.desc())).collect::<Vec<_>>().join("\n")));
    let all = validations(&log);
    let values = by_value(&all);
    for ex in &mut exs {
        judge(ex, &values)?;
    }
    let expect = exs.iter().filter(|e| e.p.accept || !e.p.mech.starts_with("SCRAM")).count();
    ensure!(all.len() == expect, "isolation-count", "{} validations for {expect} exchanges", all.len());
    Ok(())
}

fn c21_threads(src: &mut Src) -> R {
    let (exs, log) = many(src)?;
    src.nontrivial();
    let threads = src.range(2, 6);
    let mut groups: Vec<Vec<Ex>> = (0..threads).map(|_| vec![]).collect();
    for e in exs {
        groups[src.idx(threads)].push(e);
    }
    let barrier = std::sync::Barrier::new(threads);
    let mut exs: Vec<Ex> = std::thread::scope(|sc| {
        let hs: Vec<_> = groups
            .into_iter()
            .map(|mut g| {
                let barrier = &barrier;
                sc.spawn(move || {
                    barrier.wait();
                    for _ in 0..30 {
                        for e in &mut g {
                            e.step();
                        }
                    }
                    g
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().expect("thread")).collect()
    });
    let all = validations(&log);
    let values = by_value(&all);
    for ex in &mut exs {
        judge(ex, &values)?;
    }
    Ok(())
}

//! C26: what the error of a failed step says.
use super::flow::{bad_writer, expensive, WEnd};
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use rsasl::callback::CallbackError;
use rsasl::mechanism::MechanismErrorKind as Kind;
use rsasl::prelude::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "A case makes one step of an exchange of any mechanism fail - a mutated or made-up message, a server's error value, a wrong verifier, a value or channel binding the callback does not have, a writer that fails - and judges class, kind and text of the error. Non-trivial: the step failed.",
        assumptions: &["malformed messages may be parse or protocol errors", "steps after the end of an exchange are not judged"],
        suites: vec![
            suite("messages", c26_messages, 800_000, 6_000_000),
            suite("server-errors", c26_server_errors, 80_000, 800_000),
            suite("refusals", c26_refusals, 80_000, 1_000_000),
            suite("callbacks", c26_callbacks, 120_000, 1_000_000),
            suite("missing", c26_missing, 200_000, 2_000_000),
            suite("writer", c26_writer, 200_000, 2_000_000),
        ],
        expect_labels: &["parse", "protocol", "outcome", "mutual", "nocb", "error action not taken", "missing value", "missing binding", "writer", "unknown value", "with extension", "wrong password", "wrong binding", "unknown user", "callback", "validation", "longer verifier", "other name"],
    }]
}

fn name_of(k: &Kind) -> &'static str {
    match k {
        Kind::Parse => "parse",
        Kind::Protocol => "protocol",
        Kind::Outcome => "outcome",
        _ => "unknown",
    }
}

/// What holds for every error.
fn common(what: &str, e: &SessionError) -> R {
    ensure!(e.is_mechanism_error() == matches!(e, SessionError::MechanismError(_)), "error-predicates", "{what}: is_mechanism_error() is {} for {e:?}", e.is_mechanism_error());
    let missing = matches!(e, SessionError::CallbackError(CallbackError::NoCallback(_)));
    ensure!(e.is_missing_prop() == missing, "error-predicates", "{what}: is_missing_prop() is {} for {e:?}", e.is_missing_prop());
    if let SessionError::CallbackError(c) = e {
        ensure!(c.is_no_callback() == missing, "error-predicates", "{what}: is_no_callback() is {} for {c:?}", c.is_no_callback());
    }
    ensure!(!e.to_string().is_empty() && !format!("{e:?}").is_empty(), "error-text", "{what}: an error without text");
    Ok(())
}

fn states(what: &str, o: &Out) -> R {
    if let Ok(s) = &o.res {
        let (run, msg) = match s {
            State::Running => (true, true),
            State::Finished(m) => (false, matches!(m, MessageSent::Yes)),
        };
        ensure!(s.is_running() == run && s.is_finished() != run && s.has_sent_message() == msg, "state-predicates", "{what}: {s:?} is running {} finished {} message {}", s.is_running(), s.is_finished(), s.has_sent_message());
    }
    Ok(())
}

fn c26_messages(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let accept = src.chance(3, 4);
    let mut p = pairing(src, mech, accept);
    p.client.take_errors = src.flag();
    let server = src.flag();
    let scram = mech.starts_with("SCRAM");
    let (mut c, _, mut s, _) = p.start();
    let mut client_turn = c.first();
    let mut msg: Option<Vec<u8>> = None;
    let mut history: Vec<Vec<u8>> = vec![];
    // the n-th message to the side under test is replaced
    let at = if scram || mech == "LOGIN" { src.idx(2) } else { 0 };
    let mut nth = 0;
    for _ in 0..8 {
        let tested = client_turn != server;
        if tested && msg.is_some() {
            if nth == at {
                let others: Vec<&[u8]> = history.iter().map(Vec::as_slice).collect();
                let base = msg.clone().unwrap();
                let m = match src.weighted(&[6, 2, 1]) {
                    0 => mutate(src, &base, &others),
                    1 => soup(src),
                    _ => history[0].clone(),
                };
                if expensive(&m) {
                    return Ok(());
                }
                let o = if server { s.step(Some(&m)) } else { c.step(Some(&m)) };
                let what = format!("{mech} {} on {} (message {nth})", if server { "server" } else { "client" }, show(&m));
                src.note(|| format!("{what}: {}", o.desc()));
                states(&what, &o)?;
                let Err(e) = &o.res else { return Ok(()) };
                src.nontrivial();
                common(&what, e)?;
                return judge(src, &p, server, nth, &m, e, &what);
            }
            nth += 1;
        }
        let o = if client_turn { c.step(msg.as_deref()) } else { s.step(msg.as_deref()) };
        states(mech, &o)?;
        if !o.running() && !o.fin(true) {
            return Ok(());
        }
        history.push(o.bytes.clone());
        msg = Some(o.bytes);
        client_turn = !client_turn;
    }
    Ok(())
}

/// The callbacks answer everything that is asked of them and writers take everything, so an error is about the message.
fn judge(src: &mut Src, p: &Pairing, server: bool, nth: usize, m: &[u8], e: &SessionError, what: &str) -> R {
    let scram = p.mech.starts_with("SCRAM");
    let last = scram && !server && nth == 1;
    match e {
        SessionError::MechanismError(x) => {
            let k = x.kind();
            src.label(name_of(&k));
            match k {
                Kind::Outcome => ensure!(last && m.starts_with(b"e="), "error-kind", "{what}: reported as the outcome of the authentication: {e:?}"),
                Kind::Parse | Kind::Protocol => {
                    let shape = last && m.starts_with(b"e=") && m.iter().all(|b| b.is_ascii_lowercase() || matches!(b, b'=' | b'-'));
                    ensure!(!shape, "error-kind", "{what}: the server's error is reported as {}: {e:?}", name_of(&k));
                }
                _ => {}
            }
            Ok(())
        }
        SessionError::MutualAuthenticationFailed => {
            src.label("mutual");
            ensure!(last && m.starts_with(b"v="), "error-class", "{what}: reported as failed mutual authentication");
            Ok(())
        }
        SessionError::MissingChannelBindingData(n) => {
            src.label("nocb");
            let flag = m.split(|b| *b == b',').next().unwrap_or(b"");
            ensure!(scram && server && nth == 0 && flag == format!("p={n}").as_bytes(), "error-class", "{what}: reported as missing channel binding data {n:?}");
            ensure!(!p.server.bindings.iter().any(|(k, _)| k == n) && !p.scb.0.iter().any(|(k, _)| k == n), "error-class", "{what}: channel binding data of {n:?} is reported missing but was available");
            Ok(())
        }
        SessionError::CallbackError(CallbackError::NoCallback(n)) => {
            src.label("error action not taken");
            let want = match p.mech {
                "OAUTHBEARER" => "OAuthBearerErrored",
                "XOAUTH2" => "XOAuth2Error",
                _ => "?",
            };
            ensure!(!server && !p.client.take_errors && n.contains(want), "error-class", "{what}: reported as a property missing: {n}");
            Ok(())
        }
        _ => fail("error-class", format!("{what}: reported as {e:?}")),
    }
}

/// Servers that end a SCRAM exchange with an error value or a wrong verifier.
fn c26_server_errors(src: &mut Src) -> R {
    let mech = *src.pick(&["SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512"]);
    let p = pairing(src, mech, true);
    let (mut c, _, mut s, _) = p.start();
    let mut msg = c.step(None);
    for i in 0..3 {
        ensure!(msg.running() || msg.fin(true), "scram-errors-setup", "{mech}: step {i} of an ordinary exchange: {}", msg.desc());
        msg = if i % 2 == 0 { s.step(Some(&msg.bytes)) } else { c.step(Some(&msg.bytes)) };
    }
    ensure!(msg.fin(true) && msg.bytes.starts_with(b"v="), "scram-errors-setup", "{mech}: end of an ordinary exchange: {}", msg.desc());
    src.nontrivial();
    let ext = if src.chance(1, 4) {
        src.label("with extension");
        format!(",x={}", word(src, 5) + "1")
    } else {
        String::new()
    };
    if src.chance(1, 3) {
        // another verifier of the right form
        let v = unb64(&msg.bytes[2..]).unwrap_or_default();
        let mut w = v.clone();
        match src.below(4) {
            0 => {
                let i = src.idx(w.len());
                w[i] ^= 1 << src.below(8);
            }
            1 => w.truncate(src.range(1, w.len() - 1)),
            2 => {
                src.label("longer verifier");
                let n = src.range(1, 40);
                w.extend(src.bytes(n));
            }
            _ => w = src.bytes(v.len()),
        }
        if w == v {
            return Ok(());
        }
        src.label("mutual");
        let m = format!("v={}{ext}", b64(&w));
        let o = c.step(Some(m.as_bytes()));
        src.note(|| format!("S: {m}: {}", o.desc()));
        ensure!(matches!(o.res, Err(SessionError::MutualAuthenticationFailed)), "error-mutual", "{mech}: the wrong verifier {m} is reported as {}", o.desc());
        return common(mech, o.res.as_ref().unwrap_err());
    }
    let known = [
        "invalid-encoding", "extensions-not-supported", "invalid-proof", "channel-bindings-dont-match", "server-does-support-channel-binding", "channel-binding-not-supported",
        "unsupported-channel-binding-type", "unknown-user", "invalid-username-encoding", "no-resources", "other-error",
    ];
    let v = if src.chance(3, 4) {
        (*src.pick(&known)).to_string()
    } else {
        src.label("unknown value");
        let w = word(src, 10) + "z";
        if src.flag() { format!("{}{w}", src.pick(&known)) } else { w }
    };
    let m = format!("e={v}{ext}");
    let o = c.step(Some(m.as_bytes()));
    src.note(|| format!("S: {m}: {}", o.desc()));
    let Err(e) = &o.res else { return fail("error-outcome", format!("{mech}: the client went on after {m}: {}", o.desc())) };
    common(mech, e)?;
    let SessionError::MechanismError(x) = e else { return fail("error-outcome", format!("{mech}: {m} is reported as {e:?}")) };
    src.label(name_of(&x.kind()));
    ensure!(matches!(x.kind(), Kind::Outcome), "error-outcome", "{mech}: {m} is reported as a {} error: {e:?}", name_of(&x.kind()));
    // the text tells which of the values of RFC 5802 it was; unknown values are to be treated as other-error
    let told = e.to_string().replace('-', " ").to_lowercase();
    let value = if known.contains(&v.as_str()) { v.replace('-', " ") } else { "other error".to_string() };
    ensure!(told.contains(&value) || (value == "other error" && told.contains(&v.replace('-', " "))), "error-outcome", "{mech}: {m} is told as {told:?}");
    ensure!(known.iter().filter(|k| told.contains(&k.replace('-', " "))).count() <= 1 || value == "other error", "error-outcome", "{mech}: {m} is told as {told:?}");
    Ok(())
}

/// What the user's callback fails with is what the step reports.
fn c26_callbacks(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let accept = src.flag();
    let mut p = pairing(src, mech, accept);
    p.client.take_errors = src.chance(3, 4);
    let text = val_text(src);
    if src.chance(1, 3) {
        p.server.val = Val::Fail(text.clone());
    } else {
        let e = CbErr::any(src);
        let at = src.idx(7);
        let side = if src.chance(3, 4) { &mut p.client } else { &mut p.server };
        side.fail_at = Some((at, e));
    }
    let (mut c, _, mut s, log) = p.start();
    let d = drive(&mut c, &mut s);
    src.note(|| d.desc());
    for o in d.client.iter().chain(&d.server) {
        states(mech, o)?;
        if let Err(e) = &o.res {
            src.nontrivial();
            src.label("callback");
            common(mech, e)?;
        }
    }
    if let (Val::Fail(_), false) = (&p.server.val, validations(&log).is_empty()) {
        src.label("validation");
        let last = d.server.last().map(|o| &o.res);
        let Some(Err(SessionError::ValidationError(v))) = last else { return fail("error-validation", format!("{mech}: validation failed, the step reports {last:?}")) };
        ensure!(matches!(v, rsasl::validate::ValidationError::MissingRequiredProperty) == (text == MISSING_PROPERTY), "error-validation", "{mech}: validation failed with {text:?}, the step with {v:?}");
        ensure!(v.to_string().contains(&text), "error-validation", "{mech}: validation failed with {text:?}, the step with {v}");
    }
    Ok(())
}

/// A SCRAM server says why it refuses, and the client passes that on.
fn c26_refusals(src: &mut Src) -> R {
    let plus = src.chance(1, 3);
    let mech = if plus { *src.pick(&["SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS"]) } else { *src.pick(&["SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512"]) };
    let mut p = pairing(src, mech, true);
    p.client.salted = None;
    p.client.cached = None;
    let (label, values): (&str, &[&str]) = match src.weighted(&[20, 1, if plus { 20 } else { 0 }]) {
        0 => {
            let mut pw = p.client.password.clone().unwrap_or_default();
            if src.flag() {
                pw.push(b'x');
            } else {
                pw = b"another password".to_vec();
            }
            p.client.password = Some(pw);
            // a matching password by chance
            if p.client.password == p.password {
                return Ok(());
            }
            ("wrong password", &["invalid-proof"])
        }
        // (these take the client thousands of iterations)
        1 => {
            if src.flag() {
                p.server.users.clear();
            } else {
                p.client.authid = Some(p.client.authid.clone().unwrap_or_default() + "x");
            }
            ("unknown user", &["unknown-user", "invalid-proof", "other-error"])
        }
        _ => {
            for (_, data) in p.ccb.0.iter_mut().chain(p.client.bindings.iter_mut()) {
                match src.below(3) {
                    0 => data.push(src.below(256) as u8),
                    1 => data.insert(0, src.below(256) as u8),
                    _ => {
                        let i = src.idx(data.len());
                        data[i] ^= 1 << src.below(8);
                    }
                }
            }
            ("wrong binding", &["channel-bindings-dont-match"])
        }
    };
    src.label(label);
    src.nontrivial();
    let (mut c, _, mut s, log) = p.start();
    let d = drive(&mut c, &mut s);
    src.note(|| d.desc());
    ensure!(validations(&log).is_empty(), "refusal-validated", "{mech}: {label}: validated; {}", d.desc());
    let told = d.server.last().map(|o| o.bytes.clone()).unwrap_or_default();
    let told = String::from_utf8_lossy(&told).into_owned();
    let Some(value) = values.iter().find(|v| told == format!("e={v}")) else { return fail("refusal-value", format!("{mech}: {label}: the server says {told:?}; {}", d.desc())) };
    ensure!(d.server.last().map_or(false, |o| o.fin(true)), "refusal-state", "{mech}: {label}: the server did not finish with its message; {}", d.desc());
    let Some(Err(e)) = d.client.last().map(|o| &o.res) else { return fail("refusal-client", format!("{mech}: {label}: the client went on; {}", d.desc())) };
    common(mech, e)?;
    ensure!(matches!(e, SessionError::MechanismError(x) if matches!(x.kind(), Kind::Outcome)), "refusal-client", "{mech}: {label}: the client reports {e:?}");
    let text = e.to_string().replace('-', " ").to_lowercase();
    ensure!(text.contains(&value.replace('-', " ")), "refusal-client", "{mech}: {told} is told as {text:?}");
    Ok(())
}

/// One required value of the client, or the channel binding data of either side, is missing.
fn c26_missing(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let mut p = pairing(src, mech, true);
    let mut on_client = true;
    enum Miss {
        Prop(&'static str),
        Binding,
    }
    let mut choices: Vec<Miss> = vec![];
    if p.client.authid.is_some() && mech != "OAUTHBEARER" && mech != "EXTERNAL" && mech != "ANONYMOUS" {
        choices.push(Miss::Prop("AuthId"));
    }
    if p.client.password.is_some() {
        choices.push(Miss::Prop("Password"));
    }
    if p.client.token.is_some() {
        choices.push(Miss::Prop("Token"));
    }
    if mech.ends_with("-PLUS") {
        choices.push(Miss::Binding);
    }
    if choices.is_empty() {
        return Ok(());
    }
    let miss = choices.swap_remove(src.idx(choices.len()));
    match &miss {
        Miss::Prop("AuthId") => p.client.authid = None,
        Miss::Prop("Password") => p.client.password = None,
        Miss::Prop(_) => p.client.token = None,
        Miss::Binding => {
            on_client = src.flag();
            let (cb, sc) = if on_client { (&mut p.ccb, &mut p.client) } else { (&mut p.scb, &mut p.server) };
            cb.0.clear();
            sc.bindings.clear();
            // of any name
            if src.flag() {
                src.label("other name");
                let name: String = (0..src.range(1, 20)).map(|_| *src.pick(&['a', 'z', 'A', 'Z', '0', '9', '.', '-', 't', 'l', 's'])).collect();
                for side in [&mut p.client.bindings, &mut p.server.bindings, &mut p.ccb.0, &mut p.scb.0] {
                    side.iter_mut().for_each(|b| b.0 = name.clone());
                }
                p.client.override_cb = Some(name);
            }
        }
    }
    p.client.salted = None;
    p.client.cached = None;
    let (mut c, _, mut s, _) = p.start();
    let d = drive(&mut c, &mut s);
    src.note(|| d.desc());
    let side = if on_client { &d.client } else { &d.server };
    let Some(Err(e)) = side.last().map(|o| &o.res) else { return Ok(()) };
    src.nontrivial();
    common(mech, e)?;
    match miss {
        Miss::Prop(n) => {
            src.label("missing value");
            ensure!(e.is_missing_prop(), "error-missing", "{mech} client without {n}: {e:?}");
            ensure!(e.to_string().len() < 10_000, "error-missing", "{mech}: {e}");
            let SessionError::CallbackError(CallbackError::NoCallback(t)) = e else { return fail("error-missing", format!("{mech}: {e:?}")) };
            ensure!(t.contains(n), "error-missing", "{mech} client without {n}: the error names {t}");
        }
        Miss::Binding => {
            src.label("missing binding");
            let SessionError::MissingChannelBindingData(n) = e else { return fail("error-missing", format!("{mech} {} without channel binding data: {e:?}", if on_client { "client" } else { "server" })) };
            if let (true, Some(o)) = (on_client, &p.client.override_cb) {
                ensure!(n == o, "error-missing", "{mech} client that was told to use {o:?}: data of {n:?} is reported missing");
            }
            if !on_client {
                let first = &d.client[0].bytes;
                ensure!(first.starts_with(format!("p={n},").as_bytes()), "error-missing", "{mech} server: data of {n:?} is reported missing, the client sent {}", show(first));
            }
            ensure!(!n.is_empty() && e.to_string().contains(n.as_str()), "error-missing", "{mech}: {e}");
        }
    }
    Ok(())
}

/// The writer's own error is what the step reports.
fn c26_writer(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let accept = src.chance(2, 3);
    let p = pairing(src, mech, accept);
    let (mut c, _, mut s, _) = p.start();
    let mut w = bad_writer(src);
    w.room = src.size(20);
    let base64 = src.chance(1, 3);
    let victim = src.idx(5);
    let mut client_turn = c.first();
    let mut msg: Option<Vec<u8>> = None;
    for turn in 0..8 {
        let sess = if client_turn { &mut c } else { &mut s };
        if turn == victim {
            let enc = msg.as_ref().map(|i| b64(i).into_bytes());
            let res = if base64 { sess.step64_w(enc.as_deref(), &mut w) } else { sess.step_w(msg.as_deref(), &mut w) };
            src.note(|| format!("{mech}: step {turn} with a writer that takes {} bytes, then {:?}: {}", w.got.len(), w.end, rdesc(&res)));
            if !w.hit {
                return Ok(());
            }
            let Err(e) = &res else { return Ok(()) };
            src.nontrivial();
            common(mech, e)?;
            let SessionError::Io { source } = e else { return fail("error-io", format!("{mech}: step {turn}: the writer failed, the step reports {e:?}")) };
            src.label("writer");
            let want = match w.end {
                WEnd::Err(k) => k,
                _ => std::io::ErrorKind::WriteZero,
            };
            ensure!(source.kind() == want, "error-io", "{mech}: step {turn}: the writer failed with {want:?}, the step with {:?}", source.kind());
            return Ok(());
        }
        let o = sess.step(msg.as_deref());
        if !o.running() && !o.fin(true) {
            return Ok(());
        }
        msg = Some(o.bytes);
        client_turn = !client_turn;
    }
    Ok(())
}

//! C06, C17, C20: from the values a client's user supplies to the values the server's user is shown.
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::scramref::escape;
use rsasl::prelude::*;
use std::collections::HashMap;
use stringprep::saslprep;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "A case runs a client and a server of one mechanism (PLAIN, LOGIN, EXTERNAL, ANONYMOUS, XOAUTH2, OAUTHBEARER, SCRAM-*, SCRAM-*-PLUS) with generated values: texts with the separators of every wire format (NUL, SOH, comma, equals sign, escape sequences), mapped and prohibited characters, empty ones, binary passwords. Non-trivial: a value contains a character that is special in the mechanism's format, or the exchange was refused.",
            assumptions: &["values refused by either side are only judged where the format can carry them (listed in DESIGN.md); an authorization identity the mechanism has no field for (LOGIN, XOAUTH2, ANONYMOUS) is not supplied"],
            suites: vec![suite("pair", c06_pair, 1_000_000, 20_000_000)],
            expect_labels: &["arrived", "refused", "PLAIN", "LOGIN", "EXTERNAL", "ANONYMOUS", "XOAUTH2", "OAUTHBEARER", "SCRAM", "-PLUS", "prepared", "escaped", "kv"],
        },
        Prop {
            id: "C17",
            rule: "Suite omit runs an exchange of any mechanism in which one side's user does not supply a generated subset of the properties it would need (or supplies optional ones only); suite error lets the n-th callback invocation of one side return an error of a generated kind, for every n that occurs. Non-trivial: a property was omitted, or the error was actually returned.",
            assumptions: &["an error returned for the offer of keys for caching (after the exchange is decided) is outside of this property", "CallbackError::NoValue returned by a callback counts as not supplying the value"],
            suites: vec![suite("omit", c17_omit, 300_000, 5_000_000), suite("error", c17_error, 500_000, 8_000_000), suite("gssapi", super::gss::c17_gssapi, 100_000, 2_000_000)],
            expect_labels: &["required omitted", "optional omitted", "client error", "server error", "novalue", "bindings omitted", "nothing omitted"],
        },
        Prop {
            id: "C20",
            rule: "Suite credentials builds a configuration from generated credentials, gives it a generated offer (any order, repetitions, unknown names, -PLUS names) and runs the selected mechanism against a server; suite default compares what default configurations offer and start. Non-trivial: at least two usable mechanisms or none were offered.",
            assumptions: &["SCRAM-SHA-512 and SCRAM-SHA-256 have the same preference and either may be taken if both are offered"],
            suites: vec![suite("credentials", c20_credentials, 800_000, 4_000_000), suite("default", c20_default, 80_000, 400_000)],
            expect_labels: &["authzid", "LOGIN only", "nothing usable", "several", "ran"],
        },
    ]
}

/* ------------------------------------------------------------------ C06 */

const WILD: Txt = Txt { max: 20, soh: true, nul: true, empty: true };
fn value(src: &mut Src) -> String {
    if src.chance(2, 3) {
        text(src, TXT)
    } else {
        text(src, WILD)
    }
}
fn secret(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[4, 2, 1]) {
        0 => value(src).into_bytes(),
        1 => password(src),
        _ => {
            let n = src.size(12);
            src.bytes(n)
        }
    }
}
fn prep(s: &str) -> Option<String> {
    saslprep(s).ok().map(|c| c.into_owned()).filter(|s| !s.is_empty())
}

fn c06_pair(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let mut p = pairing(src, mech, true);
    src.label(match mech {
        m if m.ends_with("-PLUS") => "-PLUS",
        m if m.starts_with("SCRAM") => "SCRAM",
        m => m,
    });
    let plain = |s: &str, bad: &[char]| !s.is_empty() && !s.contains(bad);
    // the values supplied, what must arrive (None: nothing can), and whether they must be accepted
    let must: bool;
    match mech {
        "PLAIN" => {
            let (z, a, pw) = (opt(src, value), value(src), secret(src));
            p.authid = prep(&a);
            p.password = match std::str::from_utf8(&pw) {
                Ok(t) => prep(t).map(String::into_bytes),
                Err(_) => Some(pw.clone()),
            };
            p.authzid = z.clone();
            if p.authid.as_deref() != Some(&a) || p.password.as_deref() != Some(&pw) {
                src.label("prepared");
            }
            must = p.authid.is_some()
                && p.password.is_some()
                && !a.contains('\0')
                && !z.as_deref().unwrap_or("").contains('\0')
                && !pw.contains(&0);
            p.client.authid = Some(a);
            p.client.authzid = z;
            p.client.password = Some(pw);
        }
        "LOGIN" => {
            let (a, pw) = (value(src), secret(src));
            must = true;
            p.client.authid = Some(a.clone());
            p.client.password = Some(pw.clone());
            p.authid = Some(a);
            p.password = Some(pw);
        }
        "EXTERNAL" => {
            let z = opt(src, value);
            must = true;
            p.client.authzid = z.clone();
            p.authzid = z;
        }
        "ANONYMOUS" => {
            let t = opt(src, value);
            must = true;
            p.client.anon = t.clone();
            p.anon = Some(t.unwrap_or_default());
        }
        "XOAUTH2" => {
            let (a, t) = (value(src), value(src));
            must = plain(&a, &['\u{1}']) && plain(&t, &['\u{1}']);
            p.client.authid = Some(a.clone());
            p.client.token = Some(t.clone());
            p.authid = Some(a);
            p.token = Some(t);
        }
        "OAUTHBEARER" => {
            let (z, t) = (opt(src, value), value(src));
            let kv: Option<Kv> = opt(src, |src| {
                let n = if src.chance(1, 48) { src.range(4, 100) } else { src.size(4) };
                (0..n)
                    .map(|_| {
                        let k = match src.weighted(&[4, 1, 1]) {
                            0 => word(src, 5),
                            1 => (*src.pick(&["auth", "host", "Auth", "a b", "k=v", "port1", ""])).to_string(),
                            _ => value(src),
                        };
                        (k, value(src))
                    })
                    .collect()
            });
            if kv.as_ref().map_or(false, |k| !k.is_empty()) {
                src.label("kv");
            }
            let ascii = |s: &str| s.chars().all(|c| matches!(c, '\t' | '\n' | '\r' | ' '..='~'));
            must = plain(&t, &['\u{1}'])
                && ascii(&t)
                && !t.starts_with(' ')
                && z.as_ref().map_or(true, |z| plain(z, &['\u{1}', '\0']))
                && kv.iter().flatten().all(|(k, v)| {
                    !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphabetic()) && !k.eq_ignore_ascii_case("auth") && ascii(v)
                });
            if z.as_ref().map_or(false, |z| z.contains([',', '='])) {
                src.label("escaped");
            }
            p.client.authzid = z.clone();
            p.client.token = Some(t.clone());
            p.client.kv = kv.clone();
            p.authzid = z;
            p.token = Some(t);
            p.kv = Some(kv.unwrap_or_default());
        }
        _ => {
            let (z, a, pw) = (opt(src, value), value(src), secret(src));
            must = plain(&a, &['\0']) && z.as_ref().map_or(true, |z| plain(z, &['\0'])) && !pw.is_empty();
            if a.contains([',', '=']) {
                src.label("escaped");
            }
            let alg = alg_of(mech);
            let salt = src.bytes(8);
            let it = 1 + src.below(3) as u32;
            let mut users = HashMap::new();
            // other users, with other passwords, whose names look alike on the wire
            for other in [escape(&a), a.replace("=2C", ",").replace("=3D", "="), a.replace('\0', ""), a.to_uppercase(), a.trim().to_string()] {
                users.insert(other, alg.stored(b"other", b"salt", 1));
            }
            users.insert(a.clone(), alg.stored(&pw, &salt, it));
            p.server.users = users;
            p.client.authid = Some(a.clone());
            p.client.authzid = z.clone();
            p.client.password = Some(pw);
            p.authid = Some(a);
            p.authzid = z;
        }
    }
    let special = |s: &str| s.chars().any(|c| matches!(c, '\0' | '\u{1}' | ',' | '=') || !c.is_ascii());
    if [&p.client.authid, &p.client.authzid, &p.client.token, &p.client.anon].into_iter().flatten().any(|s| special(s)) || !must {
        src.nontrivial();
    }
    src.note(|| {
        let c = &p.client;
        format!("{mech}: authid {:?} authzid {:?} password {:?} token {:?} kv {:?} anonymous {:?}", c.authid, c.authzid, c.password.as_ref().map(|x| show(x)), c.token, c.kv, c.anon)
    });
    let (mut c, _, mut s, log) = p.start();
    let d = drive(&mut c, &mut s);
    src.note(|| d.desc());
    wire(&p, &d)?;
    let v = validations(&log);
    if v.is_empty() {
        src.label("refused");
        ensure!(!must, "values-refused", "{mech}: these values can be carried, but the exchange failed: {}", d.desc());
        ensure!(d.failed() || !d.server_done, "values-unvalidated", "{mech}: the exchange went through without validation: {}", d.desc());
        return Ok(());
    }
    src.label("arrived");
    ensure!(v.len() == 1, "values-validations", "{mech}: {} validations", v.len());
    ensure!(p.shown(&v[0]), "values-changed", "{mech}: validation was shown {:?}, the client supplied authid {:?} authzid {:?} password {:?} token {:?} kv {:?} anonymous {:?} (after preparation)", v[0], p.authid, p.authzid, p.password, p.token, p.kv, p.anon);
    ensure!(d.complete(), "values-incomplete", "{mech}: validated, but the exchange ended with {}", d.desc());
    ensure!(s.validation() == Some(auto_value(&v[0])), "values-value", "{mech}: the validation value was not delivered");
    Ok(())
}

/// The messages of a client, as the specification of the mechanism has them for the values supplied, for any server.
fn wire(p: &Pairing, d: &Driven) -> R {
    let sent: Vec<&[u8]> = d.client.iter().filter(|o| o.running() || o.fin(true)).map(|o| o.bytes.as_slice()).collect();
    let c = &p.client;
    let mut want: Vec<Vec<u8>> = vec![];
    let t = |v: &Option<String>| v.clone().unwrap_or_default();
    let (mut can, authid) = (true, t(&c.authid));
    match p.mech {
        "PLAIN" => {
            let (z, pw) = (t(&c.authzid), c.password.clone().unwrap_or_default());
            can = !authid.is_empty() && !pw.is_empty() && !pw.contains(&0) && !authid.contains('\0') && !z.contains('\0');
            want.push([z.as_bytes(), b"\0", authid.as_bytes(), b"\0", &pw].concat());
        }
        "LOGIN" => want.extend([authid.into_bytes(), c.password.clone().unwrap_or_default()]),
        "EXTERNAL" => want.push(t(&c.authzid).into_bytes()),
        "ANONYMOUS" => want.push(t(&c.anon).into_bytes()),
        "XOAUTH2" => {
            let token = t(&c.token);
            can = !authid.contains('\u{1}') && !token.contains('\u{1}');
            want.push(format!("user={authid}\u{1}auth=Bearer {token}\u{1}\u{1}").into_bytes());
        }
        m if m.starts_with("SCRAM") => {
            let fits = |s: &str| !s.is_empty() && !s.contains('\0');
            let Some(first) = sent.first() else { return Ok(()) };
            ensure!(fits(&authid) && c.authzid.as_ref().map_or(true, |z| fits(z)), "values-sent", "{m}: the client sent {} for values its message cannot carry", show(first));
            let z = c.authzid.as_ref().map_or(String::new(), |z| format!("a={}", escape(z)));
            let rest = format!(",{z},n={},r=", escape(&authid));
            let at = first.iter().position(|b| *b == b',').unwrap_or(0);
            ensure!(first[at..].starts_with(rest.as_bytes()), "values-wire", "{m}: the client sent {}, its values make \u{2026}{rest}\u{2026}", show(first));
            return Ok(());
        }
        _ => return Ok(()),
    }
    ensure!(can || sent.is_empty(), "values-sent", "{}: the client sent {} for values its message cannot carry", p.mech, show(sent[0]));
    ensure!(sent.len() <= want.len(), "values-wire", "{}: the client sent {} messages", p.mech, sent.len());
    for (g, w) in sent.iter().zip(&want) {
        ensure!(g == w, "values-wire", "{}: the client sent {}, its values make {}", p.mech, show(g), show(w));
    }
    Ok(())
}

/* ------------------------------------------------------------------ C17 */

fn is_plus(mech: &str) -> bool {
    mech.ends_with("-PLUS")
}

fn c17_omit(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let accept = src.chance(3, 4);
    let mut p = pairing(src, mech, accept);
    let on_client = src.chance(2, 3);
    let mut required = vec![];
    let mut optional = vec![];
    if on_client {
        macro_rules! omit {
            ($f:ident, $req:expr) => {
                if p.client.$f.is_some() && src.flag() {
                    p.client.$f = None;
                    if $req {
                        required.push(stringify!($f));
                    } else {
                        optional.push(stringify!($f));
                    }
                }
            };
        }
        omit!(authid, true);
        omit!(password, true);
        omit!(token, true);
        omit!(authzid, false);
        omit!(kv, false);
        omit!(anon, false);
        if !p.client.take_errors || src.chance(1, 4) {
            p.client.take_cached = false;
        }
        if is_plus(mech) && src.flag() {
            p.ccb.0.clear();
            p.client.bindings.clear();
            required.push("channel bindings");
            src.label("bindings omitted");
        }
        if optional.contains(&"authzid") {
            p.authzid = None;
        }
        if optional.contains(&"kv") {
            p.kv = Some(vec![]);
        }
        if optional.contains(&"anon") {
            p.anon = Some(String::new());
        }
    } else {
        if mech.starts_with("SCRAM") && src.chance(1, 6) {
            p.server.users.clear();
            required.push("stored password");
        }
        if p.server.xval.is_some() && src.flag() {
            p.server.xval = None;
            required.push("token decision");
        }
        if p.server.oval.is_some() && src.flag() {
            p.server.oval = None;
            required.push("token decision");
        }
        if is_plus(mech) && src.flag() {
            p.scb.0.clear();
            p.server.bindings.clear();
            required.push("channel bindings");
            src.label("bindings omitted");
        }
    }
    if !optional.is_empty() {
        src.label("optional omitted");
    }
    if !required.is_empty() {
        src.label("required omitted");
    }
    if required.is_empty() && optional.is_empty() {
        src.label("nothing omitted");
    } else {
        src.nontrivial();
    }
    src.note(|| format!("{mech}: {} lacks required {required:?}, optional {optional:?}", if on_client { "client" } else { "server" }));
    let (mut c, _, mut s, log) = p.start();
    let d = drive(&mut c, &mut s);
    src.note(|| d.desc());
    let v = validations(&log);
    if required.is_empty() {
        return completed(&p, &d, &v, &mut s);
    }
    ensure!(v.is_empty(), "omitted-validated", "{mech} without {required:?}: validation was called with {:?}; {}", v[0], d.desc());
    let val = s.validation();
    ensure!(val.is_none(), "omitted-value", "{mech} without {required:?}: validation value {val:?}");
    if on_client {
        let last = d.client.last();
        ensure!(last.map_or(false, |o| o.res.is_err()), "omitted-continues", "{mech} client without {required:?} did not fail: {}", d.desc());
        ensure!(!d.client_done, "omitted-finished", "{mech} client without {required:?} finished: {}", d.desc());
    } else {
        // An unknown SCRAM user is refused like a wrong password; everything else is an error.
        let stored_only = required == ["stored password"];
        ensure!(!d.server.iter().any(|o| o.bytes.starts_with(b"v=")), "omitted-verifier", "{mech} server without {required:?} sent a verifier: {}", d.desc());
        let refused = d.server.last().map_or(false, |o| o.res.is_err() || (stored_only && o.fin(true) && o.bytes.starts_with(b"e=")));
        // the -PLUS server may also tell the client that the bindings do not match
        let refused = refused || (required.contains(&"channel bindings") && d.server.last().map_or(false, |o| o.fin(true) && o.bytes.starts_with(b"e=")));
        ensure!(refused, "omitted-continues", "{mech} server without {required:?} did not fail: {}", d.desc());
        ensure!(!(d.client_done && d.client.iter().all(|o| o.res.is_ok()) && mech.starts_with("SCRAM")), "omitted-client", "{mech}: the client finished: {}", d.desc());
    }
    Ok(())
}

/// The ordinary outcome of a pairing.
pub fn completed(p: &Pairing, d: &Driven, v: &[Ctx], s: &mut Sess) -> R {
    let mech = p.mech;
    let scram = mech.starts_with("SCRAM");
    if p.accept {
        ensure!(d.complete(), "exchange", "{mech}: the exchange did not complete: {}", d.desc());
        ensure!(v.len() == 1, "exchange", "{mech}: {} validations; {}", v.len(), d.desc());
        ensure!(p.shown(&v[0]), "exchange", "{mech}: validation was shown {:?} for {p:?}", v[0]);
        ensure!(s.validation() == Some(auto_value(&v[0])), "exchange", "{mech}: the validation value was not delivered");
    } else if scram {
        ensure!(v.is_empty() && s.validation().is_none(), "exchange", "{mech}: validated despite of a wrong key; {}", d.desc());
        ensure!(d.client.last().map_or(false, |o| o.res.is_err()), "exchange", "{mech}: the client did not fail: {}", d.desc());
    } else {
        ensure!(d.complete() && v.len() == 1, "exchange", "{mech}: the error exchange did not complete: {}", d.desc());
    }
    Ok(())
}

fn c17_error(src: &mut Src) -> R {
    let mech = *src.pick(&PAIRABLE);
    let accept = src.chance(1, 2);
    let mut p = pairing(src, mech, accept);
    let on_client = src.flag();
    let e = CbErr::any(src);
    let at = src.idx(if on_client { 7 } else { 3 });
    // client keys may also be supplied in another form
    if mech.starts_with("SCRAM") && on_client && src.chance(1, 3) {
        let u = p.server.users.values().next().unwrap().clone();
        let alg = alg_of(mech);
        p.client.salted = Some(alg.hi(p.client.password.as_ref().unwrap(), &u.salt, u.iterations));
    }
    if on_client {
        p.client.fail_at = Some((at, e));
    } else {
        p.server.fail_at = Some((at, e));
    }
    src.note(|| format!("{mech}: callback invocation {at} of the {} returns {e:?}", if on_client { "client" } else { "server" }));
    let (mut c, clog, mut s, slog) = p.start();
    let d = drive(&mut c, &mut s);
    src.note(|| d.desc());
    let log = if on_client { &clog } else { &slog };
    let hit: Option<(&'static str, Ctx)> = log.lock().unwrap().events.iter().filter_map(|e| if let Ev::Request(n, c) = e { Some((*n, c.clone())) } else { None }).nth(at);
    let v = validations(&slog);
    let Some((name, hit_ctx)) = hit else {
        return completed(&p, &d, &v, &mut s);
    };
    src.nontrivial();
    src.label(if on_client { "client error" } else { "server error" });
    // the offer of the keys for caching comes after the decision (one earlier request has the same name)
    let caching = name == "ScramCachedPassword" && requests(&clog, name).len() == 2 && log.lock().unwrap().calls == at + 1;
    if on_client && caching {
        return Ok(());
    }
    let outs = if on_client { &d.client } else { &d.server };
    if e == CbErr::NoValue {
        src.label("novalue");
        let optional = matches!(name, "AuthzId" | "OAuthBearerKV" | "AnonymousToken" | "OverrideCBType" | "ScramCachedPassword" | "SaltedPassword");
        let lookup = matches!(name, "ScramStoredPassword" | "ChannelBindings");
        if optional || lookup {
            // nothing more than the loss of this one value
            let mut q = p.clone();
            match name {
                "AuthzId" => q.authzid = None,
                "OAuthBearerKV" => q.kv = Some(vec![]),
                "AnonymousToken" => q.anon = Some(String::new()),
                _ => {}
            }
            if optional && name != "OverrideCBType" {
                return completed(&q, &d, &v, &mut s);
            }
            if let Some(v) = v.first() {
                let bindings = if on_client { &p.client.bindings } else { &p.server.bindings };
                let lost = name == "ChannelBindings" && bindings.iter().any(|b| Some(&b.0) == hit_ctx.cbname.as_ref());
                ensure!(name != "ScramStoredPassword" && !lost, "error-validated", "{mech}: NoValue for {name}, yet validated {v:?}");
                ensure!(q.shown(v), "error-values", "{mech}: NoValue for {name}; validation was shown {v:?} for {q:?}");
            }
            return Ok(());
        }
    }
    let last = outs.last();
    let Some(o) = last else { return harness_bug("a callback was called without a step") };
    ensure!(o.res.is_err(), "error-swallowed", "{mech}: the callback's {e:?} for {name} was swallowed: {}", d.desc());
    let (done, vals) = if on_client { (d.client_done, 0) } else { (d.server_done, v.len()) };
    ensure!(!done, "error-finished", "{mech}: finished although the callback returned {e:?} for {name}: {}", d.desc());
    ensure!(vals == 0 && s.validation().is_none() || on_client, "error-validated", "{mech}: validated although the callback returned {e:?} for {name}: {}", d.desc());
    if on_client {
        // the client did not go on, so nobody can have been authenticated by its later messages
        let sent = d.client.len() - 1;
        let need = match mech {
            "LOGIN" => 2,
            m if m.starts_with("SCRAM") => 2,
            _ => 1,
        };
        ensure!(v.is_empty() || sent >= need, "error-validated", "{mech}: validated although the client failed before: {}", d.desc());
    }
    let want = ekind(&e.make());
    let got = kind(&o.res);
    let ok = got == want || (e == CbErr::NoValue && matches!(got, "callback" | "nocallback" | "nocb"));
    ensure!(ok, "error-replaced", "{mech}: the callback returned {e:?} for {name} (kind {want}), the step returned {}", o.desc());
    if e.tells() {
        let text = format!("{:?}", o.res);
        ensure!(text.contains(CB_ERR), "error-replaced", "{mech}: the text of the callback's error is lost: {text}");
    }
    Ok(())
}

/* ------------------------------------------------------------------ C20 */

const RANKS: [&[&str]; 4] = [&["SCRAM-SHA-512", "SCRAM-SHA-256"], &["SCRAM-SHA-1"], &["PLAIN"], &["LOGIN"]];

fn c20_credentials(src: &mut Src) -> R {
    let authzid = opt(src, |s| text(s, TXT));
    let authid = text(src, TXT);
    let pw = text(src, TXT);
    let usable: Vec<&str> = RANKS.iter().flat_map(|r| r.iter().copied()).filter(|m| *m != "LOGIN" || authzid.is_none()).collect();
    let mut offer: Vec<&str> = vec![];
    for m in ["SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN", "LOGIN"] {
        if src.flag() {
            for _ in 0..1 + src.weighted(&[6, 1]) {
                offer.push(m);
            }
        }
    }
    let n = src.size(6);
    for _ in 0..n {
        offer.push(*src.pick(&[
            "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS", "EXTERNAL", "ANONYMOUS", "XOAUTH2", "OAUTHBEARER", "GSSAPI", "X", "PLAIN2", "PLAI", "LOGIN-X",
            "SCRAM-SHA-224", "SCRAM-SHA-512-PLU",
        ]));
    }
    src.shuffle(&mut offer);
    src.note(|| format!("authid {authid:?} authzid {authzid:?} password {pw:?} offer {offer:?}"));
    if authzid.is_some() {
        src.label("authzid");
    }
    let cfg = SASLConfig::with_credentials(authzid.clone(), authid.clone(), pw.clone()).map_err(|e| Fail { sig: "credentials-config".into(), msg: format!("with_credentials failed: {e:?}"), harness: false })?;
    let started = Sess::client(&cfg, &offer);
    let cands: Vec<&str> = offer.iter().copied().filter(|o| usable.contains(o)).collect();
    if cands.is_empty() {
        src.label("nothing usable");
        src.nontrivial();
        if let Ok(s) = started {
            return fail("credentials-select", format!("offer {offer:?} has no usable mechanism, but {} was started", s.mechname()));
        }
        return Ok(());
    }
    let best = RANKS.iter().find(|r| r.iter().any(|m| cands.contains(m))).unwrap();
    let mut c = match started {
        Ok(c) => c,
        Err(e) => return fail("credentials-select", format!("offer {offer:?}: {e:?}")),
    };
    let m = c.mechname();
    ensure!(cands.contains(&m.as_str()) && best.contains(&m.as_str()), "credentials-select", "offer {offer:?} authzid {authzid:?}: {m} was started, expected one of {best:?}");
    if cands.iter().any(|x| *x != m) {
        src.label("several");
        src.nontrivial();
    }
    if m == "LOGIN" {
        src.label("LOGIN only");
    }
    // and it uses exactly these values
    let mut script = Script::default();
    if m.starts_with("SCRAM") {
        let salt = src.bytes(6);
        script.users.insert(authid.clone(), alg_of(&m).stored(pw.as_bytes(), &salt, 2));
    }
    let (mut s, log) = server_of(&m, script);
    let d = drive(&mut c, &mut s);
    let v = validations(&log);
    let (mut want_id, mut want_pw) = (Some(authid.clone()), Some(pw.clone()));
    if m == "PLAIN" {
        (want_id, want_pw) = (prep(&authid), prep(&pw));
        if want_id.is_none() || want_pw.is_none() {
            ensure!(v.is_empty(), "credentials-values", "validated {v:?}");
            return Ok(());
        }
    }
    src.label("ran");
    ensure!(d.complete() && v.len() == 1, "credentials-run", "{m} with authid {authid:?} authzid {authzid:?} password {pw:?}: {}", d.desc());
    ensure!(v[0].authid == want_id && v[0].authz() == authzid.as_deref().unwrap_or(""), "credentials-values", "{m} with authid {authid:?} authzid {authzid:?}: validation was shown {:?}", v[0]);
    if !m.starts_with("SCRAM") {
        ensure!(v[0].password == want_pw.map(String::into_bytes), "credentials-values", "{m} with password {pw:?}: validation was shown {:?}", v[0]);
    }
    Ok(())
}

const DEFAULTS: [&str; 9] = ["SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER"];

fn c20_default(src: &mut Src) -> R {
    src.nontrivial();
    let (cb, log) = Cb::new(Script { cb_enabled: src.flag(), authid: Some("u".into()), password: Some(b"p".to_vec()), token: Some("t".into()), ..Script::default() });
    let explicit = src.flag();
    let b = SASLConfig::builder();
    let cfg = if explicit { b.with_default_mechanisms().with_callback(cb) } else { b.with_defaults().with_callback(cb) };
    let cfg = match cfg {
        Ok(c) => c,
        Err(e) => return fail("default-config", format!("{e:?}")),
    };
    let srv = SASLServer::<TestVal>::new(cfg.clone());
    let mut names: Vec<String> = srv.get_available().into_iter().map(|m| m.mechanism.as_str().to_string()).collect();
    names.sort();
    let mut uniq = names.clone();
    uniq.dedup();
    ensure!(uniq == names, "default-set", "listed twice: {names:?}");
    for d in DEFAULTS {
        ensure!(names.iter().any(|n| n == d), "default-set", "{d} is not available by default: {names:?}");
    }
    ensure!(!names.iter().any(|n| n.ends_with("-PLUS")), "default-set", "a mechanism that needs channel binding is available by default: {names:?}");
    // any single one of them can be started on both sides
    let d = *src.pick(&DEFAULTS);
    src.note(|| d.to_string());
    let c = Sess::client(&cfg, &["NOPE", d]);
    ensure!(c.as_ref().map_or(false, |c| c.mechname() == d), "default-start", "client of {d}: {:?}", c.err());
    let s = Sess::server(&cfg, d);
    ensure!(s.as_ref().map_or(false, |c| c.mechname() == d), "default-start", "server of {d}: {:?}", s.err());
    for no in ["NOPE", "SCRAM-SHA-256-PLUS"] {
        ensure!(Sess::server(&cfg, no).is_err(), "default-start", "server of {no} was started");
    }
    ensure!(log.lock().unwrap().calls == 0, "default-callback", "the callback was asked for values before any step");
    Ok(())
}

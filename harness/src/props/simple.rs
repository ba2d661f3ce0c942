//! C07, C15, C16, C25: the servers and clients of the mechanisms without a challenge, against
//! independently written parsers of their messages.
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use stringprep::saslprep;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "A case is one input for a PLAIN server: three generated fields (texts that SASLprep maps, empties or prohibits, raw bytes, wrong UTF-8, empty fields) joined by NUL, the same with fewer or more separators or damaged, or arbitrary bytes; a reference parser using SASLprep decides what must happen. Non-trivial: the input has at least one NUL (three fields or near misses).",
            assumptions: &["SASLprep is the stringprep crate's on both sides of the comparison; what is compared is where it is applied and what is refused"],
            suites: vec![suite("message", c07_message, 1_000_000, 6_000_000)],
            expect_labels: &["accepted", "mapped authid", "mapped password", "binary password", "empty after prep", "prohibited", "separators", "bad utf-8", "no input first"],
        },
        Prop {
            id: "C15",
            rule: "Suite server gives an OAUTHBEARER server a generated initial response (well-formed, from a list of malformations, or mutated) judged by an independent parser, with a generated decision of the callback, then any acknowledgement; suite client compares the client's initial response with the supplied values by that parser and then gives it no message, well-formed error objects (serialised with escapes, extra members, any member order) or malformed ones; suite pair runs both sides. Non-trivial: the message has the final separators or comes from the malformation list (server), a non-empty server message was given (client), or the pair exchanged an error (pair).",
            assumptions: &[
                "not judged: the 'y' channel-binding flag, repeated auth keys, keys that are not alphabetic, values outside the RFC's characters, an auth scheme other than 'Bearer ', repeated members and arrays in place of objects in error messages",
                "whether the acknowledgement is empty or the single byte 0x01 of RFC 7628 is not judged",
            ],
            suites: vec![suite("server", c15_server, 800_000, 4_000_000), suite("client", c15_client, 600_000, 3_000_000), suite("pair", c15_pair, 240_000, 1_200_000)],
            expect_labels: &["accepted", "rejected token", "malformed", "kv", "kv with =", "escaped authzid", "error taken", "error not taken", "malformed error", "json escapes", "mutation"],
        },
        Prop {
            id: "C16",
            rule: "Suite server gives an XOAUTH2 server a generated initial response (well-formed, malformed, mutated) judged by an independent parser, with a generated decision of the callback, then any acknowledgement; suite client checks the client's initial response byte by byte and gives it no message, error texts or invalid UTF-8; suite pair runs both sides. Non-trivial: a message with a separator (server), a non-empty server message (client), an exchange with an error (pair).",
            assumptions: &["empty user names and tokens may be accepted or refused"],
            suites: vec![suite("server", c16_server, 800_000, 4_000_000), suite("client", c16_client, 480_000, 2_400_000), suite("pair", c16_pair, 240_000, 1_200_000)],
            expect_labels: &["accepted", "rejected token", "malformed", "error taken", "error not taken", "not utf-8", "mutation"],
        },
        Prop {
            id: "C25",
            rule: "A case is one exchange of a LOGIN, EXTERNAL or ANONYMOUS server with arbitrary answers (texts, binary, wrong UTF-8, empty, none), with steps without input in between for LOGIN. Non-trivial: the answers are not all empty.",
            assumptions: &[],
            suites: vec![suite("login", c25_login, 600_000, 3_000_000), suite("single", c25_single, 600_000, 3_000_000)],
            expect_labels: &["bad utf-8", "binary password", "validated", "no message", "no input", "nul"],
        },
    ]
}

/* ------------------------------------------------------------------ C07 */

fn prep_text(src: &mut Src) -> String {
    match src.weighted(&[4, 2, 2]) {
        0 => text(src, TXT),
        1 => {
            // only characters SASLprep removes, maps to space, or composes
            let n = src.size(4);
            (0..n).map(|_| *src.pick(&['\u{00AD}', '\u{200B}', '\u{034F}', '\u{00A0}', '\u{3000}', '\u{FB01}', '\u{2168}', '\u{00AA}', 'I', 'x'])).collect()
        }
        _ => {
            let mut s = text(src, TXT);
            s.push(*src.pick(&['\u{7}', '\u{5d0}', '\u{627}', '\u{E000}', '\u{FFFD}', '\u{2028}', '\u{1D173}', '\u{E0001}', 'a', '\u{221}', '\u{7f}']));
            s
        }
    }
}
fn field(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[8, 2, 1, 1]) {
        0 => prep_text(src).into_bytes(),
        1 => {
            let n = src.size(8);
            (0..n).map(|_| 1 + src.below(255) as u8).collect()
        }
        2 => vec![],
        _ => {
            let mut v = prep_text(src).into_bytes();
            let n = src.idx(v.len() + 1);
            v.truncate(n);
            v.extend_from_slice(*src.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f", b"\xc0\x80"]));
            v
        }
    }
}

pub struct RefPlain {
    authzid: String,
    authid: String,
    password: Vec<u8>,
}
pub fn ref_plain(m: &[u8]) -> Option<RefPlain> {
    let f: Vec<&[u8]> = m.split(|b| *b == 0).collect();
    let [z, a, p] = f[..] else { return None };
    let authzid = std::str::from_utf8(z).ok()?.to_string();
    let authid = saslprep(std::str::from_utf8(a).ok()?).ok()?.into_owned();
    let password = match std::str::from_utf8(p) {
        Ok(t) => saslprep(t).ok()?.into_owned().into_bytes(),
        Err(_) => p.to_vec(),
    };
    (!authid.is_empty() && !password.is_empty()).then_some(RefPlain { authzid, authid, password })
}

/// The result of a step must be an error, nobody may have been validated.
pub fn refused(o: &Out, s: &mut Sess, log: &LogRef, sig: &str, what: &str) -> R {
    let v = validations(log);
    ensure!(v.is_empty(), sig, "{what}: validation was called with {:?}; step gave {}", v[0], o.desc());
    ensure!(o.res.is_err(), sig, "{what}: the step succeeded: {}", o.desc());
    let val = s.validation();
    ensure!(val.is_none(), sig, "{what}: a validation value exists: {val:?}");
    Ok(())
}

fn c07_message(src: &mut Src) -> R {
    let msg = match src.weighted(&[10, 3, 3, 1]) {
        0 => [field(src), field(src), field(src)].join(&0u8),
        1 => {
            src.label("separators");
            let n = src.idx(6);
            let f: Vec<Vec<u8>> = (0..n).map(|_| field(src)).collect();
            f.join(&0u8)
        }
        2 => {
            let m = [field(src), field(src), field(src)].join(&0u8);
            mutate(src, &m, &[])
        }
        _ => soup(src),
    };
    let expect = ref_plain(&msg);
    let (mut s, log) = server_of("PLAIN", Script::default());
    src.note(|| format!("message {}", show(&msg)));
    if msg.contains(&0) {
        src.nontrivial();
    }
    if src.chance(1, 8) {
        src.label("no input first");
        let o = s.step(None);
        ensure!(kind(&o.res) == "input", "no-input", "a step without input gave {}", o.desc());
    }
    let parts: Vec<&[u8]> = msg.split(|b| *b == 0).collect();
    if parts.len() == 3 {
        match (std::str::from_utf8(parts[0]), std::str::from_utf8(parts[1]), std::str::from_utf8(parts[2])) {
            (Ok(_), Ok(a), p) => {
                match saslprep(a) {
                    Ok(x) if x.is_empty() && !a.is_empty() => src.label("empty after prep"),
                    Ok(x) if x != a && expect.is_some() => src.label("mapped authid"),
                    Err(_) => src.label("prohibited"),
                    _ => {}
                }
                match p.map(saslprep) {
                    Ok(Ok(x)) if expect.is_some() && x.as_bytes() != parts[2] => src.label("mapped password"),
                    Err(_) if expect.is_some() => src.label("binary password"),
                    _ => {}
                }
            }
            _ => src.label("bad utf-8"),
        }
    }
    let o = s.step(Some(&msg));
    ensure!(o.bytes.is_empty(), "plain-output", "the server wrote {}", show(&o.bytes));
    match expect {
        None => refused(&o, &mut s, &log, "plain-accepts", &format!("message {} is not acceptable", show(&msg))),
        Some(e) => {
            src.label("accepted");
            ensure!(o.fin(false), "plain-refuses", "message {} is acceptable but the step gave {}", show(&msg), o.desc());
            let v = validations(&log);
            ensure!(v.len() == 1, "plain-validate", "{} validations for {}", v.len(), show(&msg));
            let want = Ctx { mech: "PLAIN".into(), server: true, authid: Some(e.authid), authzid: Some(e.authzid), password: Some(e.password), ..Ctx::default() };
            ensure!(v[0] == want, "plain-values", "message {}: validation saw {:?}, expected {:?}", show(&msg), v[0], want);
            ensure!(s.validation() == Some(auto_value(&want)), "plain-value", "the validation value was not delivered");
            Ok(())
        }
    }
}

/* ------------------------------------------------------------------ OAUTHBEARER messages */

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OMsg {
    pub authzid: Option<String>,
    pub token: String,
    pub kv: Kv,
}
#[derive(Clone, Debug)]
pub enum Judged {
    /// well-formed: must be parsed as this
    Must(OMsg),
    /// not judged, but never validated as anything else than one of these
    Either(Vec<OMsg>),
    MustNot(&'static str),
}
fn unescape_gs2(s: &str) -> Option<(String, bool)> {
    let mut out = String::new();
    let mut lower = false;
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '=' => {
                let (a, b) = (it.next()?, it.next()?);
                match (a, b) {
                    ('2', 'C') => out.push(','),
                    ('3', 'D') => out.push('='),
                    ('2', 'c') => {
                        out.push(',');
                        lower = true;
                    }
                    ('3', 'd') => {
                        out.push('=');
                        lower = true;
                    }
                    _ => return None,
                }
            }
            ',' => return None,
            c => out.push(c),
        }
    }
    Some((out, lower))
}
/// RFC 7628 section 3.1
pub fn judge_oauth(m: &[u8]) -> Judged {
    let Ok(t) = std::str::from_utf8(m) else { return Judged::MustNot("not UTF-8") };
    let mut strict = true;
    let Some(gs2_end) = t.find('\u{1}') else { return Judged::MustNot("no separator") };
    let (gs2, rest) = t.split_at(gs2_end);
    let Some(rest) = rest[1..].strip_suffix('\u{1}') else { return Judged::MustNot("no final separator") };
    // rest is *kvpair, each terminated by a separator
    let Some(rest) = rest.strip_suffix('\u{1}') else { return Judged::MustNot("no key/value pairs") };
    let g: Vec<&str> = gs2.split(',').collect();
    let [flag, a, end] = g[..] else { return Judged::MustNot("gs2 header") };
    if !end.is_empty() {
        return Judged::MustNot("gs2 header end");
    }
    match flag {
        "n" => {}
        "y" => strict = false,
        _ => return Judged::MustNot("gs2 flag"),
    }
    let authzid = if a.is_empty() {
        None
    } else {
        let Some(x) = a.strip_prefix("a=") else { return Judged::MustNot("authzid attribute") };
        let Some((x, lower)) = unescape_gs2(x) else { return Judged::MustNot("authzid escapes") };
        if lower || x.is_empty() || x.contains('\0') {
            strict = false;
        }
        Some(x)
    };
    let mut token: Vec<&str> = vec![];
    let mut kv: Kv = vec![];
    for p in rest.split('\u{1}') {
        let Some((k, v)) = p.split_once('=') else { return Judged::MustNot("pair without =") };
        if k == "auth" {
            token.push(v);
        } else {
            if k.is_empty() || !k.bytes().all(|b| b.is_ascii_alphabetic()) || k.eq_ignore_ascii_case("auth") {
                strict = false;
            }
            kv.push((k.to_string(), v.to_string()));
        }
        if !v.chars().all(|c| matches!(c, '\t' | '\n' | '\r' | ' '..='~')) {
            strict = false;
        }
    }
    if token.is_empty() {
        return Judged::MustNot("no token");
    }
    let mk = |t: &str| OMsg { authzid: authzid.clone(), token: t.to_string(), kv: kv.clone() };
    if token.len() == 1 && strict {
        if let Some(t) = token[0].strip_prefix("Bearer ") {
            if !t.is_empty() && !t.starts_with(' ') {
                return Judged::Must(mk(t));
            }
        }
    }
    // the raw value, and the value without its scheme
    let mut v = vec![];
    for t in token {
        v.push(mk(t));
        if let Some((scheme, rest)) = t.split_once(' ') {
            if scheme.eq_ignore_ascii_case("bearer") {
                v.push(mk(rest));
                v.push(mk(rest.trim_start()));
            }
        }
    }
    Judged::Either(v)
}

fn b64token(src: &mut Src) -> String {
    const C: &[u8] = b"abcdefghijABCDEFGHIJ0123456789-._~+/";
    if src.chance(1, 24) {
        return (*src.pick(&["null", "undefined", "none", "anonymous", "test", "0", "eyJhbGciOiJub25lIn0.e30.", "eyJhbGciOiJSUzI1NiJ9.eyJzdWIiOiJ4In0.c2ln", "Bearer", "bearer", "expired", "invalid_token", "-", "~", "auth", "n"])).to_string();
    }
    let n = if src.chance(1, 40) { boundary(src) } else { 1 + src.size(24) };
    let mut s: String = (0..n).map(|_| *src.pick(C) as char).collect();
    for _ in 0..src.idx(3) {
        s.push('=');
    }
    s
}
fn kv_value(src: &mut Src) -> String {
    if src.chance(1, 12) {
        // values as they occur, and notations a value might be taken for
        return (*src.pick(&[
            "example.com", "443", "POST", "/cgi-bin/x?a=b&c=d", "%20", "a%20b", "a%3Db", "a+b", "%", "%zz", "&amp;", "\\n", "\"x\"", "=2C", "=3D", "n,", "auth=Bearer x", "host=", "=", "==", "0", "null", "none", "", "*", "aHR0cA==", "https://example.com/?q=1#f", "[::1]", "a,b", "a;b", "Bearer x", "{}",
        ]))
        .to_string();
    }
    let n = if src.chance(1, 60) { boundary(src) } else { src.size(16) };
    (0..n)
        .map(|_| match src.weighted(&[4, 2, 1]) {
            0 => (b'a' + src.below(26) as u8) as char,
            1 => *src.pick(&['=', ',', ' ', '/', ':', '"', '?', '&', '\t', '\r', '\n', '%']),
            _ => (0x20 + src.below(95) as u8) as char,
        })
        .collect()
}
fn kv_key(src: &mut Src) -> String {
    match src.weighted(&[3, 3, 1]) {
        0 => (*src.pick(&["host", "port", "mthd", "path", "qs", "post"])).to_string(),
        1 => {
            let n = src.range(1, 6);
            (0..n).map(|_| (if src.flag() { b'a' } else { b'A' } + src.below(26) as u8) as char).filter(|_| true).collect()
        }
        _ => (*src.pick(&["authx", "aut", "xauth", "a", "user", "n"])).to_string(),
    }
}
pub fn kvs(src: &mut Src) -> Kv {
    let n = if src.chance(1, 48) { src.range(4, 200) } else { src.weighted(&[3, 3, 2, 1]) };
    (0..n).map(|_| (kv_key(src), kv_value(src))).filter(|(k, _)| !k.eq_ignore_ascii_case("auth")).collect()
}
fn gen_omsg(src: &mut Src) -> OMsg {
    OMsg { authzid: if src.flag() { Some(text(src, TXT)) } else { None }, token: b64token(src), kv: kvs(src) }
}
fn esc_gs2(s: &str) -> String {
    s.replace('=', "=3D").replace(',', "=2C")
}
fn encode_omsg(src: &mut Src, m: &OMsg) -> Vec<u8> {
    let mut pairs: Vec<String> = m.kv.iter().map(|(k, v)| format!("{k}={v}")).collect();
    let at = src.idx(pairs.len() + 1);
    pairs.insert(at, format!("auth=Bearer {}", m.token));
    format!("n,{},\u{1}{}\u{1}\u{1}", m.authzid.as_ref().map(|a| format!("a={}", esc_gs2(a))).unwrap_or_default(), pairs.join("\u{1}")).into_bytes()
}
fn malform_omsg(src: &mut Src, m: &OMsg) -> Vec<u8> {
    let a = m.authzid.as_ref().map(|a| format!("a={}", esc_gs2(a))).unwrap_or_default();
    let auth = format!("auth=Bearer {}", m.token);
    let v = match src.below(15) {
        0 => format!("n,{a},\u{1}{auth}\u{1}"),
        1 => format!("n,{a},\u{1}{auth}"),
        2 => format!("n,{a}\u{1}{auth}\u{1}\u{1}"),
        3 => format!("n,{a},x\u{1}{auth}\u{1}\u{1}"),
        4 => format!("n,{a},,\u{1}{auth}\u{1}\u{1}"),
        5 => format!("p=tls-unique,{a},\u{1}{auth}\u{1}\u{1}"),
        6 => format!("n,{a},\u{1}host=x\u{1}\u{1}"),
        7 => format!("n,{a},\u{1}{auth}\u{1}host\u{1}\u{1}"),
        8 => format!("n,a==,\u{1}{auth}\u{1}\u{1}"),
        9 => format!("n,a=b=2D,\u{1}{auth}\u{1}\u{1}"),
        10 => format!("n,u=bob,\u{1}{auth}\u{1}\u{1}"),
        11 => "\u{1}".to_string(),
        12 => "\u{1}\u{1}".to_string(),
        13 => format!("x,{a},\u{1}{auth}\u{1}\u{1}"),
        _ => format!("n,{a},\u{1}Auth{auth}\u{1}\u{1}"),
    };
    let mut v = v.into_bytes();
    if src.chance(1, 6) {
        // broken UTF-8 somewhere before the end
        let i = src.idx(v.len());
        v.insert(i, 0xff);
    }
    v
}

/// What servers say in practice; a server or client must not read anything into it.
const ANSWERS: &[&str] = &[
    "invalid_token", "invalid_request", "insufficient_scope", "invalid_grant", "expired_token", "temporarily_unavailable", "unauthorized_client", "access_denied", "slow_down", "200", "201", "302", "400", "401", "403", "500", "503", "0", "1",
    "ok", "OK", "success", "succeeded", "accepted", "valid", "active", "true", "false", "none", "null", "error", "*", "-", "mail.read", "openid profile", "https://mail.google.com/", "bearer", "https://example.com/.well-known/openid-configuration",
    "{\"status\":\"200\"}", "{\"status\":\"401\",\"schemes\":\"bearer\",\"scope\":\"https://mail.google.com/\"}", "{\"status\":\"400\",\"schemes\":\"Bearer\",\"scope\":\"x\"}", "{}", "[]", "eyJzdGF0dXMiOiI0MDEifQ==",
];
fn json_str(src: &mut Src) -> String {
    if src.chance(1, 6) {
        return (*src.pick(ANSWERS)).to_string();
    }
    if src.chance(1, 40) {
        let n = boundary(src);
        return long_text(src, n);
    }
    let n = src.size(20);
    (0..n)
        .map(|_| match src.weighted(&[5, 2, 1, 1]) {
            0 => (b'a' + src.below(26) as u8) as char,
            1 => *src.pick(&['"', '\\', '/', '\n', '\t', '\r', '\u{8}', '\u{c}', '{', '}', ':', ',', '_']),
            2 => *src.pick(&['ä', '中', '\u{1F600}', '\u{7f}', '\u{2028}', '\u{1}', '\u{0}', '\u{10FFFF}']),
            _ => (0x20 + src.below(95) as u8) as char,
        })
        .collect()
}
pub fn oerr(src: &mut Src) -> OErr {
    (
        if src.flag() { "invalid_token".into() } else { json_str(src) },
        if src.flag() { Some(json_str(src)) } else { None },
        if src.flag() { Some(json_str(src)) } else { None },
    )
}
pub fn needs_escape(e: &OErr) -> bool {
    let f = |s: &str| s.chars().any(|c| c == '"' || c == '\\' || (c as u32) < 0x20);
    f(&e.0) || e.1.as_deref().map_or(false, f) || e.2.as_deref().map_or(false, f)
}
/// The JSON object must be exactly this error.
pub fn json_is(b: &[u8], e: &OErr) -> Result<(), String> {
    let v: serde_json::Value = serde_json::from_slice(b).map_err(|x| format!("not JSON: {x}"))?;
    let mut want = serde_json::Map::new();
    want.insert("status".into(), e.0.clone().into());
    if let Some(s) = &e.1 {
        want.insert("scope".into(), s.clone().into());
    }
    if let Some(s) = &e.2 {
        want.insert("openid-configuration".into(), s.clone().into());
    }
    if v == serde_json::Value::Object(want.clone()) {
        Ok(())
    } else {
        Err(format!("{v} instead of {want:?}"))
    }
}

fn c15_server(src: &mut Src) -> R {
    let m = gen_omsg(src);
    let msg = match src.weighted(&[5, 3, 3, 1]) {
        0 => encode_omsg(src, &m),
        1 => {
            src.nontrivial();
            malform_omsg(src, &m)
        }
        2 => {
            src.label("mutation");
            let x = encode_omsg(src, &m);
            let y = malform_omsg(src, &m);
            mutate(src, &x, &[&y])
        }
        _ => soup(src),
    };
    let decision: Option<Result<(), OErr>> = match src.weighted(&[5, 5, 1]) {
        0 => Some(Ok(())),
        1 => Some(Err(oerr(src))),
        _ => None,
    };
    src.note(|| format!("message {} decision {decision:?}", show(&msg)));
    let (mut s, log) = server_of("OAUTHBEARER", Script { oval: decision.clone(), ..Script::default() });
    if src.chance(1, 8) {
        let o = s.step(None);
        ensure!(kind(&o.res) == "input" && o.bytes.is_empty(), "no-input", "a step without input gave {}", o.desc());
    }
    if msg.ends_with(b"\x01\x01") {
        src.nontrivial();
    }
    let judged = judge_oauth(&msg);
    let o = s.step(Some(&msg));
    let asked = requests(&log, "OAuthBearerValidate");
    let allowed = match &judged {
        Judged::MustNot(why) => {
            src.label("malformed");
            ensure!(asked.is_empty(), "oauth-malformed", "the callback was asked about the malformed message {} ({why})", show(&msg));
            ensure!(o.bytes.is_empty(), "oauth-malformed", "output for the malformed message {} ({why}): {}", show(&msg), o.desc());
            return refused(&o, &mut s, &log, "oauth-malformed", &format!("malformed message {} ({why})", show(&msg)));
        }
        Judged::Must(m) => vec![m.clone()],
        Judged::Either(v) => {
            if o.res.is_err() && decision.is_some() {
                return refused(&o, &mut s, &log, "oauth-validate", "a refused message");
            }
            v.clone()
        }
    };
    let ctx_of = |m: &OMsg| Ctx {
        mech: "OAUTHBEARER".into(),
        server: true,
        authzid: m.authzid.clone(),
        token: Some(m.token.clone()),
        kv: Some(m.kv.clone()),
        ..Ctx::default()
    };
    let fits = |c: &Ctx| allowed.iter().any(|m| *c == ctx_of(m) || (m.authzid.as_deref() == Some("") && *c == Ctx { authzid: None, ..ctx_of(m) }));
    if let Judged::Must(_) = judged {
        ensure!(asked.len() == 1, "oauth-refused", "the callback was asked {} times about the well-formed message {}: {}", asked.len(), show(&msg), o.desc());
        if m.authzid.as_deref().map_or(false, |a| a.contains([',', '='])) {
            src.label("escaped authzid");
        }
        if !m.kv.is_empty() {
            src.label("kv");
        }
        if m.kv.iter().any(|(_, v)| v.contains('=')) {
            src.label("kv with =");
        }
    }
    for c in &asked {
        ensure!(fits(c), "oauth-values", "message {}: the callback saw {c:?}", show(&msg));
    }
    let v = validations(&log);
    for c in &v {
        ensure!(fits(c), "oauth-values", "message {}: validation saw {c:?}", show(&msg));
    }
    match decision {
        None => refused(&o, &mut s, &log, "oauth-undecided", "a token nobody decided about"),
        Some(d) => {
            ensure!(v.len() == 1, "oauth-validate", "{} validations, step gave {}", v.len(), o.desc());
            ensure!(s.validation() == Some(auto_value(&v[0])), "oauth-validate", "the validation value was not delivered");
            match d {
                Ok(()) => {
                    src.label("accepted");
                    ensure!(o.fin(false) && o.bytes.is_empty(), "oauth-accepted", "accepted token: {}", o.desc());
                }
                Err(e) => {
                    src.label("rejected token");
                    ensure!(o.running(), "oauth-rejected", "rejected token: {}", o.desc());
                    if let Err(x) = json_is(&o.bytes, &e) {
                        return fail("oauth-error", format!("error object {e:?} was sent as {}: {x}", show(&o.bytes)));
                    }
                    let ack = match src.below(6) {
                        0 => Some(vec![]),
                        1 => Some(vec![1u8]),
                        2 => None,
                        // another try in the same exchange: the decision has been made
                        3 => Some(msg.clone()),
                        4 => Some(b"n,,\x01auth=Bearer other\x01\x01".to_vec()),
                        _ => Some(soup(src)),
                    };
                    let o = s.step(ack.as_deref());
                    ensure!(o.bytes.is_empty() && validations(&log).len() == 1 && requests(&log, "OAuthBearerValidate").len() == asked.len(), "oauth-ack", "after the acknowledgement {ack:?}: {}", o.desc());
                    let plain_ack = matches!(ack.as_deref(), Some(b"" | b"\x01"));
                    // garbage, or no message at all, may also be refused
                    ensure!(o.fin(false) || (!plain_ack && o.res.is_err()), "oauth-ack", "after the acknowledgement {ack:?}: {}", o.desc());
                }
            }
            Ok(())
        }
    }
}

fn json_text(src: &mut Src, s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '/' if src.chance(1, 3) => o.push_str("\\/"),
            '\n' if src.flag() => o.push_str("\\n"),
            c if (c as u32) < 0x20 || src.chance(1, 12) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if src.flag() {
                        o.push_str(&format!("\\u{u:04x}"));
                    } else {
                        o.push_str(&format!("\\u{u:04X}"));
                    }
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_error(src: &mut Src, e: &OErr) -> Vec<u8> {
    let mut members: Vec<String> = vec![];
    let ws = |src: &mut Src| (*src.pick(&["", "", "", " ", "\n", "\t"])).to_string();
    let mut add = |src: &mut Src, k: &str, v: String| {
        let k = if src.chance(1, 10) { json_text(src, k) } else { format!("\"{k}\"") };
        let (a, b, c) = (ws(src), ws(src), ws(src));
        members.push(format!("{a}{k}{b}:{c}{v}"));
    };
    let st = json_text(src, &e.0);
    add(src, "status", st);
    if let Some(s) = &e.1 {
        let t = json_text(src, s);
        add(src, "scope", t);
    }
    if let Some(s) = &e.2 {
        let t = json_text(src, s);
        add(src, "openid-configuration", t);
    }
    if src.chance(1, 4) {
        let v = (*src.pick(&["1", "null", "true", "[1,2]", "{\"a\":{}}", "\"x\\n\"", "-1.5e3"])).to_string();
        let k = *src.pick(&["schemes", "foo", "Status", "openid_config", ""]);
        add(src, k, v);
    }
    src.shuffle(&mut members);
    format!("{}{{{}}}{}", ws(src), members.join(","), ws(src)).into_bytes()
}
fn bad_json(src: &mut Src, good: &[u8], e: &OErr) -> Vec<u8> {
    let t = String::from_utf8_lossy(good).to_string();
    match src.below(14) {
        12 => (*src.pick(&[" ", "\r\n", "\t", "\n", "    ", "\0", "\u{feff}", "\x01", "\u{a0}", "\x0b", "\x0c"])).as_bytes().to_vec(),
        13 => {
            // only JSON's white space may stand around the object
            let w = *src.pick(&["\0", "\u{feff}", "\x01", "\u{a0}", "\x0b", "\x0c"]);
            if src.flag() { format!("{w}{t}") } else { format!("{t}{w}") }.into_bytes()
        }
        0 => good[..good.len() - 1 - good.iter().rev().take_while(|c| c.is_ascii_whitespace()).count()].to_vec(),
        1 => format!("{t}x").into_bytes(),
        2 => b"{}".to_vec(),
        3 => format!("{{\"scope\":{}}}", json_text(src, &e.0)).into_bytes(),
        4 => b"{\"status\":401}".to_vec(),
        5 => b"{\"status\":null}".to_vec(),
        6 => b"{\"status\":\"x\",\"scope\":1}".to_vec(),
        7 => b"null".to_vec(),
        8 => format!("{t}{t}").into_bytes(),
        9 => {
            let mut v = b"{\"status\":\"a\xffb\"}".to_vec();
            v.push(b' ');
            v
        }
        10 => b"{\"status\":\"a\nb\"}".to_vec(),
        _ => (*src.pick(&["{\"status\":\"\\x\"}", "{\"status\":\"\\ud800\"}", "{status:\"a\"}", "{'status':'a'}", "\"status\"", "invalid_token", "{\"status\":\"a\",}", "1"])).as_bytes().to_vec(),
    }
}

fn c15_client(src: &mut Src) -> R {
    let m = gen_omsg(src);
    let take = !src.chance(1, 4);
    let (mut s, log) = client_of(
        "OAUTHBEARER",
        Script { authzid: m.authzid.clone(), token: Some(m.token.clone()), kv: if m.kv.is_empty() && src.flag() { None } else { Some(m.kv.clone()) }, take_errors: take, ..Script::default() },
    );
    let o = s.step(None);
    ensure!(o.running(), "oauth-client-first", "supplied {m:?}: {}", o.desc());
    match judge_oauth(&o.bytes) {
        Judged::Must(x) if x == m => {}
        Judged::Either(x) if x.contains(&m) => {}
        j => return fail("oauth-client-first", format!("supplied {m:?}, sent {}: {j:?}", show(&o.bytes))),
    }
    let errs = |log: &LogRef| -> Vec<OErr> {
        log.lock().unwrap().events.iter().filter_map(|e| if let Ev::OError(a, b, c) = e { Some((a.clone(), b.clone(), c.clone())) } else { None }).collect()
    };
    match src.weighted(&[1, 5, 3]) {
        0 => {
            let i: Option<&[u8]> = if src.flag() { None } else { Some(b"") };
            let o = s.step(i);
            ensure!(o.fin(false) && o.bytes.is_empty(), "oauth-client-ok", "no error message: {}", o.desc());
            ensure!(errs(&log).is_empty(), "oauth-client-ok", "an error was reported without an error message");
        }
        1 => {
            let e = oerr(src);
            let j = json_error(src, &e);
            src.nontrivial();
            if needs_escape(&e) {
                src.label("json escapes");
            }
            src.note(|| format!("error {}", show(&j)));
            let o = s.step(Some(&j));
            if take {
                src.label("error taken");
                ensure!(errs(&log) == vec![e.clone()], "oauth-client-error", "error message {}: the user was given {:?}; {}", show(&j), errs(&log), o.desc());
                ensure!(o.fin(true) && matches!(&o.bytes[..], b"" | b"\x01"), "oauth-client-ack", "error message {} not acknowledged: {}", show(&j), o.desc());
            } else {
                src.label("error not taken");
                ensure!(o.res.is_err(), "oauth-client-ignored", "the user did not take the error {}: {}", show(&j), o.desc());
            }
        }
        _ => {
            let e = oerr(src);
            let j = json_error(src, &e);
            let j = bad_json(src, &j, &e);
            src.nontrivial();
            src.label("malformed error");
            src.note(|| format!("malformed error {}", show(&j)));
            let o = s.step(Some(&j));
            ensure!(o.res.is_err(), "oauth-client-malformed", "malformed error {}: {}", show(&j), o.desc());
            ensure!(errs(&log).is_empty(), "oauth-client-malformed", "malformed error {} reported as {:?}", show(&j), errs(&log));
        }
    }
    Ok(())
}

fn c15_pair(src: &mut Src) -> R {
    let m = gen_omsg(src);
    let decision: Result<(), OErr> = if src.flag() { Ok(()) } else { Err(oerr(src)) };
    let (mut c, clog) = client_of("OAUTHBEARER", Script { authzid: m.authzid.clone(), token: Some(m.token.clone()), kv: Some(m.kv.clone()), take_errors: true, ..Script::default() });
    let (mut s, log) = server_of("OAUTHBEARER", Script { oval: Some(decision.clone()), ..Script::default() });
    src.note(|| format!("{m:?} {decision:?}"));
    let a = c.step(None);
    ensure!(a.running(), "oauth-pair", "client: {}", a.desc());
    let b = s.step(Some(&a.bytes));
    ensure!(b.ok(), "oauth-pair", "server refused the client's {}: {}", show(&a.bytes), b.desc());
    let v = validations(&log);
    ensure!(v.len() == 1, "oauth-pair", "{} validations", v.len());
    ensure!(
        v[0].authzid == m.authzid && v[0].token.as_deref() == Some(&m.token) && v[0].kv.as_ref() == Some(&m.kv),
        "oauth-pair",
        "the client supplied {m:?}, validation saw {:?}",
        v[0]
    );
    match decision {
        Ok(()) => {
            ensure!(b.fin(false), "oauth-pair", "server: {}", b.desc());
            let d = c.step(if src.flag() { None } else { Some(b"") });
            ensure!(d.fin(false), "oauth-pair", "client: {}", d.desc());
        }
        Err(e) => {
            src.nontrivial();
            ensure!(b.running(), "oauth-pair", "server: {}", b.desc());
            let d = c.step(Some(&b.bytes));
            ensure!(d.fin(true), "oauth-pair", "client given {}: {}", show(&b.bytes), d.desc());
            let want = Ev::OError(e.0, e.1, e.2);
            ensure!(clog.lock().unwrap().events.contains(&want), "oauth-pair", "the client's user did not get {want:?}");
            let f = s.step(Some(&d.bytes));
            ensure!(f.fin(false) && f.bytes.is_empty(), "oauth-pair", "server: {}", f.desc());
        }
    }
    Ok(())
}

/* ------------------------------------------------------------------ XOAUTH2 */

/// (user, token) of a message in the documented format
pub fn ref_xoauth2(m: &[u8]) -> Option<(String, String)> {
    let t = std::str::from_utf8(m).ok()?;
    let t = t.strip_prefix("user=")?;
    let (u, t) = t.split_once('\u{1}')?;
    let t = t.strip_prefix("auth=Bearer ")?.strip_suffix("\u{1}\u{1}")?;
    if t.contains('\u{1}') {
        return None;
    }
    Some((u.to_string(), t.to_string()))
}
fn token_text(src: &mut Src) -> String {
    if src.flag() {
        b64token(src)
    } else {
        text(src, TXT)
    }
}

fn c16_server(src: &mut Src) -> R {
    let (u, t) = (text(src, Txt { empty: true, ..TXT }), token_text(src));
    let good = format!("user={u}\u{1}auth=Bearer {t}\u{1}\u{1}").into_bytes();
    let msg = match src.weighted(&[5, 4, 3, 1]) {
        0 => good,
        1 => {
            let v = match src.below(16) {
                0 => format!("user={u}\u{1}auth=Bearer {t}\u{1}"),
                1 => format!("user={u}\u{1}auth=Bearer {t}"),
                2 => format!("user={u}\u{1}auth={t}\u{1}\u{1}"),
                3 => format!("user={u}auth=Bearer {t}\u{1}\u{1}"),
                4 => format!("User={u}\u{1}auth=Bearer {t}\u{1}\u{1}"),
                5 => format!("{u}\u{1}auth=Bearer {t}\u{1}\u{1}"),
                6 => format!("user={u}\u{1}\u{1}auth=Bearer {t}\u{1}\u{1}"),
                7 => format!("user={u}\u{1}auth=Bearer {t}\u{1}x\u{1}\u{1}"),
                8 => format!("user={u}\u{1}auth=Bearer {t}\u{1}\u{1}\u{1}\u{1}"),
                9 => format!("user={u}\u{1}auth=Bearer{t}\u{1}\u{1}"),
                10 => format!("auth=Bearer {t}\u{1}user={u}\u{1}\u{1}"),
                11 => format!(" user={u}\u{1}auth=Bearer {t}\u{1}\u{1}"),
                12 => format!("user={u}\u{1}auth=Bearer {t}\u{1}\u{1}\n"),
                13 => format!("user={u}\u{1}auth=Bearer "),
                14 => format!("user={u}\u{1}auth=Bearer \u{1}"),
                _ => format!("user={u}"),
            };
            v.into_bytes()
        }
        2 => {
            src.label("mutation");
            mutate(src, &good, &[])
        }
        _ => soup(src),
    };
    let decision: Option<Result<(), String>> = match src.weighted(&[5, 5, 1]) {
        0 => Some(Ok(())),
        1 => Some(Err(json_str(src))),
        _ => None,
    };
    src.note(|| format!("message {} decision {decision:?}", show(&msg)));
    let (mut s, log) = server_of("XOAUTH2", Script { xval: decision.clone(), ..Script::default() });
    if src.chance(1, 8) {
        let o = s.step(None);
        ensure!(kind(&o.res) == "input" && o.bytes.is_empty(), "no-input", "a step without input gave {}", o.desc());
    }
    if msg.contains(&1) {
        src.nontrivial();
    }
    let o = s.step(Some(&msg));
    let asked = requests(&log, "XOAuth2Validate");
    let Some((u, t)) = ref_xoauth2(&msg) else {
        src.label("malformed");
        ensure!(asked.is_empty(), "xoauth2-malformed", "the callback was asked about the malformed message {}: {:?}", show(&msg), asked);
        ensure!(o.bytes.is_empty(), "xoauth2-malformed", "output for the malformed message {}: {}", show(&msg), o.desc());
        return refused(&o, &mut s, &log, "xoauth2-malformed", &format!("malformed message {}", show(&msg)));
    };
    if (u.is_empty() || t.is_empty()) && asked.is_empty() {
        return refused(&o, &mut s, &log, "xoauth2-empty", "a refused message");
    }
    let want = Ctx { mech: "XOAUTH2".into(), server: true, authid: Some(u), token: Some(t), ..Ctx::default() };
    ensure!(asked == vec![want.clone()], "xoauth2-values", "message {}: the callback was asked {asked:?}; {}", show(&msg), o.desc());
    let Some(d) = decision else { return refused(&o, &mut s, &log, "xoauth2-undecided", "a token nobody decided about") };
    let v = validations(&log);
    ensure!(v == vec![want.clone()], "xoauth2-validate", "message {}: validations {v:?}; {}", show(&msg), o.desc());
    ensure!(s.validation() == Some(auto_value(&want)), "xoauth2-validate", "the validation value was not delivered");
    match d {
        Ok(()) => {
            src.label("accepted");
            ensure!(o.fin(false) && o.bytes.is_empty(), "xoauth2-accepted", "accepted token: {}", o.desc());
        }
        Err(e) => {
            src.label("rejected token");
            ensure!(o.running() && o.bytes == e.as_bytes(), "xoauth2-rejected", "error text {e:?}: {}", o.desc());
            let ack = match src.below(5) {
                0 => Some(vec![]),
                1 => None,
                // another try in the same exchange: the decision has been made
                2 => Some(msg.clone()),
                3 => Some(b"user=other\x01auth=Bearer other\x01\x01".to_vec()),
                _ => Some(soup(src)),
            };
            let o = s.step(ack.as_deref());
            ensure!(o.bytes.is_empty() && validations(&log).len() == 1 && requests(&log, "XOAuth2Validate").len() == 1, "xoauth2-ack", "after the acknowledgement {ack:?}: {}", o.desc());
            ensure!(o.fin(false) || (ack != Some(vec![]) && o.res.is_err()), "xoauth2-ack", "after the acknowledgement {ack:?}: {}", o.desc());
        }
    }
    Ok(())
}

fn xerrs(log: &LogRef) -> Vec<String> {
    log.lock().unwrap().events.iter().filter_map(|e| if let Ev::XError(a) = e { Some(a.clone()) } else { None }).collect()
}

fn c16_client(src: &mut Src) -> R {
    let (u, t) = (text(src, TXT), token_text(src));
    let take = !src.chance(1, 4);
    let (mut s, log) = client_of("XOAUTH2", Script { authid: Some(u.clone()), token: Some(t.clone()), take_errors: take, authzid: opt(src, |s| text(s, TXT)), ..Script::default() });
    let o = s.step(None);
    let want = format!("user={u}\u{1}auth=Bearer {t}\u{1}\u{1}").into_bytes();
    ensure!(o.running() && o.bytes == want, "xoauth2-client-first", "user {u:?} token {t:?}: {}", o.desc());
    match src.weighted(&[1, 4, 2]) {
        0 => {
            let i: Option<&[u8]> = if src.flag() { None } else { Some(b"") };
            let o = s.step(i);
            ensure!(o.fin(false) && o.bytes.is_empty() && xerrs(&log).is_empty(), "xoauth2-client-ok", "no error message: {}", o.desc());
        }
        1 => {
            let mut e = json_str(src);
            if e.is_empty() {
                e.push('x');
            }
            src.nontrivial();
            src.note(|| format!("error {e:?}"));
            let o = s.step(Some(e.as_bytes()));
            if take {
                src.label("error taken");
                ensure!(xerrs(&log) == vec![e.clone()], "xoauth2-client-error", "error {e:?}: the user was given {:?}", xerrs(&log));
                ensure!(o.fin(true) && o.bytes.is_empty(), "xoauth2-client-ack", "error {e:?}: {}", o.desc());
            } else {
                src.label("error not taken");
                ensure!(o.res.is_err(), "xoauth2-client-ignored", "the user did not take the error {e:?}: {}", o.desc());
            }
        }
        _ => {
            let mut e = json_str(src).into_bytes();
            let i = src.idx(e.len() + 1);
            e.insert(i, *src.pick(&[0xffu8, 0xc3, 0xed, 0x80]));
            if std::str::from_utf8(&e).is_ok() {
                return Ok(());
            }
            src.label("not utf-8");
            src.nontrivial();
            let o = s.step(Some(&e));
            ensure!(o.res.is_err() && xerrs(&log).is_empty(), "xoauth2-client-utf8", "error {}: {}", show(&e), o.desc());
        }
    }
    Ok(())
}

fn c16_pair(src: &mut Src) -> R {
    let (u, t) = (text(src, TXT), token_text(src));
    let decision: Result<(), String> = if src.flag() { Ok(()) } else { Err(format!("e{}", json_str(src))) };
    let (mut c, clog) = client_of("XOAUTH2", Script { authid: Some(u.clone()), token: Some(t.clone()), take_errors: true, ..Script::default() });
    let (mut s, log) = server_of("XOAUTH2", Script { xval: Some(decision.clone()), ..Script::default() });
    let a = c.step(None);
    let b = s.step(Some(&a.bytes));
    let v = validations(&log);
    ensure!(v.len() == 1 && v[0].authid.as_deref() == Some(&u) && v[0].token.as_deref() == Some(&t), "xoauth2-pair", "user {u:?} token {t:?}: validations {v:?}; {}", b.desc());
    match decision {
        Ok(()) => {
            ensure!(b.fin(false), "xoauth2-pair", "server: {}", b.desc());
            let d = c.step(if src.flag() { None } else { Some(b"") });
            ensure!(d.fin(false), "xoauth2-pair", "client: {}", d.desc());
        }
        Err(e) => {
            src.nontrivial();
            ensure!(b.running(), "xoauth2-pair", "server: {}", b.desc());
            let d = c.step(Some(&b.bytes));
            ensure!(d.fin(true) && xerrs(&clog) == vec![e.clone()], "xoauth2-pair", "client given {e:?}: {} {:?}", d.desc(), xerrs(&clog));
            let f = s.step(Some(&d.bytes));
            ensure!(f.fin(false) && f.bytes.is_empty(), "xoauth2-pair", "server: {}", f.desc());
        }
    }
    Ok(())
}

/* ------------------------------------------------------------------ C25 */

fn answer(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[6, 2, 2, 1]) {
        0 => text(src, Txt { nul: true, soh: true, empty: true, ..TXT }).into_bytes(),
        1 => {
            let n = src.size(40);
            src.bytes(n)
        }
        2 => field(src),
        _ => {
            let n = src.range(200, 2000);
            vec![b'x'; n]
        }
    }
}
fn ctx(mech: &str) -> Ctx {
    Ctx { mech: mech.into(), server: true, ..Ctx::default() }
}

fn c25_login(src: &mut Src) -> R {
    let (u, p) = (answer(src), answer(src));
    src.note(|| format!("user {} password {}", show(&u), show(&p)));
    if !u.is_empty() || !p.is_empty() {
        src.nontrivial();
    }
    let (mut s, log) = server_of("LOGIN", Script::default());
    ensure!(s.first(), "login-first", "LOGIN servers speak first");
    let o = s.step(None);
    ensure!(o.running() && o.bytes == b"User Name\0", "login-prompt", "first step: {}", o.desc());
    if src.chance(1, 6) {
        src.label("no input");
        let o = s.step(None);
        ensure!(kind(&o.res) == "input" && o.bytes.is_empty(), "no-input", "a step without input gave {}", o.desc());
    }
    let o = s.step(Some(&u));
    let Ok(user) = std::str::from_utf8(&u) else {
        src.label("bad utf-8");
        return refused(&o, &mut s, &log, "login-utf8", &format!("user name {}", show(&u)));
    };
    ensure!(o.running() && o.bytes == b"Password\0", "login-prompt", "user name {}: {}", show(&u), o.desc());
    ensure!(validations(&log).is_empty(), "login-early", "validated before the password was sent");
    if src.chance(1, 6) {
        src.label("no input");
        let o = s.step(None);
        ensure!(kind(&o.res) == "input" && o.bytes.is_empty(), "no-input", "a step without input gave {}", o.desc());
    }
    if std::str::from_utf8(&p).is_err() {
        src.label("binary password");
    }
    if u.contains(&0) || p.contains(&0) {
        src.label("nul");
    }
    let o = s.step(Some(&p));
    ensure!(o.fin(false) && o.bytes.is_empty(), "login-end", "password {}: {}", show(&p), o.desc());
    let want = Ctx { authid: Some(user.to_string()), password: Some(p.clone()), ..ctx("LOGIN") };
    let v = validations(&log);
    ensure!(v.len() == 1, "login-validate", "{} validations", v.len());
    ensure!(v[0] == want || v[0] == Ctx { authzid: Some(String::new()), ..want.clone() }, "login-values", "validation saw {:?}, expected {want:?}", v[0]);
    ensure!(s.validation() == Some(auto_value(&v[0])), "login-value", "the validation value was not delivered");
    src.label("validated");
    Ok(())
}

fn c25_single(src: &mut Src) -> R {
    let m = *src.pick(&["EXTERNAL", "ANONYMOUS"]);
    let a = answer(src);
    let none = src.chance(1, 8);
    let (mut s, log) = server_of(m, Script::default());
    src.note(|| format!("{m}: {}", if none { "no message".into() } else { show(&a) }));
    let o = s.step(if none { None } else { Some(&a) });
    ensure!(o.bytes.is_empty(), "single-output", "{m} wrote {}", o.desc());
    let a: &[u8] = if none {
        src.label("no message");
        b""
    } else {
        &a
    };
    if !a.is_empty() {
        src.nontrivial();
    }
    let Ok(t) = std::str::from_utf8(a) else {
        src.label("bad utf-8");
        return refused(&o, &mut s, &log, "single-utf8", &format!("{m} with {}", show(a)));
    };
    ensure!(o.fin(false), "single-end", "{m} with {}: {}", show(a), o.desc());
    let mut want = ctx(m);
    if m == "EXTERNAL" {
        want.authzid = Some(t.to_string());
    } else {
        want.anon = Some(t.to_string());
    }
    let v = validations(&log);
    ensure!(v == vec![want.clone()], "single-values", "{m} with {}: validations {v:?}", show(a));
    ensure!(s.validation() == Some(auto_value(&want)), "single-value", "the validation value was not delivered");
    src.label("validated");
    Ok(())
}

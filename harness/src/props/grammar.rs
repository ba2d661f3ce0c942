//! C27: SCRAM messages are accepted exactly when they are well-formed, judged by a three-valued reference
//! parser of RFC 5802 section 7.
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::scramref::*;
use std::collections::HashMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "A case is one SCRAM message built attribute by attribute from the RFC 5802 grammar (odd but legal values, optional extensions), left alone or reshaped (values bent at their edges, attributes dropped, doubled, exchanged, inserted, renamed, bytes damaged), given to a server as first or final message or to a client as first or final message. The proof and verifier are computed over what is actually sent, so only the form decides. A reference parser says accept, refuse or not specified. Non-trivial: the reference accepts or refuses a message that is not the plain one a reference peer would send.",
        assumptions: &[
            "not judged: empty nonces, nonces of a server with unusual characters, empty salts, iteration counts with '+' or leading zeros, base64 with bits set that do not count, extensions named like a known attribute or with values that are not UTF-8 or contain NUL, and malformed extensions in a client's final message",
            "iteration counts between 20001 and 4294967295 are not run",
        ],
        suites: vec![
            suite("client-first", client_first, 400_000, 4_000_000),
            suite("client-final", client_final, 200_000, 2_000_000),
            suite("server-first", server_first, 200_000, 2_000_000),
            suite("server-final", server_final, 200_000, 2_000_000),
        ],
        expect_labels: &["accepted", "refused", "not specified", "extension accepted", "flag p", "authzid", "bad nonce", "bad name", "bad flag", "bad extension"],
    }]
}

/// What the grammar says about a message.
enum Judge<T> {
    Accept(T),
    Refuse(&'static str),
    Unspecified,
}

/// The optional extensions after the known attributes: None if not specified.
fn extensions(parts: &[&[u8]]) -> Judge<usize> {
    let mut open = false;
    for p in parts {
        match p {
            [b'm', b'=', ..] => return Judge::Refuse("mandatory extension"),
            [n, b'=', v @ ..] if n.is_ascii_alphabetic() && !v.is_empty() => {
                if b"anrcsipve".contains(n) || v.contains(&0) || std::str::from_utf8(v).is_err() {
                    open = true;
                }
            }
            _ => return Judge::Refuse("bad extension"),
        }
    }
    if open {
        Judge::Unspecified
    } else {
        Judge::Accept(parts.len())
    }
}
fn printable(n: &[u8]) -> bool {
    n.iter().all(|b| matches!(b, 0x21..=0x2b | 0x2d..=0x7e))
}
fn split(m: &[u8]) -> Vec<&[u8]> {
    m.split(|b| *b == b',').collect()
}

struct First {
    flag: Flag,
    authzid: Option<String>,
    user: String,
    nonce: String,
    exts: usize,
    gs2: Vec<u8>,
    bare: Vec<u8>,
}
fn judge_client_first(m: &[u8]) -> Judge<First> {
    use Judge::Refuse;
    let p = split(m);
    let flag = match p[0] {
        b"n" => Flag::N,
        b"y" => Flag::Y,
        [b'p', b'=', n @ ..] if !n.is_empty() && n.iter().all(|b| b.is_ascii_alphanumeric() || *b == b'.' || *b == b'-') => Flag::P(String::from_utf8(n.to_vec()).unwrap()),
        _ => return Refuse("bad flag"),
    };
    if p.len() < 4 {
        return Refuse("missing attribute");
    }
    let authzid = match p[1] {
        [] => None,
        [b'a', b'=', n @ ..] => match unescape(n) {
            Some(n) => Some(n),
            None => return Refuse("bad name"),
        },
        _ => return Refuse("bad authzid"),
    };
    let user = match p[2] {
        [b'm', b'=', ..] => return Refuse("mandatory extension"),
        [b'n', b'=', n @ ..] => match unescape(n) {
            Some(n) => n,
            None => return Refuse("bad name"),
        },
        _ => return Refuse("missing attribute"),
    };
    let nonce = match p[3] {
        [b'r', b'=', n @ ..] => n,
        _ => return Refuse("missing attribute"),
    };
    if !printable(nonce) {
        return Refuse("bad nonce");
    }
    let exts = match extensions(&p[4..]) {
        Judge::Accept(n) => n,
        Refuse(r) => return Refuse(r),
        Judge::Unspecified => return Judge::Unspecified,
    };
    if nonce.is_empty() {
        return Judge::Unspecified;
    }
    let gs2 = [p[0], b",", p[1], b","].concat();
    let bare = m[gs2.len()..].to_vec();
    Judge::Accept(First { flag, authzid, user, nonce: String::from_utf8(nonce.to_vec()).unwrap(), exts, gs2, bare })
}

/* ---------------------------------------------------------------- generators */

/// Bytes around the limits of the character classes of the grammar.
const EDGES: &[u8] = b"a0Z.-_ ,=\n\r\t\x00\x01\x1f\x7f\x80\xc3\xff!+/~\"@[`{n/:";

/// A value of an attribute that the grammar allows: UTF-8 without NUL and ','.
fn value(src: &mut Src) -> Vec<u8> {
    match src.below(5) {
        0 => b"1".to_vec(),
        1 => word(src, 12).into_bytes(),
        2 => (*src.pick(&["=", "a=b==", "\u{e9}\u{4e2d}", "\u{1}\u{7f}", " ", "=2C", "m=1", "p=AAAA", "\u{10ffff}"])).as_bytes().to_vec(),
        _ => text(src, Txt { max: 16, soh: true, nul: false, empty: false }).replace(',', ";").into_bytes(),
    }
}
fn ext(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[12, 1, 1, 1, 1]) {
        0 => {
            let n = *src.pick(b"xtqzyAMNRPbkw");
            let v = value(src);
            [&[n, b'='], &v[..]].concat()
        }
        1 => {
            let n = *src.pick(b"anrcsipve");
            let v = value(src);
            [&[n, b'='], &v[..]].concat()
        }
        2 => [b"m=", &value(src)[..]].concat(),
        3 => (*src.pick(&[&b""[..], b"x", b"x=", b"=", b"=x", b"xy=1", b"1=1", b"-=1", b" x=1", b"x =1", b"m", b"m=", b"X", b"\xc3\xa9=1", b"x=\xff", b"x=\0", b"@=1", b"[=1", b"`=1", b"{=1"])).to_vec(),
        _ => {
            let n = src.below(256) as u8;
            vec![n, *src.pick(b"=:;"), b'1']
        }
    }
}
fn exts(src: &mut Src) -> Vec<Vec<u8>> {
    let n = src.weighted(&[5, 3, 2, 1]);
    (0..n).map(|_| ext(src)).collect()
}
/// One change to a list of attributes.
fn reshape(src: &mut Src, p: &mut Vec<Vec<u8>>) {
    let i = src.idx(p.len());
    match src.below(13) {
        12 => {
            // what line-based peers leave at the end of a message or of a part
            let i = if src.flag() { p.len() - 1 } else { i };
            let t = *src.pick(&[&b"\n"[..], b"\r\n", b"\r", b" ", b"\t", b"\0", b"=", b"==", b"\xc2\xa0"]);
            p[i].extend_from_slice(t);
        }
        0..=3 => {
            let joints = [2, p[i].len()];
            p[i] = bend(src, &p[i], &joints, EDGES);
        }
        4 => {
            // one byte of a value replaced or put in, often of the nonce
            let i = if src.flag() { p.iter().position(|x| x.starts_with(b"r=")).unwrap_or(i) } else { i };
            let b = if src.flag() { *src.pick(EDGES) } else { src.below(256) as u8 };
            let k = src.idx(p[i].len() + 1);
            if src.flag() && k < p[i].len() {
                p[i][k] = b;
            } else {
                p[i].insert(k, b);
            }
        }
        5 => {
            p.remove(i);
        }
        6 => {
            let x = p[i].clone();
            let k = src.idx(p.len() + 1);
            p.insert(k, x);
        }
        7 => {
            let k = src.idx(p.len());
            p.swap(i, k);
        }
        8 => {
            let k = src.idx(p.len() + 1);
            let e = ext(src);
            p.insert(k, e);
        }
        9 => {
            // another name
            let n = *src.pick(b"anrcsipvemNRACPxy= ");
            if let Some(b) = p[i].first_mut() {
                *b = n;
            }
        }
        10 => {
            // the value cut
            let k = p[i].len().min(2);
            let n = k + src.idx(p[i].len() - k + 1);
            p[i].truncate(n);
        }
        _ => {
            let m = mutate(src, &p.join(&b','), &[]);
            *p = m.split(|b| *b == b',').map(<[u8]>::to_vec).collect();
        }
    }
    if p.is_empty() {
        p.push(vec![]);
    }
}
fn maybe_reshape(src: &mut Src, p: &mut Vec<Vec<u8>>) -> bool {
    let n = src.weighted(&[3, 4, 1]);
    for _ in 0..n {
        reshape(src, p);
    }
    n > 0
}
fn name(src: &mut Src) -> Vec<u8> {
    if src.chance(1, 6) {
        return (*src.pick(&[&b"=2C"[..], b"=3D", b"=3D2C", b"=2C=2C", b"=3D=3D", b"a=3D", b"\xc3\xa9=2C\xc3\xa9", b"n=3Dx", b"\x01\x7f", b" ", b"=3D3D"])).to_vec();
    }
    escape(&text(src, Txt { max: 20, soh: true, nul: false, empty: false })).into_bytes()
}

fn small(src: &mut Src) -> (Alg, Vec<u8>, Vec<u8>, u32) {
    let alg = *src.pick(&ALGS);
    let pw = word(src, 8).into_bytes();
    let s = salt(src);
    (alg, pw, s, 1 + src.below(4) as u32)
}

/// Nothing but an error may come of a refused message.
fn refused(out: &Out, log: &LogRef, sess: &mut Sess, sig: &str, what: &str) -> R {
    ensure!(out.res.is_err() || (out.fin(true) && out.bytes.starts_with(b"e=")), sig, "{what}: {}", out.desc());
    ensure!(validations(log).is_empty() && (matches!(sess, Sess::C(_)) || sess.validation().is_none()), sig, "{what}: validated");
    Ok(())
}

/* ---------------------------------------------------------------- client-first */

fn client_first(src: &mut Src) -> R {
    let (alg, pw, salt, iterations) = small(src);
    let cbn = cbname(src);
    let flag = *src.pick(&["n", "y", "p"]);
    let flag = if flag == "p" { format!("p={cbn}") } else { flag.to_string() };
    let az = if src.chance(2, 5) { [b"a=", &name(src)[..]].concat() } else { vec![] };
    let n = name(src);
    let nn = match src.below(20) {
        0 => {
            let n = boundary(src);
            let piece: String = nonce(src).chars().take(40).collect();
            piece.repeat(n)[..n].to_string()
        }
        _ => nonce(src),
    };
    let mut p: Vec<Vec<u8>> = vec![flag.into_bytes(), az, [b"n=", &n[..]].concat(), format!("r={nn}").into_bytes()];
    let e = exts(src);
    let special = !e.is_empty();
    p.extend(e);
    let special = maybe_reshape(src, &mut p) || special;
    let m = p.join(&b',');
    let plus = m.starts_with(b"p=");
    let mech = alg.mech(plus);
    // the data is there whatever the name looks like
    let cbdata = src.bytes(7);
    let cb = if plus { ProtoCb(vec![(String::from_utf8_lossy(split(&m)[0].get(2..).unwrap_or(b"")).into_owned(), cbdata.clone())]) } else { ProtoCb::default() };
    let judged = judge_client_first(&m);
    let mut script = Script::default();
    let stored = alg.stored(&pw, &salt, iterations);
    match &judged {
        Judge::Accept(f) => {
            script.users.insert(f.user.clone(), stored.clone());
        }
        _ => {
            // the user exists by whatever name might be read
            script.users.insert(String::from_utf8_lossy(&n).into_owned(), stored.clone());
            if let Some(n) = unescape(&n) {
                script.users.insert(n, stored.clone());
            }
        }
    }
    let (mut srv, log) = server_of_cb(mech, script, cb);
    let o1 = srv.step(Some(&m));
    src.note(|| format!("C: {}\nS: {}", show(&m), o1.desc()));
    let f = match judged {
        Judge::Unspecified => {
            src.label("not specified");
            return Ok(());
        }
        Judge::Refuse(why) => {
            src.label("refused");
            src.label(why);
            src.nontrivial();
            let what = format!("client-first-message {} ({why}) at {mech}", show(&m));
            ensure!(o1.res.is_err() && o1.bytes.is_empty(), "scram-grammar-first", "{what} was accepted: {}", o1.desc());
            ensure!(matches!(ekind(o1.res.as_ref().unwrap_err()), "mech"), "scram-grammar-class", "{what} is reported as {}", o1.desc());
            ensure!(log.lock().unwrap().events.is_empty(), "scram-grammar-first", "{what}: the user was asked for {:?}", log.lock().unwrap().events);
            return Ok(());
        }
        Judge::Accept(f) => f,
    };
    src.label("accepted");
    if f.exts > 0 {
        src.label("extension accepted");
    }
    if plus {
        src.label("flag p");
    }
    if f.authzid.is_some() {
        src.label("authzid");
    }
    if special {
        src.nontrivial();
    }
    let what = format!("client-first-message {} at {mech}", show(&m));
    ensure!(o1.running(), "scram-grammar-first", "well-formed {what} was refused: {}", o1.desc());
    let want = format!("r={}", f.nonce);
    ensure!(o1.bytes.starts_with(want.as_bytes()), "scram-grammar-first", "{what} was answered with {}", show(&o1.bytes));
    for r in requests(&log, "ScramStoredPassword") {
        ensure!(r.authid.as_deref() == Some(&f.user) && r.authz() == f.authzid.as_deref().unwrap_or(""), "scram-grammar-identity", "{what}: looked up {r:?}");
    }
    // and the exchange can be completed
    let parts = split(&o1.bytes);
    let mut cbin = f.gs2.clone();
    if let Flag::P(_) = f.flag {
        cbin.extend_from_slice(&cbdata);
    }
    let without = [b"c=", b64(&cbin).as_bytes(), b",", parts[0]].concat();
    let auth = [&f.bare[..], b",", &o1.bytes, b",", &without].concat();
    let keys = alg.keys(&alg.hi(&pw, &salt, iterations));
    let proof = xor(&keys.0, &alg.hmac(&alg.h(&keys.0), &auth));
    let fin = [&without[..], b",p=", b64(&proof).as_bytes()].concat();
    let o2 = srv.step(Some(&fin));
    src.note(|| format!("C: {}\nS: {}", show(&fin), o2.desc()));
    let want = format!("v={}", b64(&alg.hmac(&keys.1, &auth)));
    ensure!(o2.fin(true) && o2.bytes == want.as_bytes(), "scram-grammar-first", "after {what} a correct final message ended with {}", o2.desc());
    let v = validations(&log);
    ensure!(v.len() == 1 && v[0].authid.as_deref() == Some(&f.user) && v[0].authz() == f.authzid.as_deref().unwrap_or(""), "scram-grammar-identity", "{what}: validated {v:?}");
    Ok(())
}

/* ---------------------------------------------------------------- client-final */

fn client_final(src: &mut Src) -> R {
    let (alg, pw, salt, iterations) = small(src);
    let stored = alg.stored(&pw, &salt, iterations);
    let keys = alg.keys(&alg.hi(&pw, &salt, iterations));
    let n = nonce(src);
    let mech = alg.mech(false);
    let (mut srv, log) = server_of(mech, Script { users: HashMap::from([("u".to_string(), stored)]), ..Script::default() });
    let first = format!("n,,n=u,r={n}");
    let o1 = srv.step(Some(first.as_bytes()));
    if !o1.running() {
        return Ok(());
    }
    let r = split(&o1.bytes)[0].to_vec();
    let mut p: Vec<Vec<u8>> = vec![b"c=biws".to_vec(), r.clone()];
    p.extend(exts(src));
    let mut special = p.len() > 2 || src.chance(2, 3);
    if special && src.chance(2, 3) {
        reshape(src, &mut p);
    }
    let without = p.join(&b',');
    let auth = [format!("n=u,r={n}").as_bytes(), b",", &o1.bytes, b",", &without].concat();
    let proof = b64(&xor(&keys.0, &alg.hmac(&alg.h(&keys.0), &auth)));
    let mut m = [&without[..], b",p=", proof.as_bytes()].concat();
    // what comes after the proof, or instead of it
    match src.below(12) {
        0 => {
            m.push(b',');
            m.extend(ext(src));
            special = true;
        }
        1 => {
            let k = without.len() + src.idx(4);
            let mut tail = m.split_off(k);
            tail = bend(src, &tail, &[1, 3], EDGES);
            m.extend(tail);
            special = true;
        }
        3 => {
            m.extend_from_slice(*src.pick(&[&b"\n"[..], b"\r\n", b"\r", b" ", b"\t", b"\0", b"=", b"==", b"A", b"AAAA", b"\xc2\xa0"]));
            special = true;
        }
        2 => {
            m = [&without[..], b",p=", proof.as_bytes(), b",p=", proof.as_bytes()].concat();
            special = true;
        }
        _ => {}
    }
    // the judgement
    let q = split(&m);
    let k = q.len() - 1;
    let correct_end = m == [&without[..], b",p=", proof.as_bytes()].concat();
    let judged = if q[0] != b"c=biws" {
        match q[0] {
            [b'c', b'=', v @ ..] if unb64(v).is_none() => match loose64(v) {
                Some(_) => Judge::Unspecified,
                None => Judge::Refuse("malformed base64"),
            },
            _ => Judge::Refuse("bad header"),
        }
    } else if q.len() < 3 || q[1] != &r[..] {
        Judge::Refuse("bad nonce")
    } else if q[2..k].iter().any(|x| x.starts_with(b"m=")) {
        Judge::Refuse("mandatory extension")
    } else if q[2..k].iter().any(|x| x.starts_with(b"p=")) {
        Judge::Refuse("more after the proof")
    } else if !q[k].starts_with(b"p=") {
        Judge::Refuse("missing attribute")
    } else if !correct_end {
        // whatever it says, it is no proof over this message, unless only base64 is written differently
        match (unb64(&q[k][2..]), loose64(&q[k][2..])) {
            (Some(_), _) => Judge::Refuse("bad proof"),
            (_, Some(_)) => Judge::Unspecified,
            _ => Judge::Refuse("malformed base64"),
        }
    } else {
        match extensions(&q[2..k]) {
            Judge::Accept(n) => Judge::Accept(n),
            _ => Judge::Unspecified,
        }
    };
    let o2 = srv.step(Some(&m));
    src.note(|| format!("C: {first}\nS: {}\nC: {}\nS: {}", show(&o1.bytes), show(&m), o2.desc()));
    match judged {
        Judge::Unspecified => {
            src.label("not specified");
            Ok(())
        }
        Judge::Refuse(why) => {
            src.label("refused");
            src.label(why);
            src.nontrivial();
            refused(&o2, &log, &mut srv, "scram-grammar-final", &format!("client-final-message {} ({why}) was accepted", show(&m)))
        }
        Judge::Accept(n) => {
            src.label("accepted");
            if n > 0 {
                src.label("extension accepted");
            }
            if special {
                src.nontrivial();
            }
            let want = format!("v={}", b64(&alg.hmac(&keys.1, &auth)));
            ensure!(o2.fin(true) && o2.bytes == want.as_bytes(), "scram-grammar-final", "well-formed client-final-message {} was answered with {}", show(&m), o2.desc());
            ensure!(validations(&log).len() == 1, "scram-grammar-final", "not validated once");
            Ok(())
        }
    }
}

/* ---------------------------------------------------------------- messages of a server */

struct Cl {
    cl: Sess,
    log: LogRef,
    cf: ClientFirst,
}
fn start(alg: Alg, pw: &[u8]) -> Option<Cl> {
    let (mut cl, log) = client_of(alg.mech(false), Script { authid: Some("u".into()), password: Some(pw.to_vec()), ..Script::default() });
    let o = cl.step(None);
    if !o.running() {
        return None;
    }
    let cf = parse_client_first(&o.bytes).ok()?;
    Some(Cl { cl, log, cf })
}

struct Sf {
    salt: Vec<u8>,
    iterations: u32,
    exts: usize,
}
fn judge_server_first(m: &[u8], cn: &str) -> Judge<Sf> {
    use Judge::Refuse;
    let p = split(m);
    if p.len() < 3 {
        return Refuse("missing attribute");
    }
    let mut open = false;
    match p[0] {
        [b'm', b'=', ..] => return Refuse("mandatory extension"),
        [b'r', b'=', n @ ..] => {
            if !n.starts_with(cn.as_bytes()) || n.len() == cn.len() {
                return Refuse("bad nonce");
            }
            open |= !printable(n);
        }
        _ => return Refuse("missing attribute"),
    }
    let salt = match p[1] {
        [b's', b'=', s @ ..] => match unb64(s) {
            Some(s) => s,
            None => {
                // bits that do not count may be wrong
                if loose64(s).is_none() {
                    return Refuse("bad salt");
                }
                open = true;
                vec![]
            }
        },
        _ => return Refuse("missing attribute"),
    };
    open |= salt.is_empty();
    let mut iterations = 1;
    match p[2] {
        [b'i', b'=', i @ ..] => {
            let digits = i.strip_prefix(b"+").unwrap_or(i);
            if digits.is_empty() || !digits.iter().all(u8::is_ascii_digit) || digits.iter().all(|d| *d == b'0') {
                return Refuse("bad iteration count");
            }
            open |= i[0] == b'+' || i[0] == b'0';
            let v: String = String::from_utf8(digits.to_vec()).unwrap();
            match v.trim_start_matches('0').parse::<u32>() {
                Ok(v) => iterations = v,
                Err(_) => return Refuse("bad iteration count"),
            }
        }
        _ => return Refuse("missing attribute"),
    }
    let exts = match extensions(&p[3..]) {
        Judge::Accept(n) => n,
        Refuse(r) => return Refuse(r),
        Judge::Unspecified => {
            open = true;
            0
        }
    };
    if open || iterations > 20_000 {
        return Judge::Unspecified;
    }
    Judge::Accept(Sf { salt, iterations, exts })
}

fn server_first(src: &mut Src) -> R {
    let (alg, pw, salt, iterations) = small(src);
    let Some(mut c) = start(alg, &pw) else { return Ok(()) };
    let sn = snonce(src);
    let mut p: Vec<Vec<u8>> =
        vec![format!("r={}{sn}", c.cf.nonce).into_bytes(), format!("s={}", b64(&salt)).into_bytes(), format!("i={iterations}").into_bytes()];
    let e = exts(src);
    let special = !e.is_empty();
    p.extend(e);
    let special = maybe_reshape(src, &mut p) || special;
    let m = p.join(&b',');
    let judged = judge_server_first(&m, &c.cf.nonce);
    // a large count would take long
    let count = split(&m).get(2).and_then(|i| std::str::from_utf8(i).ok()?.strip_prefix("i=")?.parse::<u32>().ok()).unwrap_or(0);
    if count > 20_000 {
        src.label("not specified");
        return Ok(());
    }
    let o = c.cl.step(Some(&m));
    src.note(|| format!("nonce {} S: {}\nC: {}", c.cf.nonce, show(&m), o.desc()));
    match judged {
        Judge::Unspecified => {
            src.label("not specified");
            Ok(())
        }
        Judge::Refuse(why) => {
            src.label("refused");
            src.label(why);
            src.nontrivial();
            let what = format!("server-first-message {} ({why}) after nonce {}", show(&m), c.cf.nonce);
            ensure!(o.res.is_err() && o.bytes.is_empty(), "scram-grammar-server-first", "{what} was accepted: {}", o.desc());
            ensure!(matches!(ekind(o.res.as_ref().unwrap_err()), "mech"), "scram-grammar-class", "{what} is reported as {}", o.desc());
            Ok(())
        }
        Judge::Accept(sf) => {
            src.label("accepted");
            if sf.exts > 0 {
                src.label("extension accepted");
            }
            if special {
                src.nontrivial();
            }
            let what = format!("server-first-message {}", show(&m));
            ensure!(o.running(), "scram-grammar-server-first", "well-formed {what} was refused: {}", o.desc());
            for r in requests(&c.log, "Password") {
                ensure!(r.salt.as_deref() == Some(&sf.salt[..]) && r.iterations == Some(sf.iterations), "scram-grammar-server-first", "{what}: password requested with {:?} and {:?}", r.salt, r.iterations);
            }
            // the proof is for exactly this message
            let r = split(&m)[0];
            let without = [b"c=biws,", r].concat();
            let auth = [c.cf.bare.as_bytes(), b",", &m, b",", &without].concat();
            let keys = alg.keys(&alg.hi(&pw, &sf.salt, sf.iterations));
            let proof = xor(&keys.0, &alg.hmac(&alg.h(&keys.0), &auth));
            let want = [&without[..], b",p=", b64(&proof).as_bytes()].concat();
            ensure!(o.bytes == want, "scram-grammar-server-first", "{what} was answered with {} instead of {}", show(&o.bytes), show(&want));
            Ok(())
        }
    }
}

fn server_final(src: &mut Src) -> R {
    let (alg, pw, salt, iterations) = small(src);
    let Some(mut c) = start(alg, &pw) else { return Ok(()) };
    let rs = RefServer { alg, stored: alg.stored(&pw, &salt, iterations), snonce: snonce(src), cbdata: vec![] };
    let m1 = rs.first(&c.cf);
    let o2 = c.cl.step(Some(&m1));
    if !o2.running() {
        return Ok(());
    }
    let Ok(sig) = rs.check(&c.cf, &m1, &o2.bytes) else { return Ok(()) };
    let good = rs.final_ok(&sig);
    let mut p = vec![good.clone()];
    let e = exts(src);
    let special = !e.is_empty();
    p.extend(e);
    let special = maybe_reshape(src, &mut p) || special;
    let m = p.join(&b',');
    let q = split(&m);
    let judged = if q[0] == &good[..] {
        extensions(&q[1..])
    } else {
        match q[0] {
            [b'v', b'=', v @ ..] => match (unb64(v), loose64(v)) {
                (Some(_), _) => Judge::Refuse("bad verifier"),
                (_, Some(_)) => Judge::Unspecified,
                _ => Judge::Refuse("malformed base64"),
            },
            _ => Judge::Refuse("missing attribute"),
        }
    };
    let o = c.cl.step(Some(&m));
    src.note(|| format!("S: {}\nC: {}", show(&m), o.desc()));
    match judged {
        Judge::Unspecified => {
            src.label("not specified");
            Ok(())
        }
        Judge::Refuse(why) => {
            src.label("refused");
            src.label(why);
            src.nontrivial();
            ensure!(o.res.is_err() && o.bytes.is_empty(), "scram-grammar-server-final", "server-final-message {} ({why}) was accepted: {}", show(&m), o.desc());
            Ok(())
        }
        Judge::Accept(n) => {
            src.label("accepted");
            if n > 0 {
                src.label("extension accepted");
            }
            if special {
                src.nontrivial();
            }
            ensure!(o.fin(false) && o.bytes.is_empty(), "scram-grammar-server-final", "well-formed server-final-message {} was refused: {}", show(&m), o.desc());
            Ok(())
        }
    }
}

//! C01-C04, C22-C24: SCRAM against the reference peer in `scramref`.
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::scramref::*;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "A case is one SCRAM exchange of a reference client with an rsasl server (digest, credentials, identities, nonce, channel-binding flag and data generated) whose final message comes from a chosen attack: wrong password, other user's keys, damaged / short / long proof, other nonce or other channel-binding input with a recomputed proof, proof over different messages, the right proof with line ends or other characters around it, replay from another exchange, unsigned extension, random mutation. Non-trivial: the server answered the first message and the attack message differs from the valid one (valid controls are counted apart). Suite grind repeats exchanges until the valid proof ends in a zero byte and sends the proof without it.",
            assumptions: &["a final message that differs from the valid one only in bits that base64 does not use, or whose inserted extension is signed, may be accepted or refused"],
            suites: vec![suite("attacks", c01_attacks, 180_000, 1_500_000), suite("grind", c01_grind, 1_200, 12_000)],
            expect_labels: &["control accepted", "wrong password", "other keys", "damaged proof", "other nonce", "other cb input", "other messages", "replay", "unsigned extension", "mutation", "padded proof", "ground proof"],
        },
        Prop {
            id: "C02",
            rule: "A case is one complete SCRAM exchange with generated digest, user name, authorization identity, password, salt, iteration count and nonces, in one of the pairings reference client / rsasl server, rsasl client / reference server, rsasl client / rsasl server. Non-trivial: the exchange reached its last message (all do unless the property fails). Every message is parsed strictly and compared with the reference.",
            assumptions: &["user names and authorization identities are non-empty and contain no NUL", "SCRAM passwords are the bytes given to both sides; their preparation is left to the user, as `hash_password` takes bytes"],
            suites: vec![
                suite("ref-client", c02_ref_client, 60_000, 600_000),
                suite("ref-server", c02_ref_server, 60_000, 600_000),
                suite("both", c02_both, 40_000, 400_000),
                suite("counts", c02_counts, 30_000, 300_000),
                suite("extensions", c02_extensions, 12_000, 100_000),
                suite("server-extensions", c02_server_extensions, 12_000, 100_000),
            ],
            expect_labels: &["needs escaping", "authzid", "non-ascii", "long password", "many iterations", "huge count", "extension", "server extension", "mandatory extension"],
        },
        Prop {
            id: "C03",
            rule: "A case is an rsasl SCRAM client driven by a reference server that deviates: nonce that does not extend the client's, invalid iteration count, invalid salt, missing or reordered attributes, wrong / truncated / extended / reflected / replayed verifier, error message, mutation, messages out of order. Non-trivial: a deviating message was delivered (valid controls are counted apart).",
            assumptions: &["iteration counts written with '+' or leading zeros, empty salts and nonces with unusual characters may be accepted or refused"],
            suites: vec![suite("server-first", c03_first, 80_000, 800_000), suite("server-final", c03_final, 80_000, 800_000), suite("order", c03_order, 12_000, 100_000)],
            expect_labels: &["control finished", "nonce", "iterations", "salt", "attributes", "wrong verifier", "replayed verifier", "error message", "mutation"],
        },
        Prop {
            id: "C04",
            rule: "A case combines channel-binding support, offers, preferences, flag, binding names and data on both sides. Suite flag compares the GS2 flag and name a client sends with the table derived from its configuration and the offer; suite server runs a reference client with any flag against plain and -PLUS servers; suite pair runs rsasl on both sides; suite ref-server checks the c= attribute. Non-trivial: the exchange got past the first message, or the flag was decided with channel binding enabled.",
            assumptions: &["a plain server may accept or refuse a client that uses matching channel bindings", "the flag of a client that enabled channel binding without a -PLUS mechanism in its registry is not judged"],
            suites: vec![suite("flag", c04_flag, 60_000, 500_000), suite("server", c04_server, 80_000, 800_000), suite("pair", c04_pair, 60_000, 600_000), suite("ref-server", c04_ref_server, 30_000, 300_000)],
            expect_labels: &["flag n", "flag y", "flag p", "bound", "data differs", "name unknown", "plus without binding", "downgrade", "override", "exporter", "unique"],
        },
        Prop {
            id: "C22",
            rule: "A case gives an rsasl SCRAM client a subset of {password, salted password, cached keys} (forms that must not be used are wrong or missing, cached keys may have the wrong size) and runs it against the reference server; suite cache reuses the keys handed out for caching in a second exchange; suite tools compares hash_password and derive_keys with the reference. Non-trivial: the exchange reached the client's final message, or wrong-size keys were supplied.",
            assumptions: &["ScramCachedPassword values are constructed field by field (the type has no public constructor in the original sources)"],
            suites: vec![suite("forms", c22_forms, 60_000, 600_000), suite("cache", c22_cache, 30_000, 300_000), suite("tools", c22_tools, 40_000, 400_000)],
            expect_labels: &["cached", "salted", "password", "wrong size", "shadowed"],
        },
        Prop {
            id: "C23",
            rule: "A case starts a batch of SCRAM exchanges (clients, servers, unknown users) on one or several threads and looks at the nonces and salts on the wire; uniqueness is judged over the whole run. Suite replayed gives the same generated first message to many server sessions, with one configuration or several; suite restart compares several processes started at the same time. Every case is non-trivial.",
            assumptions: &["statistical bounds are chosen so that an unbiased generator fails with probability far below 1e-30"],
            suites: vec![
                suite("fresh", c23_fresh, 6_000, 30_000),
                suite("replayed", c23_replayed, 16_000, 80_000),
                suite("spread", c23_spread, 960, 4_800),
                suite("restart", c23_restart, 160, 800),
            ],
            expect_labels: &["threads", "unknown user", "same session configuration", "restarted"],
        },
        Prop {
            id: "C24",
            rule: "A case lets a reference client authenticate as a user the server's callback does not know (no users at all, or similar names), or as one whose stored keys have the wrong size, or sends one first message, with or without channel binding, regular or damaged, to a server that knows the user and one that does not (suite twins), followed by a final message (valid-looking for some password, for empty or zero keys, mutated, or arbitrary). Non-trivial: the server answered the first message for an unknown user, or refused a wrong-size credential.",
            assumptions: &[],
            suites: vec![suite("unknown", c24_unknown, 160_000, 800_000), suite("twins", c24_twins, 160_000, 800_000), suite("key-size", c24_key_size, 80_000, 400_000)],
            expect_labels: &["near miss", "zero keys", "mutation", "wrong size", "missing binding", "damaged", "both continue", "both refuse"],
        },
    ]
}

/* ---------------------------------------------------------------- shared */

const NAME: Txt = Txt { max: 20, soh: true, nul: false, empty: false };

#[derive(Clone, Debug)]
struct Cred {
    alg: Alg,
    user: String,
    authzid: Option<String>,
    password: Vec<u8>,
    salt: Vec<u8>,
    iterations: u32,
}
fn cred(src: &mut Src) -> Cred {
    let c = Cred {
        alg: *src.pick(&ALGS),
        user: text(src, NAME),
        authzid: if src.chance(2, 5) { Some(text(src, NAME)) } else { None },
        password: password(src),
        salt: salt(src),
        iterations: iterations(src),
    };
    src.note(|| format!("{c:?}"));
    c
}
fn classify(src: &mut Src, c: &Cred) {
    if c.user.contains([',', '=']) {
        src.label("needs escaping");
    }
    if c.authzid.is_some() {
        src.label("authzid");
    }
    if !c.user.is_ascii() {
        src.label("non-ascii");
    }
    if c.password.len() > 64 {
        src.label("long password");
    }
    if c.iterations >= 256 {
        src.label("many iterations");
    }
    if c.iterations > 65535 {
        src.label("more than 65535 iterations");
    }
}
impl Cred {
    fn stored(&self) -> Stored {
        self.alg.stored(&self.password, &self.salt, self.iterations)
    }
    fn ref_client(&self, flag: Flag, cbdata: &[u8], nonce: String) -> RefClient {
        RefClient { alg: self.alg, flag, authzid: self.authzid.clone(), user: self.user.clone(), password: self.password.clone(), nonce, cbdata: cbdata.to_vec() }
    }
    fn server_script(&self) -> Script {
        Script { users: HashMap::from([(self.user.clone(), self.stored())]), ..Script::default() }
    }
    fn client_script(&self) -> Script {
        Script { authid: Some(self.user.clone()), authzid: self.authzid.clone(), password: Some(self.password.clone()), ..Script::default() }
    }
}

fn was_refused(out: &Out, srv: &mut Sess, log: &LogRef, sig: &str, what: &str) -> R {
    let v = validations(log);
    ensure!(v.is_empty(), sig, "{what}: validation was called with {:?}; step gave {}", v[0], out.desc());
    ensure!(!out.bytes.windows(2).any(|w| w == b"v="), sig, "{what}: a verifier was sent: {}", out.desc());
    let val = srv.validation();
    ensure!(val.is_none(), sig, "{what}: a validation value exists: {val:?}");
    ensure!(out.res.is_err() || (out.fin(true) && out.bytes.starts_with(b"e=")), sig, "{what}: neither an error nor an error message: {}", out.desc());
    Ok(())
}

/// Same attributes up to the bits of base64 that do not count.
fn same_final(valid: &[u8], m: &[u8]) -> bool {
    let split = |m: &[u8]| -> Vec<Vec<u8>> { m.split(|b| *b == b',').map(<[u8]>::to_vec).collect() };
    let (a, b) = (split(valid), split(m));
    a.len() == 3
        && b.len() == 3
        && a[0] == b[0]
        && a[1] == b[1]
        && b[2].starts_with(b"p=")
        && loose64(&a[2][2..]).is_some()
        && loose64(&a[2][2..]) == loose64(&b[2][2..])
}

/// Something that has no place in base64.
fn junk(src: &mut Src) -> &'static str {
    *src.pick(&["\n", "\r\n", "\r", " ", "\t", "\0", "=", "==", "====", "A", "AAAA", "-", "_", ";", "%", "\u{b}", "\u{a0}", "\u{feff}", "\n\n", " \n", ".", "*"])
}

/* ---------------------------------------------------------------- C01 */

struct Started {
    srv: Sess,
    log: LogRef,
    client: RefClient,
    sf_raw: Vec<u8>,
    sf: ServerFirst,
}
/// Runs the first round trip; None if the server did not answer it (which is C02's business).
fn start(client: &RefClient, reg: &[&str], mech: &str, script: Script, cb: ProtoCb) -> Option<Started> {
    let (mut srv, log) = server_reg(reg, mech, script, cb);
    let o = srv.step(Some(&client.first()));
    if !o.running() {
        return None;
    }
    let sf = client.parse_server_first(&o.bytes).ok()?;
    Some(Started { srv, log, client: client.clone(), sf_raw: o.bytes, sf })
}

fn c01_attacks(src: &mut Src) -> R {
    let c = cred(src);
    let plus = src.chance(1, 3);
    let (flag, cbdata) = if plus {
        let n = cbname(src);
        (Flag::P(n), cbdata(src))
    } else if src.chance(1, 4) {
        (Flag::Y, vec![])
    } else {
        (Flag::N, vec![])
    };
    let mech = c.alg.mech(plus);
    let plus_name = c.alg.mech(true);
    let reg: Vec<&str> = if plus || (flag == Flag::N && src.flag()) { vec![c.alg.mech(false), plus_name] } else { vec![mech] };
    let proto = match &flag {
        Flag::P(n) => ProtoCb(vec![(n.clone(), cbdata.clone())]),
        _ => ProtoCb::default(),
    };
    let mut other = c.clone();
    other.user = format!("{}2", c.user);
    let mut pw2 = c.password.clone();
    match src.below(3) {
        0 => pw2.push(b'x'),
        1 => {
            let i = src.idx(pw2.len());
            pw2[i] ^= 1 << src.below(7);
        }
        _ => {
            pw2 = password(src);
            if pw2 == c.password {
                pw2.push(b'y');
            }
        }
    }
    // HMAC ignores trailing NULs of short keys
    while pw2.last() == Some(&0) {
        pw2.pop();
    }
    let mut base = c.password.clone();
    while base.last() == Some(&0) {
        base.pop();
    }
    if pw2 == base {
        pw2.push(b'z');
    }
    other.password = pw2.clone();
    let mut script = c.server_script();
    // the second user has the same salt and iteration count, and sometimes the same password
    let twin = src.flag();
    if twin {
        other.password = c.password.clone();
    }
    script.users.insert(other.user.clone(), other.stored());
    let n = nonce(src);
    let client = c.ref_client(flag.clone(), &cbdata, n);
    let Some(mut st) = start(&client, &reg, mech, script.clone(), proto.clone()) else {
        src.label("first message refused");
        return Ok(());
    };
    let keys = c.alg.keys(&c.alg.hi(&c.password, &c.salt, c.iterations));
    let valid = client.final_with(&st.sf_raw, &st.sf.nonce, &keys, None, "");
    let (kind, m): (&'static str, Vec<u8>) = match src.below(17) {
        0 => ("control", valid.msg.clone()),
        15 => {
            // the right proof with something around it that is no base64
            let (a, b) = (format!("{},p=", valid.without_proof), b64(&valid.proof));
            let j = junk(src);
            let m = match src.below(6) {
                0..=2 => format!("{a}{b}{j}"),
                3 => format!("{a}{j}{b}"),
                4 => {
                    let i = src.idx(b.len());
                    format!("{a}{}{j}{}", &b[..i], &b[i..])
                }
                _ => format!("{a}{}", b.trim_end_matches('=').replace('+', "-").replace('/', "_")),
            };
            let m = m.into_bytes();
            if m == valid.msg {
                ("control", m)
            } else {
                ("padded proof", m)
            }
        }
        1 => {
            let k = c.alg.keys(&c.alg.hi(&pw2, &c.salt, c.iterations));
            ("wrong password", client.final_with(&st.sf_raw, &st.sf.nonce, &k, None, "").msg)
        }
        2 => {
            // right password, other salt or count, or the keys of something else
            let k = match src.below(6) {
                0 => {
                    let mut s = c.salt.clone();
                    s.push(1);
                    c.alg.keys(&c.alg.hi(&c.password, &s, c.iterations))
                }
                1 => c.alg.keys(&c.alg.hi(&c.password, &c.salt, c.iterations + 1)),
                2 => (keys.1.clone(), keys.0.clone()),
                3 => (vec![0; c.alg.len()], keys.1.clone()),
                4 => (c.alg.h(&keys.0), keys.1.clone()),
                _ => (c.alg.hi(&c.password, &c.salt, c.iterations), keys.1.clone()),
            };
            ("other keys", client.final_with(&st.sf_raw, &st.sf.nonce, &k, None, "").msg)
        }
        3 => {
            let mut p = valid.proof.clone();
            let i = src.idx(p.len());
            p[i] ^= 1 << src.below(8);
            ("damaged proof", format!("{},p={}", valid.without_proof, b64(&p)).into_bytes())
        }
        4 => {
            let mut p = valid.proof.clone();
            match src.below(5) {
                0 => p.truncate(src.idx(p.len())),
                1 => {
                    let k = src.range(1, 8);
                    p.extend(src.bytes(k));
                }
                2 => {
                    p.drain(..src.range(1, 3));
                }
                3 => p = p.repeat(2),
                _ => {
                    p.insert(0, 0);
                }
            }
            ("damaged proof", format!("{},p={}", valid.without_proof, b64(&p)).into_bytes())
        }
        5 => {
            let p: Vec<u8> = match src.below(10) {
                // everything somebody may hold who does not know the client key, used in its place
                5..=9 => {
                    let salted = c.alg.hi(&c.password, &c.salt, c.iterations);
                    let stored = c.alg.h(&keys.0);
                    let held: [Vec<u8>; 8] = [stored.clone(), keys.1.clone(), salted.clone(), vec![0; c.alg.len()], c.alg.h(&stored), c.alg.h(&keys.1), c.alg.h(&salted), keys.0.clone()];
                    let instead = src.pick(&held[..7]).clone();
                    let auth = format!("{},{}", valid.auth_prefix, valid.without_proof);
                    let over = match src.below(4) {
                        0 | 1 => auth.clone(),
                        2 => valid.auth_prefix.clone(),
                        _ => valid.without_proof.clone(),
                    };
                    if src.flag() {
                        xor(&instead, &c.alg.hmac(&stored, over.as_bytes()))
                    } else {
                        let by = src.pick(&held).clone();
                        // (the client key under its stored key would be the right proof)
                        if by == stored && over == auth {
                            xor(&instead, &c.alg.hmac(&by, over.as_bytes()))
                        } else {
                            xor(&keys.0, &c.alg.hmac(&by, over.as_bytes()))
                        }
                    }
                }
                0 => vec![],
                1 => vec![0; c.alg.len()],
                2 => valid.server_sig.clone(),
                3 => keys.0.clone(),
                _ => c.alg.h(&keys.0),
            };
            ("damaged proof", format!("{},p={}", valid.without_proof, b64(&p)).into_bytes())
        }
        6 | 7 => {
            let full = &st.sf.nonce;
            let sn = &full[client.nonce.len()..];
            let altered = match src.below(16) {
                8..=15 => String::from_utf8(bend(src, full.as_bytes(), &[client.nonce.len()], b"abXYZ019+/=")).unwrap(),
                0 => client.nonce.clone(),
                1 => sn.to_string(),
                2 => format!("{full}x"),
                3 => full[..full.len() - 1].to_string(),
                4 => format!("{sn}{}", client.nonce),
                5 => format!("{}{}", client.nonce, nonce(src)),
                6 => {
                    let mut b = full.clone().into_bytes();
                    let i = src.idx(b.len());
                    b[i] = if b[i] == b'A' { b'B' } else { b'A' };
                    String::from_utf8(b).unwrap()
                }
                _ => String::new(),
            };
            if altered == *full {
                ("control", valid.msg.clone())
            } else {
                let m = if src.flag() {
                    // recomputed: proof over a conversation with that nonce in the final message only
                    client.final_with(&st.sf_raw, &altered, &keys, None, "").msg
                } else {
                    format!("{},p={}", valid.without_proof.replace(&format!(",r={full}"), &format!(",r={altered}")), b64(&valid.proof)).into_bytes()
                };
                ("other nonce", m)
            }
        }
        8 | 9 => {
            let mut gs2 = client.gs2().into_bytes();
            gs2.extend_from_slice(&cbdata);
            let cb: Vec<u8> = match src.below(12) {
                8..=11 => bend(src, &gs2, &[gs2.len() - cbdata.len()], b"nyp=,a\0 x"),
                0 => {
                    let mut o = client.clone();
                    o.authzid = match &client.authzid {
                        None => Some("admin".into()),
                        Some(_) if src.flag() => None,
                        Some(a) => Some(format!("{a}x")),
                    };
                    let mut v = o.gs2().into_bytes();
                    v.extend_from_slice(&cbdata);
                    v
                }
                1 => {
                    let mut o = client.clone();
                    o.flag = match &client.flag {
                        Flag::N => Flag::Y,
                        Flag::Y => Flag::N,
                        Flag::P(n) => Flag::P(format!("{n}x")),
                    };
                    let mut v = o.gs2().into_bytes();
                    v.extend_from_slice(&cbdata);
                    v
                }
                2 => client.gs2().into_bytes(),
                3 => {
                    let mut v = gs2.clone();
                    v.push(src.below(256) as u8);
                    v
                }
                4 => gs2[..src.idx(gs2.len())].to_vec(),
                5 => vec![],
                6 => cbdata.clone(),
                _ => {
                    let mut v = gs2.clone();
                    let i = src.idx(v.len());
                    v[i] ^= 1 << src.below(8);
                    v
                }
            };
            if cb == gs2 {
                ("control", valid.msg.clone())
            } else if src.chance(3, 4) {
                ("other cb input", client.final_with(&st.sf_raw, &st.sf.nonce, &keys, Some(&cb), "").msg)
            } else {
                ("other cb input", format!("c={},r={},p={}", b64(&cb), st.sf.nonce, b64(&valid.proof)).into_bytes())
            }
        }
        10 | 11 => {
            // the proof is right for a conversation in which something else was said
            let mut o = client.clone();
            let mut sf = String::from_utf8(st.sf_raw.clone()).unwrap();
            match src.below(6) {
                0 => o.user = other.user.clone(),
                1 => o.nonce = format!("{}x", client.nonce),
                2 => sf.push('0'),
                3 => sf = sf.replacen(",s=", ",s=AAAA", 1),
                4 => sf = sf.replacen("r=", "r=x", 1),
                _ => sf = sf.split(",i=").next().unwrap().to_string(),
            }
            let p = o.final_with(sf.as_bytes(), &st.sf.nonce, &keys, Some(&unb64(valid.without_proof[2..].split(',').next().unwrap().as_bytes()).unwrap()), "");
            ("other messages", format!("{},p={}", valid.without_proof, b64(&p.proof)).into_bytes())
        }
        12 | 13 => {
            // a valid final message of another exchange: same user, or another user's own
            let who = if src.flag() { &c } else { &other };
            let same_nonce = src.flag();
            let n2 = if same_nonce { client.nonce.clone() } else { nonce(src) };
            let rc = who.ref_client(flag.clone(), &cbdata, n2);
            let Some(o) = start(&rc, &reg, mech, script, proto) else { return Ok(()) };
            let k = c.alg.keys(&c.alg.hi(&who.password, &c.salt, c.iterations));
            let f = rc.final_with(&o.sf_raw, &o.sf.nonce, &k, None, "");
            if src.flag() {
                ("replay", f.msg)
            } else {
                // the old proof under the current attributes
                ("replay", format!("{},p={}", valid.without_proof, b64(&f.proof)).into_bytes())
            }
        }
        14 => {
            let ext = format!(",{}={}", *src.pick(&["x", "a", "z", "t", "r", "c", "n"]), word(src, 6));
            if src.chance(1, 5) {
                // after the proof
                let mut v = valid.msg.clone();
                v.extend_from_slice(ext.as_bytes());
                ("unsigned extension", v)
            } else {
                ("unsigned extension", format!("{}{ext},p={}", valid.without_proof, b64(&valid.proof)).into_bytes())
            }
        }
        _ => {
            let f = client.first();
            let m = mutate(src, &valid.msg, &[&st.sf_raw, &f]);
            if same_final(&valid.msg, &m) {
                if m == valid.msg {
                    ("control", m)
                } else {
                    return Ok(());
                }
            } else {
                ("mutation", m)
            }
        }
    };
    src.note(|| format!("{kind}: server-first {} final {}", show(&st.sf_raw), show(&m)));
    let out = st.srv.step(Some(&m));
    src.note(|| out.desc());
    if kind == "control" {
        if out.finished() && out.bytes.starts_with(b"v=") {
            src.label("control accepted");
        }
        return Ok(());
    }
    src.label(kind);
    src.nontrivial();
    let _ = &st.client;
    was_refused(&out, &mut st.srv, &st.log, "scram-server-accepts", kind)
}

fn c01_grind(src: &mut Src) -> R {
    let mut c = cred(src);
    c.iterations = 1;
    let keys = c.alg.keys(&c.alg.hi(&c.password, &c.salt, c.iterations));
    let mech = c.alg.mech(false);
    let script = c.server_script();
    let (cb, _) = Cb::new(script);
    let log = cb.log.clone();
    let cfg = config(&[mech], cb);
    let front = src.flag();
    for i in 0..600 {
        let client = c.ref_client(Flag::N, &[], format!("grind{i}"));
        let Ok(mut srv) = Sess::server(&cfg, mech) else { return Ok(()) };
        let o = srv.step(Some(&client.first()));
        let Ok(sf) = client.parse_server_first(&o.bytes) else { return Ok(()) };
        let f = client.final_with(&o.bytes, &sf.nonce, &keys, None, "");
        let zero = if front { f.proof[0] == 0 } else { *f.proof.last().unwrap() == 0 };
        if zero {
            let cut = if front { &f.proof[1..] } else { &f.proof[..f.proof.len() - 1] };
            src.label("ground proof");
            src.nontrivial();
            let out = srv.step(Some(format!("{},p={}", f.without_proof, b64(cut)).as_bytes()));
            src.note(|| format!("proof {} sent without its {} zero byte: {}", b64(&f.proof), if front { "first" } else { "last" }, out.desc()));
            return was_refused(&out, &mut srv, &log, "scram-server-accepts-short-proof", "proof without its zero byte");
        }
    }
    Ok(())
}

/* ---------------------------------------------------------------- C02 */

fn c02_ref_client(src: &mut Src) -> R {
    let c = cred(src);
    classify(src, &c);
    let mech = c.alg.mech(false);
    let n = nonce(src);
    // 'y' is fine when the server has no -PLUS
    let (flag, reg) = match src.below(3) {
        0 => (Flag::N, vec![mech]),
        1 => (Flag::Y, vec![mech]),
        _ => (Flag::N, vec![c.alg.mech(true), mech]),
    };
    let client = c.ref_client(flag, &[], n);
    let (mut srv, log) = server_reg(&reg, mech, c.server_script(), ProtoCb::default());
    let first = client.first();
    let o1 = srv.step(Some(&first));
    src.note(|| format!("C: {}\nS: {}", show(&first), o1.desc()));
    ensure!(o1.running(), "scram-server-first", "the server refused a valid first message {}: {}", show(&first), o1.desc());
    let sf = match client.parse_server_first(&o1.bytes) {
        Ok(s) => s,
        Err(e) => return fail("scram-server-first", format!("server-first-message {} is not valid: {e}", show(&o1.bytes))),
    };
    ensure!(sf.salt == c.salt && sf.iterations == c.iterations, "scram-server-first", "salt or iteration count differ from the stored ones: {}", show(&o1.bytes));
    let lookups = requests(&log, "ScramStoredPassword");
    ensure!(lookups.iter().any(|x| x.authid.as_deref() == Some(&c.user)), "scram-identity", "the stored password was not looked up for {:?} but with {lookups:?}", c.user);
    for l in &lookups {
        ensure!(l.authz() == c.authzid.as_deref().unwrap_or(""), "scram-identity", "lookup with authzid {:?} instead of {:?}", l.authzid, c.authzid);
    }
    let f = client.final_for(&o1.bytes, &sf);
    let o2 = srv.step(Some(&f.msg));
    src.note(|| format!("C: {}\nS: {}", show(&f.msg), o2.desc()));
    ensure!(o2.fin(true), "scram-server-final", "the server did not accept a valid final message: {}", o2.desc());
    let want = format!("v={}", b64(&f.server_sig));
    ensure!(o2.bytes == want.as_bytes(), "scram-server-final", "server-final-message is {} instead of {want}", show(&o2.bytes));
    src.nontrivial();
    check_validated(&mut srv, &log, &c)
}

fn check_validated(srv: &mut Sess, log: &LogRef, c: &Cred) -> R {
    let v = validations(log);
    ensure!(v.len() == 1, "scram-validate", "validation was called {} times", v.len());
    ensure!(v[0].authid.as_deref() == Some(&c.user), "scram-identity", "validated authid {:?} instead of {:?}", v[0].authid, c.user);
    ensure!(v[0].authz() == c.authzid.as_deref().unwrap_or(""), "scram-identity", "validated authzid {:?} instead of {:?}", v[0].authzid, c.authzid);
    let val = srv.validation();
    ensure!(val == Some(auto_value(&v[0])), "scram-validate", "validation value {val:?}");
    Ok(())
}

fn c02_ref_server(src: &mut Src) -> R {
    let c = cred(src);
    classify(src, &c);
    let mech = c.alg.mech(false);
    let (mut cl, log) = client_of(mech, c.client_script());
    let o1 = cl.step(None);
    src.note(|| format!("C: {}", o1.desc()));
    ensure!(o1.running(), "scram-client-first", "the client did not start: {}", o1.desc());
    let cf = match parse_client_first(&o1.bytes) {
        Ok(x) => x,
        Err(e) => return fail("scram-client-first", format!("client-first-message {} is not valid: {e}", show(&o1.bytes))),
    };
    ensure!(cf.user == c.user && cf.authzid == c.authzid, "scram-identity", "client-first-message {} does not carry {:?} / {:?}", show(&o1.bytes), c.user, c.authzid);
    ensure!(cf.flag == Flag::N, "scram-client-first", "unexpected channel binding flag in {}", show(&o1.bytes));
    let rs = RefServer { alg: c.alg, stored: c.stored(), snonce: snonce(src), cbdata: vec![] };
    let m1 = rs.first(&cf);
    let o2 = cl.step(Some(&m1));
    src.note(|| format!("S: {}\nC: {}", show(&m1), o2.desc()));
    ensure!(o2.running(), "scram-client-final", "the client refused a valid server-first-message {}: {}", show(&m1), o2.desc());
    for r in requests(&log, "Password") {
        ensure!(r.salt.as_deref() == Some(&c.salt[..]) && r.iterations == Some(c.iterations), "scram-context", "password requested with salt {:?} and iteration count {:?}", r.salt, r.iterations);
    }
    let v = match rs.check(&cf, &m1, &o2.bytes) {
        Ok(v) => v,
        Err(e) => return fail("scram-client-final", format!("client-final-message {} is not valid: {e}", show(&o2.bytes))),
    };
    let m2 = rs.final_ok(&v);
    let o3 = cl.step(Some(&m2));
    src.note(|| format!("S: {}\nC: {}", show(&m2), o3.desc()));
    ensure!(o3.fin(false) && o3.bytes.is_empty(), "scram-client-finish", "the client did not finish on a valid verifier: {}", o3.desc());
    src.nontrivial();
    Ok(())
}

fn c02_both(src: &mut Src) -> R {
    let c = cred(src);
    classify(src, &c);
    let mech = c.alg.mech(false);
    let (mut cl, _) = client_of(mech, c.client_script());
    let reg: Vec<&str> = if src.flag() { vec![mech, c.alg.mech(true)] } else { vec![mech] };
    let (mut srv, log) = server_reg(&reg, mech, c.server_script(), ProtoCb::default());
    let a = cl.step(None);
    ensure!(a.running(), "scram-both", "client start: {}", a.desc());
    let b = srv.step(Some(&a.bytes));
    src.note(|| format!("C: {}\nS: {}", a.desc(), b.desc()));
    ensure!(b.running(), "scram-both", "server on {}: {}", show(&a.bytes), b.desc());
    let d = cl.step(Some(&b.bytes));
    ensure!(d.running(), "scram-both", "client on {}: {}", show(&b.bytes), d.desc());
    let e = srv.step(Some(&d.bytes));
    src.note(|| format!("C: {}\nS: {}", d.desc(), e.desc()));
    ensure!(e.fin(true) && e.bytes.starts_with(b"v="), "scram-both", "server on {}: {}", show(&d.bytes), e.desc());
    let f = cl.step(Some(&e.bytes));
    ensure!(f.fin(false) && f.bytes.is_empty(), "scram-both", "client on {}: {}", show(&e.bytes), f.desc());
    src.nontrivial();
    check_validated(&mut srv, &log, &c)
}

/// Any count of the grammar, with credentials that spare both sides the work.
fn c02_counts(src: &mut Src) -> R {
    let mut c = cred(src);
    c.iterations = 1 + src.below(3) as u32;
    let count = match src.below(6) {
        0 => src.range(1, 100_000) as u32,
        1 => (1u32 << src.below(32)).saturating_add(src.below(3) as u32).max(2) - 1,
        2 => u32::MAX - src.below(4) as u32,
        3 => 10u32.pow(src.below(10) as u32) - u32::from(src.flag()),
        4 => *src.pick(&[i32::MAX as u32, 1 << 31, (1 << 31) + 1, 999_999_999, 3_000_000_000, 4_000_000_000, 100_000, 600_000, 65_536, 16_777_217]),
        _ => 1 + src.below(u64::from(u32::MAX)) as u32,
    }
    .max(1);
    src.note(|| format!("announced count {count}"));
    if count > i32::MAX as u32 {
        src.label("huge count");
    }
    let mech = c.alg.mech(false);
    let salted = c.alg.hi(&c.password, &c.salt, c.iterations);
    let keys = c.alg.keys(&salted);
    let mut stored = c.stored();
    stored.iterations = count;
    src.nontrivial();
    if src.flag() {
        // a server has to announce the count of its credential
        let script = Script { users: HashMap::from([(c.user.clone(), stored)]), ..Script::default() };
        let n = nonce(src);
        let client = c.ref_client(Flag::N, &[], n);
        let (mut srv, log) = server_of(mech, script);
        let o1 = srv.step(Some(&client.first()));
        ensure!(o1.running(), "scram-counts", "the server gave up with a credential of {count} iterations: {}", o1.desc());
        let sf = match client.parse_server_first(&o1.bytes) {
            Ok(s) => s,
            Err(e) => return fail("scram-counts", format!("server-first-message {} for a credential of {count} iterations: {e}", show(&o1.bytes))),
        };
        ensure!(sf.salt == c.salt && sf.iterations == count, "scram-counts", "a credential of {count} iterations is announced as {}", show(&o1.bytes));
        let f = client.final_with(&o1.bytes, &sf.nonce, &keys, None, "");
        let o2 = srv.step(Some(&f.msg));
        ensure!(o2.fin(true) && o2.bytes == format!("v={}", b64(&f.server_sig)).as_bytes(), "scram-counts", "the exchange with {} ended with {}", show(&o1.bytes), o2.desc());
        return check_validated(&mut srv, &log, &c);
    }
    let mut s = Script { authid: Some(c.user.clone()), authzid: c.authzid.clone(), take_cached: true, ..Script::default() };
    let from = if src.flag() {
        s.cached = Some(keys);
        "ScramCachedPassword"
    } else {
        s.salted = Some(salted);
        "SaltedPassword"
    };
    let (mut cl, log) = client_of(mech, s);
    let a = cl.step(None);
    ensure!(a.running(), "scram-counts", "client start: {}", a.desc());
    let cf = parse_client_first(&a.bytes).or_else(|e| fail("scram-client-first", format!("{}: {e}", show(&a.bytes))))?;
    let rs = RefServer { alg: c.alg, stored, snonce: snonce(src), cbdata: vec![] };
    let m1 = rs.first(&cf);
    let o2 = cl.step(Some(&m1));
    ensure!(o2.running(), "scram-counts", "a client with keys for {count} iterations refused {}: {}", show(&m1), o2.desc());
    for r in requests(&log, from) {
        ensure!(r.salt.as_deref() == Some(&c.salt[..]) && r.iterations == Some(count), "scram-counts", "{} led to a request with {:?} and {:?}", show(&m1), r.salt, r.iterations);
    }
    let v = match rs.check(&cf, &m1, &o2.bytes) {
        Ok(v) => v,
        Err(e) => return fail("scram-counts", format!("client-final-message {} on {}: {e}", show(&o2.bytes), show(&m1))),
    };
    let o3 = cl.step(Some(&rs.final_ok(&v)));
    ensure!(o3.fin(false) && o3.bytes.is_empty(), "scram-counts", "the client did not finish: {}", o3.desc());
    for (_, _, ctx) in cached_events(&log) {
        ensure!(ctx.iterations == Some(count), "scram-counts", "keys for {count} iterations were handed out for {:?}", ctx.iterations);
    }
    Ok(())
}

/// RFC 5802 section 7: all extensions are optional and unrecognised ones are ignored; they are part of
/// the signed messages.
fn c02_extensions(src: &mut Src) -> R {
    let c = cred(src);
    classify(src, &c);
    let mech = c.alg.mech(false);
    let n = nonce(src);
    let client = c.ref_client(Flag::N, &[], n);
    let (mut srv, log) = server_of(mech, c.server_script());
    let mk = |src: &mut Src| -> String {
        let n = src.below(3);
        (0..n).map(|_| format!(",{}={}", *src.pick(&["x", "t", "q", "z"]), word(src, 8))).collect()
    };
    let mut e1 = mk(src);
    let mut e2 = mk(src);
    let mandatory = if src.chance(1, 4) { 1 + src.idx(2) } else { 0 };
    if mandatory > 0 {
        // "its presence in a client or a server message MUST cause authentication failure"
        let e = if mandatory == 1 { &mut e1 } else { &mut e2 };
        *e = if src.flag() { format!("{e},m={}", word(src, 8)) } else { format!(",m={}{e}", word(src, 8)) };
    }
    let first = format!("{}{}{e1}", client.gs2(), client.bare());
    let o1 = srv.step(Some(first.as_bytes()));
    src.note(|| format!("C: {first}\nS: {}", o1.desc()));
    if mandatory == 1 {
        src.label("mandatory extension");
        src.nontrivial();
        return was_refused(&o1, &mut srv, &log, "scram-mandatory", &format!("client-first-message {first} with a mandatory extension"));
    }
    ensure!(o1.running(), "scram-extensions", "the server refused a first message with optional extensions: {}", o1.desc());
    let sf = match client.parse_server_first(&o1.bytes) {
        Ok(s) => s,
        Err(e) => return fail("scram-server-first", format!("server-first-message {} is not valid: {e}", show(&o1.bytes))),
    };
    let keys = c.alg.keys(&c.alg.hi(&c.password, &sf.salt, sf.iterations));
    let cb = b64(client.gs2().as_bytes());
    let without = format!("c={cb},r={}{e2}", sf.nonce);
    let auth = format!("{}{e1},{},{without}", client.bare(), String::from_utf8_lossy(&o1.bytes));
    let proof = xor(&keys.0, &c.alg.hmac(&c.alg.h(&keys.0), auth.as_bytes()));
    let msg = format!("{without},p={}", b64(&proof));
    let o2 = srv.step(Some(msg.as_bytes()));
    src.note(|| format!("C: {msg}\nS: {}", o2.desc()));
    if mandatory == 2 {
        src.label("mandatory extension");
        src.nontrivial();
        return was_refused(&o2, &mut srv, &log, "scram-mandatory", &format!("client-final-message {msg} with a mandatory extension"));
    }
    let want = format!("v={}", b64(&c.alg.hmac(&keys.1, auth.as_bytes())));
    ensure!(o2.fin(true) && o2.bytes == want.as_bytes(), "scram-extensions", "a correctly signed exchange with optional extensions ended with {}", o2.desc());
    if !e1.is_empty() || !e2.is_empty() {
        src.label("extension");
        src.nontrivial();
    }
    check_validated(&mut srv, &log, &c)
}

/// The same for the messages of a server (server-first and server-final, also one with an error).
fn c02_server_extensions(src: &mut Src) -> R {
    let c = cred(src);
    classify(src, &c);
    let Some(mut st) = start_client(src, &c, false) else { return Ok(()) };
    let rs = RefServer { alg: c.alg, stored: c.stored(), snonce: snonce(src), cbdata: vec![] };
    let ext = |src: &mut Src| -> String {
        let n = src.below(3);
        (0..n).map(|_| format!(",{}={}", *src.pick(&["x", "t", "q", "z", "A", "y"]), if src.chance(1, 6) { "a=b==é".to_string() } else { word(src, 8) + "1" })).collect()
    };
    let (e1, e2) = (ext(src), ext(src));
    let m1 = [rs.first(&st.cf), e1.clone().into_bytes()].concat();
    let o2 = st.cl.step(Some(&m1));
    src.note(|| format!("S: {}\nC: {}", show(&m1), o2.desc()));
    ensure!(o2.running(), "scram-server-extensions", "the client refused server-first-message {} with optional extensions: {}", show(&m1), o2.desc());
    let v = match rs.check(&st.cf, &m1, &o2.bytes) {
        Ok(v) => v,
        Err(e) => return fail("scram-server-extensions", format!("client-final-message {} after {} is not valid: {e}", show(&o2.bytes), show(&m1))),
    };
    let m2 = [rs.final_ok(&v), e2.clone().into_bytes()].concat();
    let o3 = st.cl.step(Some(&m2));
    src.note(|| format!("S: {}\nC: {}", show(&m2), o3.desc()));
    ensure!(o3.fin(false) && o3.bytes.is_empty(), "scram-server-extensions", "the client did not finish on {} (a valid verifier): {}", show(&m2), o3.desc());
    if !e1.is_empty() || !e2.is_empty() {
        src.label("server extension");
        src.nontrivial();
    }
    Ok(())
}

/* ---------------------------------------------------------------- C03 */

struct ClStarted {
    cl: Sess,
    log: LogRef,
    cf: ClientFirst,
}
fn start_client(src: &mut Src, c: &Cred, take_cached: bool) -> Option<ClStarted> {
    let mut s = c.client_script();
    // the password in one of its forms
    let salted = c.alg.hi(&c.password, &c.salt, c.iterations);
    match src.weighted(&[4, 1, 1]) {
        0 => {}
        1 => {
            src.label("salted password");
            (s.salted, s.password) = (Some(salted), None);
        }
        _ => {
            src.label("cached keys");
            (s.cached, s.password) = (Some(c.alg.keys(&salted)), None);
        }
    }
    s.take_cached = take_cached;
    let (mut cl, log) = client_of(c.alg.mech(false), s);
    let o = cl.step(None);
    if !o.running() {
        return None;
    }
    let cf = parse_client_first(&o.bytes).ok()?;
    Some(ClStarted { cl, log, cf })
}

fn c03_first(src: &mut Src) -> R {
    let mut c = cred(src);
    c.iterations = c.iterations.min(20);
    let Some(mut st) = start_client(src, &c, true) else { return Ok(()) };
    let rs = RefServer { alg: c.alg, stored: c.stored(), snonce: snonce(src), cbdata: vec![] };
    let cn = st.cf.nonce.clone();
    let (s64, it) = (b64(&c.salt), c.iterations.to_string());
    let full = format!("{cn}{}", rs.snonce);
    let valid = rs.first(&st.cf);
    let (kind, m): (&'static str, Vec<u8>) = match src.below(10) {
        0 => ("control", valid.clone()),
        1..=3 => {
            let n = match src.below(14) {
                9.. => String::from_utf8(bend(src, full.as_bytes(), &[cn.len()], b"abXYZ019+/=")).unwrap(),
                0 => cn.clone(),
                1 => rs.snonce.clone(),
                2 => format!("{}{cn}", rs.snonce),
                3 => {
                    let mut b = full.clone().into_bytes();
                    let i = src.idx(cn.len());
                    b[i] = if b[i] == b'A' { b'B' } else { b'A' };
                    String::from_utf8(b).unwrap()
                }
                4 => full[..src.idx(cn.len())].to_string(),
                5 => full[1..].to_string(),
                6 => String::new(),
                7 => {
                    let l = cn.to_lowercase();
                    if l == cn {
                        String::new()
                    } else {
                        format!("{l}{}", rs.snonce)
                    }
                }
                _ => nonce(src),
            };
            if n.starts_with(&cn) && n.len() > cn.len() {
                return Ok(());
            }
            ("nonce", format!("r={n},s={s64},i={it}").into_bytes())
        }
        4 | 5 => {
            let i = *src.pick(&[
                "0", "00", "-1", "", "abc", "4096x", "x4096", "0x10", "4294967296", "99999999999999999999999", " 4096", "4096 ", "1e3", "4.0", "\u{663}", "+", "-", "+0", "-0", "1,2", "0,1",
            ]);
            let i = if src.chance(1, 4) {
                // beyond 32 (and 64) bits, with a residue that would be a count
                let small = 1 + src.below(4096) as u128;
                let k = 1 + src.below(1000) as u128;
                (small + (k << *src.pick(&[32u32, 32, 64]))).to_string()
            } else {
                i.to_string()
            };
            ("iterations", format!("r={full},s={s64},i={i}").into_bytes())
        }
        6 => {
            let len = 1 + src.idx(24);
            let b = src.bytes(len);
            let e64 = b64(&b);
            let s = match src.below(10) {
                6 | 7 if e64.ends_with('=') => e64.trim_end_matches('=').to_string(),
                6 | 7 => format!("{e64}=="),
                8 => {
                    let i = src.idx(e64.len());
                    format!("{}{}{}", &e64[..i], src.pick(&[" ", "\n", "\r\n", "-", "_", "\0", "\u{e4}"]), &e64[i + 1..])
                }
                9 => format!("{e64}\n"),
                0 => "!!!!".to_string(),
                1 => "abc".to_string(),
                2 => format!("{s64}="),
                3 => format!("={s64}"),
                4 => format!("{s64}*"),
                _ => "A".to_string(),
            };
            ("salt", format!("r={full},s={s},i={it}").into_bytes())
        }
        7 => {
            let m = match src.below(15) {
                0 => format!("s={s64},r={full},i={it}"),
                1 => format!("r={full},i={it},s={s64}"),
                2 => format!("r={full},s={s64}"),
                3 => format!("r={full}"),
                4 => String::new(),
                5 => format!("m=x,r={full},s={s64},i={it}"),
                11 => format!("r={full},s={s64},i={it},m=x"),
                12 => format!("r={full},s={s64},i={it},x=1,m=ext,y=2"),
                13 => format!("r={full},m=x,s={s64},i={it}"),
                6 => format!("{full},{s64},{it}"),
                7 => format!("R={full},S={s64},I={it}"),
                8 => format!("r={full} s={s64} i={it}"),
                9 => format!(",r={full},s={s64},i={it}"),
                10 => format!("r={full},s={s64},x={it}"),
                _ => format!("r={full},,s={s64},i={it}"),
            };
            ("attributes", m.into_bytes())
        }
        8 => {
            // an error or a verifier instead of the first message
            let m = *src.pick(&["v=", "v=AAAA", "e=other-error", "e=", "y", "n,,"]);
            ("attributes", m.as_bytes().to_vec())
        }
        _ => {
            let m = mutate(src, &valid, &[st.cf.bare.as_bytes()]);
            // judge only clear deviations: not three attributes r,s,i with our nonce
            let p: Vec<&[u8]> = m.split(|b| *b == b',').collect();
            let plausible = p.len() >= 3 && p[0].starts_with(format!("r={cn}").as_bytes()) && p[0].len() > cn.len() + 2 && p[1].starts_with(b"s=") && p[2].starts_with(b"i=");
            if plausible {
                return Ok(());
            }
            ("mutation", m)
        }
    };
    let out = st.cl.step(Some(&m));
    src.note(|| format!("{kind}: nonce {cn} S: {} C: {}", show(&m), out.desc()));
    if kind == "control" {
        return Ok(());
    }
    src.label(kind);
    src.nontrivial();
    ensure!(out.res.is_err(), "scram-client-accepts-first", "{kind}: the client (nonce {cn}) accepted server-first-message {}: {}", show(&m), out.desc());
    ensure!(!out.bytes.windows(2).any(|w| w == b"p="), "scram-client-accepts-first", "{kind}: the client sent a proof for {}", show(&m));
    ensure!(cached_events(&st.log).is_empty(), "scram-client-caches", "{kind}: keys were offered for caching");
    Ok(())
}

fn c03_final(src: &mut Src) -> R {
    let c = cred(src);
    let take = src.flag();
    let Some(mut st) = start_client(src, &c, take) else { return Ok(()) };
    let rs = RefServer { alg: c.alg, stored: c.stored(), snonce: snonce(src), cbdata: vec![] };
    let m1 = rs.first(&st.cf);
    let o2 = st.cl.step(Some(&m1));
    if !o2.running() {
        return Ok(());
    }
    ensure!(cached_events(&st.log).is_empty(), "scram-client-caches", "keys were offered for caching before the server was verified");
    let Ok(sig) = rs.check(&st.cf, &m1, &o2.bytes) else { return Ok(()) };
    let valid = rs.final_ok(&sig);
    let keys = c.alg.keys(&c.alg.hi(&c.password, &c.salt, c.iterations));
    let (kind, m): (&'static str, Vec<u8>) = match src.below(10) {
        0 => ("control", valid.clone()),
        1 => {
            let mut s = sig.clone();
            let i = src.idx(s.len());
            s[i] ^= 1 << src.below(8);
            ("wrong verifier", rs.final_ok(&s))
        }
        2 => {
            let mut s = sig.clone();
            match src.below(5) {
                0 => s.truncate(src.idx(s.len())),
                1 => {
                    let k = src.range(1, 20);
                    s.extend(src.bytes(k));
                }
                2 => {
                    s.remove(0);
                }
                3 => s = vec![0; s.len()],
                _ => s = s.repeat(2),
            }
            ("wrong verifier", rs.final_ok(&s))
        }
        3 => {
            // signatures under the wrong key or over the wrong message
            let without = o2.bytes.split(|b| *b == b',').take(2).collect::<Vec<_>>().join(&b',');
            let auth = [st.cf.bare.as_bytes(), b",", &m1, b",", &without].concat();
            let s = match src.below(8) {
                0 => c.alg.hmac(&keys.0, &auth),
                1 => c.alg.hmac(&c.alg.h(&keys.0), &auth),
                2 => c.alg.hmac(&keys.1, &o2.bytes),
                3 => c.alg.hmac(&keys.1, &auth[..auth.len() - 1]),
                4 => c.alg.hmac(&[], &auth),
                5 => keys.1.clone(),
                6 => c.alg.h(&auth),
                _ => c.alg.hmac(&vec![0; c.alg.len()], &auth),
            };
            ("wrong verifier", rs.final_ok(&s))
        }
        4 => {
            // reflect the client's own proof
            let p = o2.bytes.rsplit(|b| *b == b',').next().unwrap_or(b"").to_vec();
            ("wrong verifier", [b"v=", p.get(2..).unwrap_or(b"")].concat())
        }
        5 => {
            // the verifier of another exchange with the same credentials and the same server nonce
            let Some(mut o) = start_client(src, &c, false) else { return Ok(()) };
            let m1b = rs.first(&o.cf);
            let x = o.cl.step(Some(&m1b));
            let Ok(s) = rs.check(&o.cf, &m1b, &x.bytes) else { return Ok(()) };
            ("replayed verifier", rs.final_ok(&s))
        }
        6 => {
            let e = match src.below(4) {
                0 => (*src.pick(&[
                    "invalid-encoding", "extensions-not-supported", "invalid-proof", "channel-bindings-dont-match", "server-does-support-channel-binding", "channel-binding-not-supported",
                    "unsupported-channel-binding-type", "unknown-user", "invalid-username-encoding", "no-resources", "other-error",
                ]))
                .to_string(),
                1 => word(src, 12),
                2 => String::new(),
                _ => b64(&sig),
            };
            ("error message", format!("e={e}").into_bytes())
        }
        7 => {
            let v = String::from_utf8(valid.clone()).unwrap();
            let m = match src.below(20) {
                12.. => {
                    // the right verifier with something around it that is no base64
                    let j = junk(src);
                    match src.below(6) {
                        0..=2 => format!("{v}{j}"),
                        3 => format!("v={j}{}", &v[2..]),
                        4 => {
                            let i = 2 + src.idx(v.len() - 2);
                            format!("{}{j}{}", &v[..i], &v[i..])
                        }
                        _ => v.trim_end_matches('=').to_string(),
                    }
                }
                0 => String::new(),
                1 => "v".into(),
                2 => "v=".into(),
                3 => v[2..].to_string(),
                4 => format!("V={}", &v[2..]),
                5 => format!("e=,{v}"),
                6 => format!("x={}", &v[2..]),
                7 => format!(",{v}"),
                8 => format!("{v},m=1"),
                9 => format!("{v},x=1,m=ext"),
                10 => format!("e=other-error,{v}"),
                _ => format!("m=1,{v}"),
            };
            ("wrong verifier", m.into_bytes())
        }
        _ => {
            let m = mutate(src, &valid, &[&m1, &o2.bytes]);
            let first = m.split(|b| *b == b',').next().unwrap_or(b"");
            let probe = |v: &[u8]| -> Vec<u8> { [b"c=,r=,p=", v.get(2..).unwrap_or(b"!")].concat() };
            if m.starts_with(b"v=") && same_final(&probe(&valid), &probe(first)) {
                if m == valid {
                    ("control", m)
                } else {
                    return Ok(());
                }
            } else {
                ("mutation", m)
            }
        }
    };
    let out = st.cl.step(Some(&m));
    src.note(|| format!("{kind}: S: {} C: {}", show(&m), out.desc()));
    let cached = cached_events(&st.log);
    if kind == "control" {
        if out.fin(false) {
            src.label("control finished");
            let n = usize::from(take);
            ensure!(cached.len() == n, "scram-client-caches", "keys were offered {} times after a verified exchange", cached.len());
            for (ck, sk, ctx) in cached {
                ensure!(
                    (ck, sk) == keys && ctx.salt.as_deref() == Some(&c.salt[..]) && ctx.iterations == Some(c.iterations),
                    "scram-client-caches",
                    "wrong keys or context offered for caching"
                );
            }
        }
        return Ok(());
    }
    if m == valid {
        return Ok(());
    }
    src.label(kind);
    src.nontrivial();
    ensure!(out.res.is_err(), "scram-client-accepts-final", "{kind}: the client accepted {} instead of {}: {}", show(&m), show(&valid), out.desc());
    ensure!(cached.is_empty() && requests(&st.log, "ScramCachedPassword").iter().filter(|c| c.salt.is_some()).count() <= 1, "scram-client-caches", "{kind}: keys were offered for caching");
    Ok(())
}

/// Messages of the right form at the wrong time.
fn c03_order(src: &mut Src) -> R {
    let mut c = cred(src);
    c.iterations = c.iterations.min(20);
    let Some(mut st) = start_client(src, &c, true) else { return Ok(()) };
    let rs = RefServer { alg: c.alg, stored: c.stored(), snonce: snonce(src), cbdata: vec![] };
    let m1 = rs.first(&st.cf);
    let n = src.range(1, 4);
    let mut good_first = false;
    for _ in 0..n {
        let m: Vec<u8> = match src.below(4) {
            0 => b"v=".to_vec(),
            1 => rs.final_ok(&vec![0; c.alg.len()]),
            2 => {
                let k = c.alg.len();
                rs.final_ok(&src.bytes(k))
            }
            _ => m1.clone(),
        };
        let was = m == m1 && !good_first;
        let o = st.cl.step(Some(&m));
        src.note(|| format!("S: {} C: {}", show(&m), o.desc()));
        ensure!(!o.finished(), "scram-client-order", "the client finished without a verified server on {}: {}", show(&m), o.desc());
        if o.res.is_err() {
            break;
        }
        ensure!(was, "scram-client-order", "the client went on after {}: {}", show(&m), o.desc());
        good_first = true;
    }
    src.label("control finished");
    src.nontrivial();
    ensure!(cached_events(&st.log).is_empty(), "scram-client-caches", "keys were offered for caching without verification");
    Ok(())
}

/* ---------------------------------------------------------------- C04 */

/// Bindings by name; names may repeat between protocol and user with different data.
fn cbs(src: &mut Src, p: u64) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for n in ["tls-exporter", "tls-unique", "tls-server-end-point", "x"] {
        if src.chance(p, 4) {
            v.push((n.to_string(), cbdata(src)));
        }
    }
    v
}
fn find(v: &[(String, Vec<u8>)], n: &str) -> Option<Vec<u8>> {
    v.iter().find(|(a, _)| a == n).map(|(_, d)| d.clone())
}

/// Name and data a -PLUS client has to use.
fn client_choice(over: Option<&str>, proto: &[(String, Vec<u8>)], user: &[(String, Vec<u8>)]) -> Option<(String, Vec<u8>)> {
    let get = |n: &str| find(proto, n).or_else(|| find(user, n));
    let try_name = |n: &str| get(n).map(|d| (n.to_string(), d));
    match over {
        Some(n) => try_name(n),
        None => try_name("tls-exporter").or_else(|| try_name("tls-unique")),
    }
}

fn c04_flag(src: &mut Src) -> R {
    let c = cred(src);
    let (plain, plus) = (c.alg.mech(false), c.alg.mech(true));
    // mechanisms of another digest and unrelated ones in registry and offer must not matter
    let other = ALGS[(ALGS.iter().position(|a| *a == c.alg).unwrap() + 1) % 3];
    let mut reg = vec![];
    match src.below(4) {
        0 => reg.push(plain),
        _ => reg.extend([plain, plus]),
    }
    let noise: Vec<&str> = vec!["PLAIN", "EXTERNAL", "X-UNKNOWN", other.mech(true)];
    if src.flag() {
        reg.push("EXTERNAL");
    }
    src.shuffle(&mut reg);
    let mut offer = vec![];
    match src.below(4) {
        0 => offer.push(plain),
        1 if reg.contains(&plus) => offer.push(plus),
        _ => offer.extend([plain, plus]),
    }
    for n in noise {
        if src.chance(1, 3) && !(n == "EXTERNAL") {
            offer.push(n);
        }
    }
    if src.chance(1, 4) {
        let d = *src.pick(&offer);
        offer.push(d);
    }
    src.shuffle(&mut offer);
    let mut s = c.client_script();
    s.cb_enabled = src.chance(3, 4);
    let prefer_plain = src.chance(1, 3);
    if prefer_plain {
        s.order = Some(vec![plain.to_string(), plus.to_string()]);
    }
    let proto = ProtoCb(cbs(src, 2));
    s.bindings = cbs(src, 2);
    if src.chance(1, 3) {
        s.override_cb = Some(if src.flag() { cbname(src) } else { src.pick(&["tls-server-end-point", "x", "tls-unique"]).to_string() });
    }
    let (enabled, user, over) = (s.cb_enabled, s.bindings.clone(), s.override_cb.clone());
    src.note(|| format!("registry {reg:?} offer {offer:?} cb {enabled} prefer plain {prefer_plain} override {over:?} proto {:?} user {:?}", proto.0, user));
    let (cb, log) = Cb::new(s);
    let cfg = config(&reg, cb);
    let mut cl = match Sess::client_cb(&cfg, &offer, proto.clone()) {
        Ok(cl) => cl,
        Err(_) => {
            src.label("nothing to start");
            return Ok(());
        }
    };
    let got = cl.mechname();
    let o = cl.step(None);
    src.note(|| format!("{got}: {}", o.desc()));
    if got == plus {
        src.nontrivial();
        ensure!(enabled, "scram-flag", "{got} was started although channel binding is disabled");
        match client_choice(over.as_deref(), &proto.0, &user) {
            None => {
                ensure!(o.res.is_err(), "scram-flag", "{got} without any channel binding data went on: {}", o.desc());
                src.label("no data");
            }
            Some((n, _)) => {
                ensure!(o.running(), "scram-flag", "{got} with channel binding data for {n} failed: {}", o.desc());
                let cf = parse_client_first(&o.bytes).or_else(|e| fail("scram-client-first", format!("{}: {e}", show(&o.bytes))))?;
                ensure!(cf.flag == Flag::P(n.clone()), "scram-flag", "flag {:?} instead of p={n}", cf.flag);
                src.label("flag p");
                if over.is_some() {
                    src.label("override");
                } else if n == "tls-exporter" {
                    src.label("exporter");
                } else {
                    src.label("unique");
                }
                if find(&proto.0, &n).is_some() {
                    let asked = requests(&log, "ChannelBindings").iter().any(|c| c.cbname.as_deref() == Some(&n));
                    ensure!(!asked, "scram-cb-order", "the user was asked for {n} although the protocol has it");
                }
            }
        }
        return Ok(());
    }
    ensure!(got == plain, "scram-flag", "started {got}");
    ensure!(o.running(), "scram-flag", "{got}: {}", o.desc());
    let cf = parse_client_first(&o.bytes).or_else(|e| fail("scram-client-first", format!("{}: {e}", show(&o.bytes))))?;
    let offered_plus = offer.contains(&plus);
    if !enabled {
        src.label("flag n");
        ensure!(cf.flag == Flag::N, "scram-flag", "channel binding is disabled, but the flag is {:?}", cf.flag);
    } else if offered_plus {
        src.nontrivial();
        ensure!(cf.flag == Flag::N, "scram-flag", "the server offered {plus}, the client chose {plain} and sent flag {:?}", cf.flag);
    } else if reg.contains(&plus) {
        src.nontrivial();
        src.label("flag y");
        ensure!(cf.flag == Flag::Y, "scram-flag", "channel binding is enabled and {plus} was not offered, but the flag is {:?}", cf.flag);
    }
    // the c= attribute must repeat the flag
    let rs = RefServer { alg: c.alg, stored: c.stored(), snonce: "srv".into(), cbdata: vec![] };
    let m1 = rs.first(&cf);
    let o2 = cl.step(Some(&m1));
    ensure!(o2.running(), "scram-flag", "client final: {}", o2.desc());
    if let Err(e) = rs.check(&cf, &m1, &o2.bytes) {
        return fail("scram-flag", format!("client-final {} after {}: {e}", show(&o2.bytes), show(&o.bytes)));
    }
    Ok(())
}

fn c04_server(src: &mut Src) -> R {
    let c = cred(src);
    let (plain, plus) = (c.alg.mech(false), c.alg.mech(true));
    let plus_server = src.flag();
    let mech = if plus_server { plus } else { plain };
    let reg_has_plus = plus_server || src.flag();
    let mut reg = vec![mech];
    if reg_has_plus && !plus_server {
        reg.push(plus);
    }
    if src.flag() && plus_server {
        reg.push(plain);
    }
    src.shuffle(&mut reg);
    let proto = ProtoCb(cbs(src, 2));
    let user = cbs(src, 2);
    let flag = match src.below(5) {
        0 => Flag::N,
        1 => Flag::Y,
        _ => Flag::P(if src.chance(1, 3) { cbname(src) } else { src.pick(&["tls-exporter", "tls-unique", "tls-server-end-point", "x"]).to_string() }),
    };
    // a name that only resembles one the server has data for, with that one's data
    let near: Vec<_> = proto.0.iter().chain(&user).filter(|(n, _)| n.len() > 1).cloned().collect();
    let near = (plus_server && !near.is_empty() && src.chance(1, 8)).then(|| near[src.idx(near.len())].clone());
    let flag = match &near {
        Some((n, _)) => Flag::P(match src.below(4) {
            0 => n.to_ascii_uppercase(),
            1 => n.replace("tls", "TLS"),
            2 => n.replace('-', "."),
            _ => n[..n.len() - 1].to_string(),
        }),
        None => flag,
    };
    let srv_data = match &flag {
        Flag::P(n) => find(&proto.0, n).or_else(|| find(&user, n)),
        _ => None,
    };
    // the client's data: the same, or different in some way
    let mut data = match &flag {
        Flag::P(_) => srv_data.clone().unwrap_or_else(|| cbdata(src)),
        _ => vec![],
    };
    if let (Flag::P(n), true) = (&flag, src.chance(2, 5)) {
        match src.below(5) {
            0 => data = cbdata(src),
            1 => {
                data.pop();
            }
            2 => data.push(0),
            3 if !data.is_empty() => {
                let i = src.idx(data.len());
                data[i] ^= 1 << src.below(8);
            }
            _ => {
                // data of another name, or of the user where the protocol's has precedence
                let all: Vec<_> = proto.0.iter().chain(&user).collect();
                if let (Some(d), true) = (find(&user, n), src.flag()) {
                    data = d;
                } else if !all.is_empty() {
                    data = all[src.idx(all.len())].1.clone();
                } else {
                    data = vec![];
                }
            }
        }
    }
    if let Some((_, d)) = near {
        data = d;
    }
    let mut script = c.server_script();
    script.bindings = user.clone();
    script.cb_enabled = src.flag();
    let n = nonce(src);
    let client = c.ref_client(flag.clone(), &data, n);
    src.note(|| format!("{mech} registry {reg:?} flag {flag:?} client data {data:?} proto {:?} user {user:?}", proto.0));
    let (mut srv, log) = server_reg(&reg, mech, script, proto.clone());
    let o1 = srv.step(Some(&client.first()));
    let mut last = format!("first {} -> {}", show(&client.first()), o1.desc());
    let mut ok = false;
    if o1.running() {
        let sf = client.parse_server_first(&o1.bytes).or_else(|e| fail("scram-server-first", format!("{}: {e}", show(&o1.bytes))))?;
        let f = client.final_for(&o1.bytes, &sf);
        let o2 = srv.step(Some(&f.msg));
        last = format!("{last}; final {} -> {}", show(&f.msg), o2.desc());
        ok = o2.fin(true) && o2.bytes.starts_with(b"v=");
        src.nontrivial();
        if !ok {
            was_refused(&o2, &mut srv, &log, "scram-cb-server", "refused final")?;
        }
    } else {
        ensure!(o1.res.is_err(), "scram-cb-server", "{last}");
    }
    src.note(|| last.clone());
    let validated = !validations(&log).is_empty();
    ensure!(ok == validated, "scram-cb-server", "validated {validated}: {last}");
    match &flag {
        Flag::N if plus_server => {
            src.label("plus without binding");
            ensure!(!ok, "scram-plus-without-binding", "{mech} authenticated a client that does not support channel binding: {last}");
        }
        Flag::Y if plus_server => {
            src.label("plus without binding");
            ensure!(!ok, "scram-plus-without-binding", "{mech} authenticated a client that did not use channel binding: {last}");
        }
        Flag::Y if reg_has_plus => {
            src.label("downgrade");
            ensure!(!ok, "scram-downgrade", "{mech} accepted flag y although it supports {plus}: {last}");
        }
        Flag::N | Flag::Y => {
            ensure!(ok, "scram-cb-server", "{mech} refused flag {}: {last}", flag.text());
        }
        Flag::P(n) => match srv_data {
            None => {
                src.label("name unknown");
                ensure!(!ok, "scram-cb-server", "{mech} authenticated with unknown binding {n}: {last}");
            }
            Some(d) if d == data => {
                if plus_server {
                    src.label("bound");
                    ensure!(ok, "scram-cb-server", "{mech} refused matching channel bindings: {last}");
                    if find(&proto.0, n).is_some() {
                        let asked = requests(&log, "ChannelBindings").iter().any(|c| c.cbname.as_deref() == Some(n));
                        ensure!(!asked, "scram-cb-order", "the user was asked for {n} although the protocol has it");
                    }
                }
            }
            Some(_) => {
                src.label("data differs");
                ensure!(!ok, "scram-cb-server", "{mech} authenticated with different channel bindings: {last}");
            }
        },
    }
    Ok(())
}

fn c04_pair(src: &mut Src) -> R {
    let c = cred(src);
    let plus = c.alg.mech(true);
    let (cproto, cuser) = (ProtoCb(cbs(src, 3)), cbs(src, 2));
    // the server's data mostly equals the client's
    let derive = |src: &mut Src, v: &[(String, Vec<u8>)]| -> Vec<(String, Vec<u8>)> {
        let mut out = vec![];
        for (n, d) in v {
            match src.weighted(&[8, 1, 1]) {
                0 => out.push((n.clone(), d.clone())),
                1 => {
                    let mut d = d.clone();
                    if d.is_empty() {
                        d.push(0);
                    } else {
                        let i = src.idx(d.len());
                        d[i] ^= 1 << src.below(8);
                    }
                    out.push((n.clone(), d));
                }
                _ => {}
            }
        }
        out
    };
    let (mut sproto, mut suser) = (derive(src, &cproto.0), derive(src, &cuser));
    if src.chance(1, 4) {
        // the server gets its data from the other source
        std::mem::swap(&mut sproto, &mut suser);
    }
    let mut s = c.client_script();
    s.bindings = cuser.clone();
    if src.chance(1, 3) {
        s.override_cb = Some(src.pick(&["tls-exporter", "tls-server-end-point", "x", "tls-unique", "y.z-9"]).to_string());
    }
    let over = s.override_cb.clone();
    let mut ss = c.server_script();
    ss.bindings = suser.clone();
    src.note(|| format!("override {over:?} client proto {:?} user {cuser:?}; server proto {sproto:?} user {suser:?}", cproto.0));
    let (mut cl, _) = client_of_cb(plus, s, cproto.clone());
    let (mut srv, log) = server_of_cb(plus, ss, ProtoCb(sproto.clone()));
    let a = cl.step(None);
    let Some((name, data)) = client_choice(over.as_deref(), &cproto.0, &cuser) else {
        ensure!(a.res.is_err(), "scram-cb-pair", "a client without channel binding data went on: {}", a.desc());
        return Ok(());
    };
    ensure!(a.running(), "scram-cb-pair", "client start: {}", a.desc());
    let sdata = find(&sproto, &name).or_else(|| find(&suser, &name));
    let b = srv.step(Some(&a.bytes));
    src.note(|| format!("C: {} S: {}", a.desc(), b.desc()));
    let Some(sdata) = sdata else {
        src.label("name unknown");
        ensure!(b.res.is_err(), "scram-cb-pair", "a server without data for {name} went on: {}", b.desc());
        ensure!(validations(&log).is_empty(), "scram-cb-pair", "validation without binding data");
        return Ok(());
    };
    ensure!(b.running(), "scram-cb-pair", "server on {}: {}", show(&a.bytes), b.desc());
    let d = cl.step(Some(&b.bytes));
    ensure!(d.running(), "scram-cb-pair", "client on {}: {}", show(&b.bytes), d.desc());
    let e = srv.step(Some(&d.bytes));
    src.note(|| format!("C: {} S: {}", d.desc(), e.desc()));
    src.nontrivial();
    if data == sdata {
        src.label("bound");
        ensure!(e.fin(true) && e.bytes.starts_with(b"v="), "scram-cb-pair", "equal {name} data, but the server said {}", e.desc());
        let f = cl.step(Some(&e.bytes));
        ensure!(f.fin(false), "scram-cb-pair", "client on {}: {}", show(&e.bytes), f.desc());
        check_validated(&mut srv, &log, &c)
    } else {
        src.label("data differs");
        was_refused(&e, &mut srv, &log, "scram-cb-pair", "different data")?;
        let f = cl.step(Some(&e.bytes));
        ensure!(!f.finished(), "scram-cb-pair", "the client finished although the bindings differ: {}", f.desc());
        Ok(())
    }
}

fn c04_ref_server(src: &mut Src) -> R {
    let c = cred(src);
    let plus = c.alg.mech(true);
    let (proto, user) = (ProtoCb(cbs(src, 3)), cbs(src, 3));
    let mut s = c.client_script();
    s.bindings = user.clone();
    if src.chance(1, 3) {
        s.override_cb = Some(src.pick(&["tls-exporter", "tls-server-end-point", "x", "tls-unique"]).to_string());
    }
    let over = s.override_cb.clone();
    src.note(|| format!("override {over:?} proto {:?} user {user:?}", proto.0));
    let (mut cl, _) = client_of_cb(plus, s, proto.clone());
    let a = cl.step(None);
    let Some((name, data)) = client_choice(over.as_deref(), &proto.0, &user) else { return Ok(()) };
    ensure!(a.running(), "scram-cb-client", "client start: {}", a.desc());
    let cf = parse_client_first(&a.bytes).or_else(|e| fail("scram-client-first", format!("{}: {e}", show(&a.bytes))))?;
    ensure!(cf.flag == Flag::P(name.clone()), "scram-flag", "flag {:?} instead of p={name}", cf.flag);
    ensure!(cf.user == c.user && cf.authzid == c.authzid, "scram-identity", "{}", show(&a.bytes));
    let rs = RefServer { alg: c.alg, stored: c.stored(), snonce: snonce(src), cbdata: data };
    let m1 = rs.first(&cf);
    let o2 = cl.step(Some(&m1));
    src.note(|| format!("C: {} S: {} C: {}", show(&a.bytes), show(&m1), o2.desc()));
    ensure!(o2.running(), "scram-cb-client", "client final: {}", o2.desc());
    src.nontrivial();
    match rs.check(&cf, &m1, &o2.bytes) {
        Ok(v) => {
            let o3 = cl.step(Some(&rs.final_ok(&v)));
            ensure!(o3.fin(false), "scram-cb-client", "client finish: {}", o3.desc());
            Ok(())
        }
        Err(e) => fail("scram-cb-client", format!("client-final {}: {e}", show(&o2.bytes))),
    }
}

/* ---------------------------------------------------------------- C22 */

fn c22_forms(src: &mut Src) -> R {
    let c = cred(src);
    let salted = c.alg.hi(&c.password, &c.salt, c.iterations);
    let keys = c.alg.keys(&salted);
    let best = src.below(3); // 0 cached, 1 salted, 2 password
    let mut s = Script { authid: Some(c.user.clone()), authzid: c.authzid.clone(), ..Script::default() };
    let wrong = |src: &mut Src, v: &[u8]| -> Vec<u8> {
        let mut v = v.to_vec();
        let i = src.idx(v.len());
        v[i] ^= 1 << src.below(7);
        v
    };
    let mut size_wrong = false;
    let mut shadowed = false;
    match best {
        0 => {
            s.cached = Some(keys.clone());
            if src.chance(1, 4) {
                size_wrong = true;
                let k = s.cached.as_mut().unwrap();
                let both = src.below(3);
                let n = if src.flag() { src.range(0, c.alg.len() - 1) } else { c.alg.len() + src.range(1, 40) };
                if both != 1 {
                    k.0.resize(n, 7);
                }
                if both != 0 {
                    k.1.resize(n, 7);
                }
            }
            src.label(if size_wrong { "wrong size" } else { "cached" });
        }
        1 => {
            s.salted = Some(salted.clone());
            src.label("salted");
        }
        _ => {
            s.password = Some(c.password.clone());
            src.label("password");
        }
    }
    if best < 1 && src.flag() {
        s.salted = Some(if src.flag() { salted.clone() } else { wrong(src, &salted) });
        shadowed = true;
    }
    if best < 2 && src.flag() {
        s.password = Some(if src.flag() { c.password.clone() } else { wrong(src, &c.password) });
        shadowed = true;
    }
    // an empty salted password counts as none
    if best == 2 && src.chance(1, 6) {
        s.salted = Some(vec![]);
    }
    if shadowed {
        src.label("shadowed");
    }
    s.take_cached = s.cached.is_none();
    src.note(|| format!("cached {:?} salted {:?} password {:?}", s.cached, s.salted, s.password));
    let take = s.take_cached;
    let (mut cl, log) = client_of(c.alg.mech(false), s);
    let a = cl.step(None);
    ensure!(a.running(), "scram-forms", "client start: {}", a.desc());
    let cf = parse_client_first(&a.bytes).or_else(|e| fail("scram-client-first", format!("{}: {e}", show(&a.bytes))))?;
    let rs = RefServer { alg: c.alg, stored: c.stored(), snonce: snonce(src), cbdata: vec![] };
    let m1 = rs.first(&cf);
    let o2 = cl.step(Some(&m1));
    src.note(|| format!("C: {}", o2.desc()));
    src.nontrivial();
    if size_wrong {
        ensure!(o2.res.is_err(), "scram-wrong-size-keys", "cached keys of the wrong size were used: {}", o2.desc());
        ensure!(!o2.bytes.windows(2).any(|w| w == b"p="), "scram-wrong-size-keys", "a proof was sent: {}", o2.desc());
        return Ok(());
    }
    ensure!(o2.running(), "scram-forms", "client final: {}", o2.desc());
    for n in ["ScramCachedPassword", "SaltedPassword", "Password"] {
        for r in requests(&log, n) {
            ensure!(r.salt.as_deref() == Some(&c.salt[..]) && r.iterations == Some(c.iterations), "scram-context", "{n} requested with salt {:?} and iteration count {:?}", r.salt, r.iterations);
        }
    }
    let v = match rs.check(&cf, &m1, &o2.bytes) {
        Ok(v) => v,
        Err(e) => return fail("scram-forms", format!("client-final {}: {e}", show(&o2.bytes))),
    };
    // the verifier must be checked whatever the form
    if src.chance(1, 4) {
        let bad = wrong(src, &v);
        let o3 = cl.step(Some(&rs.final_ok(&bad)));
        ensure!(o3.res.is_err(), "scram-forms", "wrong verifier accepted: {}", o3.desc());
        ensure!(cached_events(&log).is_empty(), "scram-client-caches", "keys were handed out although the verifier was wrong");
        return Ok(());
    }
    let o3 = cl.step(Some(&rs.final_ok(&v)));
    ensure!(o3.fin(false), "scram-forms", "client finish: {}", o3.desc());
    let ev = cached_events(&log);
    ensure!(ev.len() == usize::from(take), "scram-client-caches", "keys handed out {} times", ev.len());
    for (ck, sk, ctx) in ev {
        ensure!((ck, sk) == keys, "scram-client-caches", "wrong keys handed out");
        ensure!(ctx.salt.as_deref() == Some(&c.salt[..]) && ctx.iterations == Some(c.iterations), "scram-client-caches", "keys handed out with salt {:?} and iteration count {:?}", ctx.salt, ctx.iterations);
    }
    Ok(())
}

fn c22_cache(src: &mut Src) -> R {
    let c = cred(src);
    let mech = c.alg.mech(false);
    let mut s = c.client_script();
    s.take_cached = true;
    if src.flag() {
        s.salted = Some(c.alg.hi(&c.password, &c.salt, c.iterations));
        s.password = None;
        src.label("salted");
    } else {
        src.label("password");
    }
    let (mut cl, log) = client_of(mech, s);
    let (mut srv, _) = server_of(mech, c.server_script());
    run_both(&mut cl, &mut srv)?;
    let ev = cached_events(&log);
    ensure!(ev.len() == 1, "scram-client-caches", "keys were handed out {} times", ev.len());
    let (ck, sk, _) = ev[0].clone();
    // second exchange with the cached keys only
    let s2 = Script { authid: Some(c.user.clone()), cached: Some((ck, sk)), ..Script::default() };
    src.label("cached");
    let (mut cl, _) = client_of(mech, s2);
    let (mut srv, slog) = server_of(mech, c.server_script());
    run_both(&mut cl, &mut srv)?;
    src.nontrivial();
    ensure!(validations(&slog).len() == 1, "scram-forms", "no validation");
    Ok(())
}
fn run_both(cl: &mut Sess, srv: &mut Sess) -> R {
    let a = cl.step(None);
    ensure!(a.running(), "scram-forms", "client start: {}", a.desc());
    let b = srv.step(Some(&a.bytes));
    ensure!(b.running(), "scram-forms", "server on {}: {}", show(&a.bytes), b.desc());
    let d = cl.step(Some(&b.bytes));
    ensure!(d.running(), "scram-forms", "client on {}: {}", show(&b.bytes), d.desc());
    let e = srv.step(Some(&d.bytes));
    ensure!(e.fin(true), "scram-forms", "server on {}: {}", show(&d.bytes), e.desc());
    let f = cl.step(Some(&e.bytes));
    ensure!(f.fin(false), "scram-forms", "client on {}: {}", show(&e.bytes), f.desc());
    Ok(())
}

fn c22_tools(src: &mut Src) -> R {
    use rsasl::mechanisms::scram::tools::{compute_signatures, derive_keys, hash_password};
    let c = cred(src);
    classify(src, &c);
    let want = c.alg.hi(&c.password, &c.salt, c.iterations);
    let parts: Vec<String> = (0..6).map(|_| word(src, 12)).collect();
    let [n, r, rs, salt, i, cb] = &parts[..] else { unreachable!() };
    let auth = format!("n={n},r={r},r={r}{rs},s={salt},i={i},c={cb},r={r}{rs}");
    macro_rules! go {
        ($d:ty) => {{
            let mut out = Default::default();
            hash_password::<$d>(&c.password, c.iterations, &c.salt, &mut out);
            let n = src.size(80);
            let key = if src.flag() { want.clone() } else { src.bytes(n) };
            let (a, b) = derive_keys::<$d>(&key);
            let stored = <$d as digest::Digest>::digest(&a);
            let (mut cs, mut ss) = Default::default();
            compute_signatures::<$d>(&stored, &b, &parts[0], parts[1].as_bytes(), parts[2].as_bytes(), parts[3].as_bytes(), parts[4].as_bytes(), parts[5].as_bytes(), &mut cs, &mut ss);
            let signed = (c.alg.hmac(&stored, auth.as_bytes()) == cs.to_vec(), c.alg.hmac(&b, auth.as_bytes()) == ss.to_vec());
            (out.to_vec(), key, (a.to_vec(), b.to_vec()), signed)
        }};
    }
    let (h, key, k, signed) = match c.alg {
        Alg::Sha1 => go!(sha1::Sha1),
        Alg::Sha256 => go!(sha2::Sha256),
        Alg::Sha512 => go!(sha2::Sha512),
    };
    src.nontrivial();
    ensure!(h == want, "scram-tools", "hash_password({:?}, {}, {:?}) = {h:?} instead of {want:?}", c.password, c.iterations, c.salt);
    ensure!(k == c.alg.keys(&key), "scram-tools", "derive_keys({key:?}) = {k:?}");
    ensure!(signed == (true, true), "scram-tools", "compute_signatures of {auth:?}: right signatures of client and server: {signed:?}");
    Ok(())
}

/* ---------------------------------------------------------------- C23 */

static SEEN: Mutex<Option<HashSet<String>>> = Mutex::new(None);
fn first_time(s: String) -> bool {
    SEEN.lock().unwrap_or_else(std::sync::PoisonError::into_inner).get_or_insert_with(HashSet::new).insert(s)
}
fn printable(n: &str) -> bool {
    n.bytes().all(|b| matches!(b, 0x21..=0x2b | 0x2d..=0x7e))
}

/// (client nonce, server nonce, salt if the user is unknown)
fn wire(alg: Alg, user: &str, known: bool) -> Result<(String, String, Vec<u8>), Fail> {
    let mech = alg.mech(false);
    let (mut cl, _) = client_of(mech, Script { authid: Some(user.to_string()), password: Some(b"pw".to_vec()), ..Script::default() });
    let a = cl.step(None);
    ensure!(a.running(), "scram-nonce", "client start: {}", a.desc());
    let cf = parse_client_first(&a.bytes).or_else(|e| fail("scram-nonce", format!("{}: {e}", show(&a.bytes))))?;
    let mut script = Script::default();
    if known {
        script.users.insert(user.to_string(), Stored { iterations: 1, salt: vec![1; 16], stored_key: vec![2; alg.len()], server_key: vec![3; alg.len()] });
    }
    let (mut srv, _) = server_of(mech, script);
    let b = srv.step(Some(&a.bytes));
    ensure!(b.running(), "scram-nonce", "server on {}: {}", show(&a.bytes), b.desc());
    let rc = RefClient { alg, flag: Flag::N, authzid: None, user: user.to_string(), password: vec![], nonce: cf.nonce.clone(), cbdata: vec![] };
    let sf = rc.parse_server_first(&b.bytes).or_else(|e| fail("scram-nonce", format!("{}: {e}", show(&b.bytes))))?;
    let sn = sf.nonce[cf.nonce.len()..].to_string();
    Ok((cf.nonce, sn, sf.salt))
}

fn c23_fresh(src: &mut Src) -> R {
    let threads = if src.flag() { 1 } else { src.range(2, 4) };
    let per = src.range(4, 24);
    let alg = *src.pick(&ALGS);
    let user = some_user(src);
    let known = src.flag();
    if threads > 1 {
        src.label("threads");
    }
    if !known {
        src.label("unknown user");
    }
    src.nontrivial();
    let work = move |user: String| -> Result<Vec<(String, String, Vec<u8>)>, Fail> { (0..per).map(|_| wire(alg, &user, known)).collect() };
    let mut all = vec![];
    if threads == 1 {
        all.extend(work(user)?);
    } else {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let u = user.clone();
                std::thread::spawn(move || work(u))
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(r) => all.extend(r?),
                Err(_) => return fail("panic", "a thread running exchanges panicked"),
            }
        }
    }
    src.note(|| format!("{} exchanges on {threads} threads, first {:?}", all.len(), all[0]));
    for (c, s, salt) in all {
        ensure!(c.len() >= 18 && printable(&c), "scram-nonce", "client nonce {c:?}");
        ensure!(s.len() >= 18 && printable(&s), "scram-nonce", "server nonce {s:?}");
        ensure!(first_time(format!("n{c}")), "scram-nonce-reuse", "client nonce {c:?} was used before");
        ensure!(first_time(format!("n{s}")), "scram-nonce-reuse", "server nonce {s:?} was used before");
        if !known {
            ensure!(salt.len() >= 8, "scram-nonce", "salt of an unknown user has {} bytes", salt.len());
            ensure!(first_time(format!("s{salt:?}")), "scram-nonce-reuse", "salt {salt:?} of an unknown user was used before");
        }
    }
    Ok(())
}

/// The same first message, sent again and again, never gets the same answer.
fn c23_replayed(src: &mut Src) -> R {
    let c = cred(src);
    let known = src.flag();
    let n = nonce(src);
    let client = c.ref_client(Flag::N, &[], n);
    let mech = c.alg.mech(false);
    let script = if known { c.server_script() } else { Script::default() };
    let shared = src.flag();
    if shared {
        src.label("same session configuration");
    }
    if !known {
        src.label("unknown user");
    }
    src.nontrivial();
    let cfg = config(&[mech], Cb::new(script.clone()).0);
    for i in 0..src.range(2, 6) {
        let mut srv = if shared {
            Sess::server_cb(&cfg, mech, ProtoCb::default()).map_err(|e| Fail { sig: "start".into(), msg: format!("{e:?}"), harness: false })?
        } else {
            server_of(mech, script.clone()).0
        };
        let o = srv.step(Some(&client.first()));
        ensure!(o.running(), "scram-nonce", "first message: {}", o.desc());
        let sf = client.parse_server_first(&o.bytes).or_else(|e| fail("scram-nonce", format!("{}: {e}", show(&o.bytes))))?;
        let own = sf.nonce[client.nonce.len()..].to_string();
        ensure!(own.len() >= 18 && printable(&own), "scram-nonce", "server nonce {own:?}");
        ensure!(first_time(format!("n{own}")), "scram-nonce-reuse", "server nonce {own:?} was used before (time {i} that {} was sent)", show(&client.first()));
        if !known {
            ensure!(first_time(format!("s{:?}", sf.salt)), "scram-nonce-reuse", "salt {:?} of an unknown user was used before", sf.salt);
        }
    }
    Ok(())
}

/// What a process that just started uses: printed by `rsasl-pbt nonces`.
pub fn first_nonces() -> Vec<String> {
    let mut v = vec![];
    for alg in ALGS {
        for _ in 0..4 {
            match wire(alg, "user", false) {
                Ok((a, b, c)) => v.extend([format!("n{a}"), format!("n{b}"), format!("s{c:?}")]),
                Err(f) => v.push(f.msg),
            }
        }
    }
    v
}
fn c23_restart(src: &mut Src) -> R {
    let n = src.range(2, 6);
    src.label("restarted");
    src.nontrivial();
    let h = |e: std::io::Error| Fail { sig: "harness".into(), msg: format!("process: {e}"), harness: true };
    let exe = std::env::current_exe().map_err(h)?;
    let mut ps = vec![];
    for _ in 0..n {
        ps.push(std::process::Command::new(&exe).arg("nonces").stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).spawn().map_err(h)?);
    }
    for p in ps {
        let o = p.wait_with_output().map_err(h)?;
        if !o.status.success() {
            return Err(Fail { sig: "harness".into(), msg: format!("process: {}", o.status), harness: true });
        }
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            ensure!(first_time(l.to_string()), "scram-nonce-reuse", "{l:?} was used before, by another process");
        }
    }
    src.note(|| format!("{n} processes"));
    Ok(())
}

fn spread(name: &str, rows: &[Vec<u8>], min_distinct: usize) -> R {
    let len = rows.iter().map(Vec::len).min().unwrap_or(0);
    let n = rows.len();
    for i in 0..len {
        let d: HashSet<u8> = rows.iter().map(|r| r[i]).collect();
        ensure!(d.len() >= min_distinct, "scram-nonce-spread", "position {i} of the {name} takes only {} values in {n} exchanges", d.len());
        for j in 0..i {
            let eq = rows.iter().filter(|r| r[i] == r[j]).count();
            ensure!(eq * 4 < n, "scram-nonce-spread", "positions {j} and {i} of the {name} are equal in {eq} of {n} exchanges");
        }
    }
    Ok(())
}
/// The nonces and salts of a server that is given the same message again and again.
fn c23_spread_server(src: &mut Src) -> R {
    let c = cred(src);
    let known = src.flag();
    let n = nonce(src);
    let client = c.ref_client(Flag::N, &[], n);
    let mech = c.alg.mech(false);
    let cfg = config(&[mech], Cb::new(if known { c.server_script() } else { Script::default() }).0);
    let mut s = vec![];
    let mut salts = vec![];
    for _ in 0..512 {
        let mut srv = Sess::server_cb(&cfg, mech, ProtoCb::default()).map_err(|e| Fail { sig: "start".into(), msg: format!("{e:?}"), harness: false })?;
        let o = srv.step(Some(&client.first()));
        ensure!(o.running(), "scram-nonce", "first message: {}", o.desc());
        let sf = client.parse_server_first(&o.bytes).or_else(|e| fail("scram-nonce", format!("{}: {e}", show(&o.bytes))))?;
        s.push(sf.nonce[client.nonce.len()..].as_bytes().to_vec());
        salts.push(sf.salt);
    }
    src.nontrivial();
    src.note(|| format!("512 servers given {}, e.g. {}", show(&client.first()), show(&s[0])));
    spread("server nonce", &s, 40)?;
    if !known {
        src.label("unknown user");
        spread("salt", &salts, 100)?;
    }
    Ok(())
}

/// A name a client can send
fn some_user(src: &mut Src) -> String {
    let u = text(src, Txt { max: 20, empty: false, nul: false, soh: true });
    if u.is_empty() || u.contains('\0') {
        word(src, 8)
    } else {
        u
    }
}

fn c23_spread(src: &mut Src) -> R {
    if src.flag() {
        return c23_spread_server(src);
    }
    let alg = *src.pick(&ALGS);
    let user = some_user(src);
    let mut c = vec![];
    let mut s = vec![];
    let mut salts = vec![];
    for _ in 0..512 {
        let (a, b, d) = wire(alg, &user, false)?;
        c.push(a.into_bytes());
        s.push(b.into_bytes());
        salts.push(d);
    }
    src.label("unknown user");
    src.nontrivial();
    src.note(|| format!("512 exchanges, e.g. {} {}", show(&c[0]), show(&s[0])));
    spread("client nonce", &c, 40)?;
    spread("server nonce", &s, 40)?;
    spread("salt", &salts, 100)?;
    let both: Vec<usize> = c.iter().zip(&s).map(|(a, b)| a.iter().zip(b).filter(|(x, y)| x == y).count()).collect();
    let eq: usize = both.iter().sum();
    ensure!(eq * 4 < 512 * 18, "scram-nonce-spread", "client and server nonces agree in {eq} characters of 512 exchanges");
    Ok(())
}

/* ---------------------------------------------------------------- C24 */

fn c24_unknown(src: &mut Src) -> R {
    let c = cred(src);
    let mech = c.alg.mech(false);
    let mut script = Script::default();
    // a known user whose name is close
    if src.flag() {
        let near = match src.below(5) {
            0 => format!("{}x", c.user),
            1 => c.user.to_uppercase(),
            2 => escape(&c.user),
            3 => String::new(),
            _ => c.user.chars().skip(1).collect(),
        };
        if near != c.user {
            script.users.insert(near, c.stored());
            src.label("near miss");
        }
    }
    let n = nonce(src);
    let client = c.ref_client(Flag::N, &[], n);
    let (mut srv, log) = server_of(mech, script);
    let o1 = srv.step(Some(&client.first()));
    src.note(|| format!("C: {} S: {}", show(&client.first()), o1.desc()));
    ensure!(o1.running(), "scram-unknown-user", "first message of an unknown user: {}", o1.desc());
    let sf = client.parse_server_first(&o1.bytes).or_else(|e| fail("scram-unknown-user", format!("{}: {e}", show(&o1.bytes))))?;
    ensure!(sf.salt.len() >= 8, "scram-unknown-user", "salt of {} bytes", sf.salt.len());
    ensure!(sf.nonce.len() >= client.nonce.len() + 18, "scram-unknown-user", "short server nonce in {}", show(&o1.bytes));
    let keys = match src.below(4) {
        0 => {
            src.label("zero keys");
            (vec![0; c.alg.len()], vec![0; c.alg.len()])
        }
        1 => {
            src.label("zero keys");
            c.alg.keys(&vec![0; c.alg.len()])
        }
        2 => c.alg.keys(b""),
        _ => {
            let k = c.alg.len();
            (src.bytes(k), src.bytes(k))
        }
    };
    let f = client.final_with(&o1.bytes, &sf.nonce, &keys, None, "");
    let m = match src.below(4) {
        0 => {
            src.label("mutation");
            mutate(src, &f.msg, &[&o1.bytes])
        }
        1 => {
            // a proof of zeros, and one that would match an all-zero stored key
            let z = vec![0u8; c.alg.len()];
            let auth = format!("{},{}", f.auth_prefix, f.without_proof);
            let p = if src.flag() { c.alg.hmac(&z, auth.as_bytes()) } else { z };
            format!("{},p={}", f.without_proof, b64(&p)).into_bytes()
        }
        _ => f.msg,
    };
    let o2 = srv.step(Some(&m));
    src.note(|| format!("C: {} S: {}", show(&m), o2.desc()));
    src.nontrivial();
    was_refused(&o2, &mut srv, &log, "scram-unknown-user", "unknown user")
}

/// The first message of a known and of an unknown user get the same kind of answer, whatever else it says.
fn c24_twins(src: &mut Src) -> R {
    let c = cred(src);
    let plus = src.flag();
    let mech = c.alg.mech(plus);
    let reg: Vec<&str> = if src.flag() { vec![mech, c.alg.mech(!plus)] } else { vec![mech] };
    let binding = *src.pick(&["tls-unique", "tls-exporter", "x"]);
    let flag = match src.below(if plus { 8 } else { 4 }) {
        0 | 1 => Flag::N,
        2 => Flag::Y,
        _ => Flag::P(binding.to_string()),
    };
    let (mut ccb, mut bindings) = (ProtoCb::default(), vec![]);
    match src.below(3) {
        0 => ccb.0.push((binding.to_string(), b"data".to_vec())),
        1 => bindings.push((binding.to_string(), b"data".to_vec())),
        _ => src.label("missing binding"),
    }
    let n = nonce(src);
    let mut m = c.ref_client(flag, b"data", n).first();
    if src.chance(1, 4) {
        src.label("damaged");
        m = mutate(src, &m, &[]);
    }
    src.nontrivial();
    let mut answer = |known: bool| {
        let mut script = if known { c.server_script() } else { Script::default() };
        script.bindings = bindings.clone();
        let (mut s, log) = server_reg(&reg, mech, script, ccb.clone());
        let o = s.step(Some(&m));
        let v = validations(&log).len();
        (o, v)
    };
    let ((a, va), (b, vb)) = (answer(true), answer(false));
    src.note(|| format!("{mech}: {} known: {} unknown: {}", show(&m), a.desc(), b.desc()));
    src.label(if a.ok() { "both continue" } else { "both refuse" });
    ensure!(va + vb == 0, "scram-unknown-user", "validated at the first message");
    ensure!(a.ok() == b.ok() && (a.ok() || format!("{:?}", a.res) == format!("{:?}", b.res)), "scram-unknown-user", "{}: a known user is answered with {}, an unknown one with {}", show(&m), a.desc(), b.desc());
    if a.ok() {
        let parts = |m: &[u8]| -> Vec<u8> { m.split(|b| *b == b',').map(|p| p.first().copied().unwrap_or(0)).collect() };
        ensure!(parts(&a.bytes) == parts(&b.bytes), "scram-unknown-user", "{}: a known user is answered with {}, an unknown one with {}", show(&m), a.desc(), b.desc());
        let r = |m: &[u8]| m.split(|b| *b == b',').next().map_or(0, <[u8]>::len);
        ensure!(r(&a.bytes) == r(&b.bytes), "scram-unknown-user", "{}: the nonces for a known user, {}, and an unknown one, {}, are told apart by their length", show(&m), a.desc(), b.desc());
    }
    Ok(())
}

fn c24_key_size(src: &mut Src) -> R {
    let c = cred(src);
    let mech = c.alg.mech(false);
    let mut st = c.stored();
    let len = |src: &mut Src| match src.below(4) {
        0 => 0,
        1 => src.idx(c.alg.len()),
        2 => c.alg.len() + 1,
        _ => *[20, 32, 64, 128].iter().filter(|x| **x != c.alg.len()).nth(src.idx(3)).unwrap(),
    };
    let which = src.below(3);
    if which != 1 {
        let n = len(src);
        st.stored_key.resize(n, 0);
    }
    if which != 0 {
        let n = len(src);
        st.server_key.resize(n, 0);
    }
    let stored_bad = st.stored_key.len() != c.alg.len() || st.server_key.len() != c.alg.len();
    let mut script = Script::default();
    script.users.insert(c.user.clone(), st.clone());
    let n = nonce(src);
    let client = c.ref_client(Flag::N, &[], n);
    let (mut srv, log) = server_of(mech, script);
    let o1 = srv.step(Some(&client.first()));
    src.note(|| format!("stored {} server {} bytes: {}", st.stored_key.len(), st.server_key.len(), o1.desc()));
    if !stored_bad {
        return harness_bug("key size not wrong");
    }
    src.label("wrong size");
    src.nontrivial();
    ensure!(o1.res.is_err(), "scram-key-size", "a credential with keys of {} and {} bytes was used for {mech}: {}", st.stored_key.len(), st.server_key.len(), o1.desc());
    ensure!(validations(&log).is_empty() && srv.validation().is_none(), "scram-key-size", "validated");
    Ok(())
}

//! Independent reference implementation of both sides of SCRAM (RFC 5802, RFC 7677), written from the
//! RFCs, on top of the plain hash and HMAC primitives only.
use crate::common::{b64, unb64, Stored};
use hmac::{Hmac, Mac};
use sha1::{Digest, Sha1};
use sha2::{Sha256, Sha512};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Alg {
    Sha1,
    Sha256,
    Sha512,
}
pub const ALGS: [Alg; 3] = [Alg::Sha1, Alg::Sha256, Alg::Sha512];
impl Alg {
    pub fn len(self) -> usize {
        match self {
            Alg::Sha1 => 20,
            Alg::Sha256 => 32,
            Alg::Sha512 => 64,
        }
    }
    pub fn mech(self, plus: bool) -> &'static str {
        match (self, plus) {
            (Alg::Sha1, false) => "SCRAM-SHA-1",
            (Alg::Sha1, true) => "SCRAM-SHA-1-PLUS",
            (Alg::Sha256, false) => "SCRAM-SHA-256",
            (Alg::Sha256, true) => "SCRAM-SHA-256-PLUS",
            (Alg::Sha512, false) => "SCRAM-SHA-512",
            (Alg::Sha512, true) => "SCRAM-SHA-512-PLUS",
        }
    }
    pub fn h(self, d: &[u8]) -> Vec<u8> {
        match self {
            Alg::Sha1 => Sha1::digest(d).to_vec(),
            Alg::Sha256 => Sha256::digest(d).to_vec(),
            Alg::Sha512 => Sha512::digest(d).to_vec(),
        }
    }
    pub fn hmac(self, k: &[u8], d: &[u8]) -> Vec<u8> {
        macro_rules! go {
            ($h:ty) => {{
                let mut m = <Hmac<$h> as Mac>::new_from_slice(k).unwrap();
                m.update(d);
                m.finalize().into_bytes().to_vec()
            }};
        }
        match self {
            Alg::Sha1 => go!(Sha1),
            Alg::Sha256 => go!(Sha256),
            Alg::Sha512 => go!(Sha512),
        }
    }
    /// Hi(str, salt, i) of RFC 5802 section 2.2
    pub fn hi(self, pw: &[u8], salt: &[u8], i: u32) -> Vec<u8> {
        macro_rules! go {
            ($h:ty) => {{
                let base = <Hmac<$h> as Mac>::new_from_slice(pw).unwrap();
                let mut m = base.clone();
                m.update(salt);
                m.update(&[0, 0, 0, 1]);
                let mut u = m.finalize().into_bytes();
                let mut out = u.to_vec();
                for _ in 1..i {
                    let mut m = base.clone();
                    m.update(&u);
                    u = m.finalize().into_bytes();
                    for (o, x) in out.iter_mut().zip(u.iter()) {
                        *o ^= x;
                    }
                }
                out
            }};
        }
        match self {
            Alg::Sha1 => go!(Sha1),
            Alg::Sha256 => go!(Sha256),
            Alg::Sha512 => go!(Sha512),
        }
    }
    pub fn keys(self, salted: &[u8]) -> (Vec<u8>, Vec<u8>) {
        (self.hmac(salted, b"Client Key"), self.hmac(salted, b"Server Key"))
    }
    pub fn stored(self, pw: &[u8], salt: &[u8], i: u32) -> Stored {
        let (ck, sk) = self.keys(&self.hi(pw, salt, i));
        Stored { iterations: i, salt: salt.to_vec(), stored_key: self.h(&ck), server_key: sk }
    }
}
pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}
pub fn escape(s: &str) -> String {
    s.replace('=', "=3D").replace(',', "=2C")
}
/// saslname: no NUL, no ',', '=' only as "=2C" or "=3D", not empty
pub fn unescape(s: &[u8]) -> Option<String> {
    if s.is_empty() {
        return None;
    }
    let s = std::str::from_utf8(s).ok()?;
    let mut out = String::new();
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        match c {
            '=' => {
                out.push(match rest.get(1..3)? {
                    "2C" => ',',
                    "3D" => '=',
                    _ => return None,
                });
                rest = &rest[3..];
            }
            ',' | '\0' => return None,
            c => {
                out.push(c);
                rest = &rest[c.len_utf8()..];
            }
        }
    }
    Some(out)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Flag {
    N,
    Y,
    P(String),
}
impl Flag {
    pub fn text(&self) -> String {
        match self {
            Flag::N => "n".into(),
            Flag::Y => "y".into(),
            Flag::P(n) => format!("p={n}"),
        }
    }
}

/* ---------------------------------------------------------------- client */

#[derive(Clone, Debug)]
pub struct RefClient {
    pub alg: Alg,
    pub flag: Flag,
    pub authzid: Option<String>,
    pub user: String,
    pub password: Vec<u8>,
    pub nonce: String,
    pub cbdata: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct RefFinal {
    pub msg: Vec<u8>,
    pub proof: Vec<u8>,
    pub server_sig: Vec<u8>,
    pub nonce: String,
    pub without_proof: String,
    pub client_key: Vec<u8>,
    pub server_key: Vec<u8>,
    pub auth_prefix: String,
}
pub struct ServerFirst {
    pub nonce: String,
    pub salt: Vec<u8>,
    pub iterations: u32,
}
impl RefClient {
    pub fn gs2(&self) -> String {
        let a = self.authzid.as_ref().map(|a| format!("a={}", escape(a))).unwrap_or_default();
        format!("{},{a},", self.flag.text())
    }
    pub fn bare(&self) -> String {
        format!("n={},r={}", escape(&self.user), self.nonce)
    }
    pub fn first(&self) -> Vec<u8> {
        format!("{}{}", self.gs2(), self.bare()).into_bytes()
    }
    /// Strict parser of what a server may send first (without extensions).
    pub fn parse_server_first(&self, m: &[u8]) -> Result<ServerFirst, String> {
        let m = std::str::from_utf8(m).map_err(|e| e.to_string())?;
        let p: Vec<&str> = m.split(',').collect();
        if p.len() != 3 {
            return Err(format!("{} attributes", p.len()));
        }
        let r = p[0].strip_prefix("r=").ok_or("no r=")?;
        let s = p[1].strip_prefix("s=").ok_or("no s=")?;
        let i = p[2].strip_prefix("i=").ok_or("no i=")?;
        if !r.starts_with(&self.nonce) || r.len() == self.nonce.len() {
            return Err("nonce does not extend the client's".into());
        }
        if !r.bytes().all(|b| matches!(b, 0x21..=0x2b | 0x2d..=0x7e)) {
            return Err("nonce not printable".into());
        }
        let salt = unb64(s.as_bytes()).ok_or("salt not base64")?;
        if i.is_empty() || !i.bytes().all(|b| b.is_ascii_digit()) || i.starts_with('0') {
            return Err("iteration count not a positive number".into());
        }
        let iterations = i.parse().map_err(|_| "iteration count too large")?;
        Ok(ServerFirst { nonce: r.to_string(), salt, iterations })
    }
    pub fn final_for(&self, server_first: &[u8], sf: &ServerFirst) -> RefFinal {
        let salted = self.alg.hi(&self.password, &sf.salt, sf.iterations);
        let keys = self.alg.keys(&salted);
        self.final_with(server_first, &sf.nonce, &keys, None, "")
    }
    /// `cbind` overrides the c= attribute's content, `ext` is inserted before the proof ("," included)
    pub fn final_with(&self, server_first: &[u8], nonce: &str, keys: &(Vec<u8>, Vec<u8>), cbind: Option<&[u8]>, ext: &str) -> RefFinal {
        let mut cb = self.gs2().into_bytes();
        cb.extend_from_slice(&self.cbdata);
        let c = b64(cbind.unwrap_or(&cb));
        let without_proof = format!("c={c},r={nonce}{ext}");
        let auth_prefix = format!("{},{}", self.bare(), String::from_utf8_lossy(server_first));
        let auth = format!("{auth_prefix},{without_proof}");
        let stored = self.alg.h(&keys.0);
        let proof = xor(&keys.0, &self.alg.hmac(&stored, auth.as_bytes()));
        let server_sig = self.alg.hmac(&keys.1, auth.as_bytes());
        let msg = format!("{without_proof},p={}", b64(&proof)).into_bytes();
        RefFinal { msg, proof, server_sig, nonce: nonce.to_string(), without_proof, client_key: keys.0.clone(), server_key: keys.1.clone(), auth_prefix }
    }
}

/* ---------------------------------------------------------------- server */

#[derive(Clone, Debug)]
pub struct ClientFirst {
    pub flag: Flag,
    pub authzid: Option<String>,
    pub user: String,
    pub nonce: String,
    pub gs2: String,
    pub bare: String,
}
/// Strict parser of client-first-message (without extensions).
pub fn parse_client_first(m: &[u8]) -> Result<ClientFirst, String> {
    let m = std::str::from_utf8(m).map_err(|e| e.to_string())?;
    let p: Vec<&str> = m.split(',').collect();
    if p.len() != 4 {
        return Err(format!("{} attributes in client-first", p.len()));
    }
    let flag = match p[0] {
        "n" => Flag::N,
        "y" => Flag::Y,
        f => {
            let n = f.strip_prefix("p=").ok_or("bad flag")?;
            if n.is_empty() || !n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'.' || b == b'-') {
                return Err("bad binding name".into());
            }
            Flag::P(n.to_string())
        }
    };
    let authzid = if p[1].is_empty() { None } else { Some(unescape(p[1].strip_prefix("a=").ok_or("bad authzid")?.as_bytes()).ok_or("bad authzid")?) };
    let user = unescape(p[2].strip_prefix("n=").ok_or("no n=")?.as_bytes()).ok_or("bad user name")?;
    let nonce = p[3].strip_prefix("r=").ok_or("no r=")?;
    if nonce.is_empty() || !nonce.bytes().all(|b| matches!(b, 0x21..=0x2b | 0x2d..=0x7e)) {
        return Err("bad nonce".into());
    }
    Ok(ClientFirst { flag, authzid, user, nonce: nonce.to_string(), gs2: format!("{},{},", p[0], p[1]), bare: format!("{},{}", p[2], p[3]) })
}
pub struct RefServer {
    pub alg: Alg,
    pub stored: Stored,
    pub snonce: String,
    pub cbdata: Vec<u8>,
}
impl RefServer {
    pub fn first(&self, cf: &ClientFirst) -> Vec<u8> {
        format!("r={}{},s={},i={}", cf.nonce, self.snonce, b64(&self.stored.salt), self.stored.iterations).into_bytes()
    }
    /// Verifies the client's final message; the verifier on success.
    pub fn check(&self, cf: &ClientFirst, server_first: &[u8], m: &[u8]) -> Result<Vec<u8>, String> {
        let m = std::str::from_utf8(m).map_err(|e| e.to_string())?;
        let p: Vec<&str> = m.split(',').collect();
        if p.len() != 3 {
            return Err(format!("{} attributes in client-final", p.len()));
        }
        let c = unb64(p[0].strip_prefix("c=").ok_or("no c=")?.as_bytes()).ok_or("c= not base64")?;
        let r = p[1].strip_prefix("r=").ok_or("no r=")?;
        let proof = unb64(p[2].strip_prefix("p=").ok_or("no p=")?.as_bytes()).ok_or("p= not base64")?;
        let mut want = cf.gs2.clone().into_bytes();
        if let Flag::P(_) = cf.flag {
            want.extend_from_slice(&self.cbdata);
        }
        if c != want {
            return Err("channel binding input differs".into());
        }
        if r != format!("{}{}", cf.nonce, self.snonce) {
            return Err("nonce differs".into());
        }
        if proof.len() != self.alg.len() {
            return Err("proof has the wrong length".into());
        }
        let auth = format!("{},{},{},{}", cf.bare, String::from_utf8_lossy(server_first), p[0], p[1]);
        let sig = self.alg.hmac(&self.stored.stored_key, auth.as_bytes());
        if self.alg.h(&xor(&proof, &sig)) != self.stored.stored_key {
            return Err("proof does not match".into());
        }
        Ok(self.alg.hmac(&self.stored.server_key, auth.as_bytes()))
    }
    pub fn final_ok(&self, verifier: &[u8]) -> Vec<u8> {
        format!("v={}", b64(verifier)).into_bytes()
    }
}

use crate::engine::Src;
pub fn nonce(src: &mut Src) -> String {
    if src.chance(1, 60) {
        // longer than any buffer
        let n = crate::common::boundary(src);
        let c = *src.pick(b"aZ0=/~!");
        return String::from_utf8(long(src, n, c)).unwrap();
    }
    let n = match src.below(4) {
        0 => 1,
        1 => src.range(2, 40),
        _ => 24,
    };
    (0..n)
        .map(|_| {
            let c = 0x21 + src.below(0x7e - 0x21 + 1) as u8;
            if c == b',' {
                'x'
            } else {
                c as char
            }
        })
        .collect()
}
pub fn iterations(src: &mut Src) -> u32 {
    match src.weighted(&[2000, 500, 150, 20, 2]) {
        0 => 1 + src.below(8) as u32,
        1 => 1 + src.below(200) as u32,
        2 => *src.pick(&[255, 256, 257, 1000, 4096]),
        3 => 1 + src.below(20_000) as u32,
        _ => 60_000 + src.below(80_000) as u32,
    }
}
/// Many bytes, nearly all the same, so that parts of it differ by their place alone at the end.
pub fn long(src: &mut Src, n: usize, c: u8) -> Vec<u8> {
    let mut v = vec![c; n];
    for k in [n - 1, n / 2] {
        v[k] = *src.pick(b"bcdefgh");
    }
    v
}
pub fn salt(src: &mut Src) -> Vec<u8> {
    if src.chance(1, 60) {
        let n = crate::common::boundary(src);
        let c = src.below(256) as u8;
        return long(src, n, c);
    }
    let n = match src.below(3) {
        0 => 16,
        1 => src.range(1, 8),
        _ => src.range(1, 70),
    };
    src.bytes(n)
}
pub fn snonce(src: &mut Src) -> String {
    nonce(src)
}
pub fn cbname(src: &mut Src) -> String {
    match src.below(4) {
        0 => "tls-exporter".into(),
        1 => "tls-unique".into(),
        2 => "tls-server-end-point".into(),
        // names that only resemble a registered one
        _ if src.chance(1, 5) => {
            let n = *src.pick(&["tls-exporter", "tls-unique", "tls-server-end-point"]);
            match src.below(6) {
                0 => n.to_ascii_uppercase(),
                1 => n.replace("tls", "TLS"),
                2 => n.replace('-', "."),
                3 => n[..n.len() - 1].to_string(),
                4 => format!("{n}s"),
                _ => n.chars().map(|c| if src.flag() { c.to_ascii_uppercase() } else { c }).collect(),
            }
        }
        _ if src.chance(1, 16) => {
            let n = crate::common::boundary(src);
            let c = *src.pick(b"aZ0.-");
            String::from_utf8(long(src, n, c)).unwrap()
        }
        _ => {
            let n = src.range(1, 12);
            (0..n).map(|_| *src.pick(b"abcXYZ019.-") as char).collect()
        }
    }
}

//! C28: builds of rsasl with generated feature selections, run through the probe crate (../probe).
use crate::engine::*;
use crate::ensure;
use crate::scramref::ALGS;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "A case is a feature selection of the crate (some of the nine mechanism features, the provider, builder, registry, test and custom-mechanism features), with generated credentials and offers. A probe crate is built with it against the working tree and run: it prints the default registry of both sides, the choice made for each offer and the outcome of an exchange of every enabled mechanism. The oracle is a table of which feature brings which mechanism. Non-trivial: a selection other than the default and all features whose build could run exchanges.",
        assumptions: &[
            "one compiler (the pinned stable toolchain) and this platform",
            "not judged: whether the default registry contains GSSAPI (without registry_static) or the SCRAM -PLUS mechanisms when their features are on",
            "the selection with no features at all, and selections without 'std', are documented as not supported",
        ],
        suites: vec![suite("one-mechanism", one, 16, 80), suite("some-mechanisms", some, 32, 320)],
        expect_labels: &["ran"],
    }]
}

const FEATURES: [&str; 9] = ["scram-sha-1", "scram-sha-2", "anonymous", "external", "plain", "login", "xoauth2", "oauthbearer", "gssapi"];
/// Mechanism, its feature, its place in the documented order.
const MECHANISMS: [(&str, usize, u32); 9] = [
    ("SCRAM-SHA-512", 1, 600),
    ("SCRAM-SHA-256", 1, 600),
    ("SCRAM-SHA-1", 0, 400),
    ("PLAIN", 4, 300),
    ("LOGIN", 5, 200),
    ("ANONYMOUS", 2, 100),
    ("EXTERNAL", 3, 100),
    ("XOAUTH2", 6, 300),
    ("OAUTHBEARER", 7, 300),
];
const PLUS: [(&str, usize); 3] = [("SCRAM-SHA-512-PLUS", 1), ("SCRAM-SHA-256-PLUS", 1), ("SCRAM-SHA-1-PLUS", 0)];
/// What `with_credentials` is documented to offer.
const CREDENTIALS: [&str; 5] = ["SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN", "LOGIN"];

fn one(s: &mut Src) -> R {
    let mut on = [false; 9];
    on[s.idx(9)] = true;
    case(s, on)
}
fn some(s: &mut Src) -> R {
    let mut on = [false; 9];
    let d = *s.pick(&[3u64, 5, 7]);
    for f in &mut on[..8] {
        *f = s.chance(d, 10);
    }
    on[8] = s.chance(1, 4);
    case(s, on)
}

struct Selection {
    on: [bool; 9],
    provider: bool,
    builder: bool,
    base64: bool,
    fixed: bool,
    testutils: bool,
    custom: bool,
}
impl Selection {
    fn list(&self) -> Vec<&'static str> {
        let mut v: Vec<&'static str> = FEATURES.iter().enumerate().filter(|(i, _)| self.on[*i]).map(|(_, f)| *f).collect();
        for (b, n) in [
            (self.provider, "provider"),
            (self.builder, "config_builder"),
            (self.base64, "provider_base64"),
            (self.fixed, "registry_static"),
            (self.testutils, "testutils"),
            (self.custom, "unstable_custom_mechanism"),
        ] {
            if b {
                v.push(n);
            }
        }
        v
    }
    fn runs(&self) -> bool {
        (self.provider || self.base64) && (self.builder || self.testutils)
    }
    fn has(&self, name: &str) -> bool {
        MECHANISMS.iter().any(|(n, f, _)| *n == name && self.on[*f]) || PLUS.iter().any(|(n, f)| *n == name && self.on[*f])
    }
}

fn text(s: &mut Src, max: usize) -> String {
    let n = 1 + s.size(max);
    (0..n).map(|_| *s.pick(&['a', 'Z', '7', ',', '=', '@', '.', 'é', 'ß', '中'])).collect()
}

fn hex(b: &[u8]) -> String {
    b.iter().fold(String::new(), |mut s, c| {
        let _ = write!(s, "{c:02x}");
        s
    })
}

fn case(s: &mut Src, on: [bool; 9]) -> R {
    // 0 is the simplest choice: what the exchanges need is on
    let sel = Selection {
        on,
        provider: !s.chance(1, 12),
        builder: !s.chance(1, 12),
        base64: s.chance(1, 3),
        fixed: s.chance(2, 5),
        testutils: s.chance(1, 6),
        custom: s.chance(1, 3),
    };
    let list = sel.list();
    s.note(|| format!("features: std {}", list.join(" ")));
    let user = text(s, 12);
    let authzid = if s.flag() { Some(text(s, 12)) } else { None };
    let password = text(s, 12);
    let token: String = (0..1 + s.size(20)).map(|_| *s.pick(&['t', 'o', 'K', '0', '-', '.', '_', '~', '+', '/'])).collect();
    let iterations = 1 + s.below(40) as u32;
    let salt_len = 1 + s.size(20);
    let salt = s.bytes(salt_len);
    let mut offers: Vec<Vec<&str>> = vec![];
    for _ in 0..6 {
        let mut o: Vec<&str> = MECHANISMS.iter().map(|m| m.0).collect();
        o.push("X-NOTHING");
        s.shuffle(&mut o);
        o.truncate(1 + s.idx(10));
        offers.push(o);
    }
    let mut input = String::new();
    let _ = writeln!(input, "user={}\npassword={}\ntoken={}\niterations={}\nsalt={}", hex(user.as_bytes()), hex(password.as_bytes()), hex(token.as_bytes()), hex(iterations.to_string().as_bytes()), hex(&salt));
    if let Some(z) = &authzid {
        let _ = writeln!(input, "authzid={}", hex(z.as_bytes()));
    }
    for h in ALGS {
        let st = h.stored(password.as_bytes(), &salt, iterations);
        let _ = writeln!(input, "stored.{}={}\nserver.{}={}", h.mech(false), hex(&st.stored_key), h.mech(false), hex(&st.server_key));
    }
    for o in &offers {
        let _ = writeln!(input, "offer={}", o.join(","));
    }
    let out = build_and_run(&list, &input)?;
    s.note(|| out.clone());
    let lines: Vec<Vec<&str>> = out.lines().map(|l| l.split(' ').collect()).collect();
    ensure!(lines.last().is_some_and(|l| l == &["end"]), "feature-run", "with features {}: the probe stopped early", list.join(","));
    if !sel.runs() {
        s.label("no sessions");
        ensure!(lines.first().is_some_and(|l| l == &["name", "SCRAM-SHA-1"]), "feature-name", "with features {}: a mechanism name is not parsed", list.join(","));
        return Ok(());
    }
    s.label("ran");
    s.nontrivial();
    if sel.on.iter().filter(|x| **x).count() == 1 {
        s.label("single mechanism");
    }
    if sel.fixed {
        s.label("static registry");
    }
    if sel.custom && sel.fixed {
        s.label("custom mechanism");
    }
    let with = format!("with features {}", list.join(","));
    registries(&sel, &lines, &with)?;
    // choices
    let choices: Vec<_> = lines.iter().filter(|l| l[0] == "choice").collect();
    ensure!(choices.len() == offers.len(), "feature-run", "{with}: {} of {} choices", choices.len(), offers.len());
    for l in choices {
        let best = MECHANISMS.iter().filter(|(n, _, _)| sel.has(n) && l[1].split(',').any(|o| o == *n)).map(|m| m.2).max();
        let ok = match best {
            None => l[2] == "no",
            Some(b) => MECHANISMS.iter().any(|(n, _, p)| *n == l[2] && *p == b && sel.has(n) && l[1].split(',').any(|o| o == *n)),
        };
        ensure!(ok, "feature-choice", "{with}: offered {} the client chose {}", l[1], l[2]);
    }
    // exchanges
    let times = if sel.base64 { 2 } else { 1 };
    let x = |b: &str| format!("x{}", hex(b.as_bytes()));
    let (u, p, t) = (x(&user), x(&password), x(&token));
    let z = authzid.as_deref().map_or("-".to_string(), x);
    let no = || "-".to_string();
    for (n, want) in MECHANISMS.iter().map(|m| m.0).chain(PLUS.iter().map(|m| m.0)).filter(|n| sel.has(n)).map(|n| {
        (
            n,
            match n {
                "PLAIN" => [u.clone(), z.clone(), p.clone(), no()],
                "LOGIN" => [u.clone(), no(), p.clone(), no()],
                "ANONYMOUS" => [no(), no(), no(), t.clone()],
                "EXTERNAL" => [no(), z.clone(), no(), no()],
                "XOAUTH2" => [u.clone(), no(), no(), t.clone()],
                "OAUTHBEARER" => [no(), z.clone(), no(), t.clone()],
                _ => [u.clone(), z.clone(), no(), no()],
            },
        )
    }) {
        let got: Vec<_> = lines.iter().filter(|l| l[0] == "exchange" && l[1] == n).collect();
        ensure!(got.len() == times, "feature-exchange", "{with}: {} exchanges of {n}, expected {times}", got.len());
        for l in got {
            let ok = l.len() == 7
                && l[6] == "finished"
                && (0..4).all(|i| {
                    let (a, b) = (l[2 + i], want[i].as_str());
                    a == b || (i == 1 && (a == "x" || a == "-") && (b == "x" || b == "-"))
                });
            ensure!(ok, "feature-exchange", "{with}: {n} did {:?}, expected {want:?} finished", &l[2..]);
        }
    }
    let extra: Vec<_> = lines.iter().filter(|l| l[0] == "exchange" && !sel.has(l[1])).collect();
    ensure!(extra.is_empty(), "feature-exchange", "{with}: exchanges of mechanisms without their feature: {extra:?}");
    Ok(())
}

/// Which mechanisms the default registry, and the one for credentials, have.
fn registries(sel: &Selection, lines: &[Vec<&str>], with: &str) -> R {
    let x_probe = sel.fixed && sel.custom;
    for what in ["default", "default2", "cred", "credz"] {
        let cred = what.starts_with("cred");
        let judge = |n: &str, kind: &str| -> Option<bool> {
            if n == "X-PROBE" {
                // credentials are only offered to the mechanisms meant for them
                return Some(x_probe && !cred);
            }
            if n == "GSSAPI" {
                return match (cred, sel.on[8], sel.fixed) {
                    (true, _, _) | (_, false, _) => Some(false),
                    (_, _, true) => Some(true),
                    _ => None,
                };
            }
            if PLUS.iter().any(|m| m.0 == n) {
                return if cred || !sel.has(n) { Some(false) } else { None };
            }
            // whether the other side would use the configuration of a client is not specified
            if cred && kind != "client" {
                return if sel.has(n) { None } else { Some(false) };
            }
            Some(sel.has(n) && (!cred || (CREDENTIALS.contains(&n) && !(n == "LOGIN" && what == "credz"))))
        };
        let mut seen: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
        for l in lines.iter().filter(|l| l[0] == what) {
            match (l[1], l.len()) {
                ("available", _) => {
                    let names: Vec<&str> = l.get(2).map_or(vec![], |v| v.split(',').filter(|n| !n.is_empty()).collect());
                    seen.entry("available").or_default().extend(&names);
                    for n in names {
                        ensure!(judge(n, "available") != Some(false), "feature-registry", "{with}: {what} offers {n}");
                    }
                }
                (kind @ ("client" | "server"), 4) => {
                    let (n, got) = (l[2], l[3]);
                    if got != "no" {
                        ensure!(got == n, "feature-registry", "{with}: {what}: {kind} asked for {n} started {got}");
                        seen.entry(if kind == "client" { "client" } else { "server" }).or_default().insert(n);
                        ensure!(judge(n, kind) != Some(false), "feature-registry", "{with}: {what}: the {kind} starts {n}");
                    }
                }
                _ => return harness_bug(format!("odd line {l:?}")),
            }
        }
        for kind in ["available", "client", "server"] {
            let have = seen.remove(kind).unwrap_or_default();
            let all = MECHANISMS.iter().map(|m| m.0).chain(PLUS.iter().map(|m| m.0)).chain(["GSSAPI", "X-NOTHING"]);
            for n in all.chain((kind == "available").then_some("X-PROBE")) {
                ensure!(judge(n, kind) != Some(true) || have.contains(n), "feature-registry", "{with}: {what}: {n} is missing ({kind})");
            }
        }
    }
    Ok(())
}

/* ---------------------------------------------------------------- building */

/// Build directories in use. Those with GSSAPI need many more dependencies, so they share two.
static SLOTS: Mutex<(Vec<&'static str>, Vec<&'static str>)> = Mutex::new((Vec::new(), Vec::new()));
static FREED: Condvar = Condvar::new();
const PLAIN_SLOTS: [&str; 6] = ["p0", "p1", "p2", "p3", "p4", "p5"];
const GSS_SLOTS: [&str; 2] = ["g0", "g1"];

fn read_all<T: Read + Send + 'static>(mut r: T) -> std::thread::JoinHandle<String> {
    std::thread::spawn(move || {
        let mut v = vec![];
        let _ = (&mut r).take(4 << 20).read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    })
}

/// Runs a command with the given standard input; None if it took too long.
fn run(c: &mut Command, input: &str, limit: Duration) -> Result<Option<(bool, String, String)>, Fail> {
    let mut ch = match c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => return harness_bug(format!("cannot start {c:?}: {e}")),
    };
    let (o, e) = (read_all(ch.stdout.take().unwrap()), read_all(ch.stderr.take().unwrap()));
    let _ = ch.stdin.take().unwrap().write_all(input.as_bytes());
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => return Ok(Some((st.success(), o.join().unwrap_or_default(), e.join().unwrap_or_default()))),
            Ok(None) if t0.elapsed() < limit => std::thread::sleep(Duration::from_millis(10)),
            _ => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Ok(None);
            }
        }
    }
}

fn build_and_run(features: &[&str], input: &str) -> Result<String, Fail> {
    let gss = features.contains(&"gssapi");
    let mut busy = SLOTS.lock().unwrap();
    let slot = loop {
        let (used, all): (&mut Vec<_>, &[&'static str]) = if gss { (&mut busy.1, &GSS_SLOTS) } else { (&mut busy.0, &PLAIN_SLOTS) };
        if let Some(s) = all.iter().find(|s| !used.contains(s)) {
            used.push(s);
            break *s;
        }
        busy = FREED.wait(busy).unwrap();
    };
    drop(busy);
    let r = build_and_run_in(slot, features, input);
    let mut busy = SLOTS.lock().unwrap();
    busy.0.retain(|s| *s != slot);
    busy.1.retain(|s| *s != slot);
    drop(busy);
    FREED.notify_all();
    r
}
/// Removes what was built for one selection; the dependencies stay.
fn prune(debug: &std::path::Path) {
    for d in ["deps", ".fingerprint"] {
        for e in std::fs::read_dir(debug.join(d)).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().contains("rsasl") {
                let _ = if e.path().is_dir() { std::fs::remove_dir_all(e.path()) } else { std::fs::remove_file(e.path()) };
            }
        }
    }
    let _ = std::fs::remove_file(debug.join("rsasl-probe"));
}
fn build_and_run_in(slot: &str, features: &[&str], input: &str) -> Result<String, Fail> {
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let target = dir.join("target").join("probe").join(slot);
    let mut c = Command::new("cargo");
    c.args(["build", "--offline", "--locked", "-q", "-j", "4", "--features", &features.join(",")])
        .current_dir(dir.join("probe"))
        .env("CARGO_TARGET_DIR", &target)
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_INCREMENTAL", "0")
        .env("CARGO_TERM_COLOR", "never");
    if std::env::var_os("RUSTUP_TOOLCHAIN").is_none() {
        c.env("RUSTUP_TOOLCHAIN", "1.82.0");
    }
    let what = features.join(",");
    let Some((ok, _, err)) = run(&mut c, "", Duration::from_secs(300))? else {
        return harness_bug(format!("building with features {what} took more than 300 s"));
    };
    if !ok {
        let first: Vec<&str> = err.lines().filter(|l| l.starts_with("error")).collect();
        let trouble = ["signal:", "No space left", "Cannot allocate memory", "internal compiler error"].iter().any(|t| err.contains(t));
        if !trouble && err.contains("could not compile `rsasl`") {
            return fail("feature-build", format!("rsasl does not build with features {what}: {first:?}"));
        }
        if !trouble && err.contains("could not compile `rsasl-probe`") {
            return fail("feature-api", format!("the public interface misses something with features {what}: {first:?}"));
        }
        return harness_bug(format!("building the probe with features {what} failed: {err}"));
    }
    let debug = target.join("debug");
    let ran = run(&mut Command::new(debug.join("rsasl-probe")), input, Duration::from_secs(60));
    prune(&debug);
    let Some((ok, out, err)) = ran? else {
        return fail("feature-hang", format!("the probe built with features {what} did not end within 60 s"));
    };
    if !ok {
        let own = err.contains("src/full.rs") || err.contains("src/main.rs");
        return Err(Fail { sig: "feature-run".into(), msg: format!("the probe built with features {what} failed: {err}"), harness: own });
    }
    Ok(out)
}

//! C18, and the GSSAPI part of C05, C09, C10, C13, C17 and C19, against the stand-in library of
//! [`crate::fakegss`].
use super::flow::{bad_writer, WEnd};
use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::fakegss::{self as fg, Call, Scenario, CONF, INTEG, MUTUAL};
use rsasl::prelude::*;

const NONE: u8 = 1;
const INT: u8 = 2;
const CNF: u8 = 4;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        rule: "The GSS-API library is replaced by a stand-in with scripted context tokens, capabilities and faults whose wrapped messages are checksummed, ordered, directional and scrambled if encrypted. Suite pair runs a client with a server over generated capability flags and acceptable layers and then exchanges data, some of it tampered with; suites server and client give one side forged final tokens and offers; suite fault makes one library call fail. Non-trivial: the context was established.",
        assumptions: &["the stand-in behaves like a GSS-API library; a context without the confidentiality flag wraps without encrypting", "a user who accepts no layer at all is not judged beyond getting neither integrity nor encryption", "a final token that carries an authorization identity may be accepted or refused", "an offer or selection naming undefined bits may be refused or accepted as long as the layer in use is one both sides have"],
        suites: vec![suite("pair", c18_pair, 1_000_000, 5_000_000), suite("server", c18_server, 600_000, 3_000_000), suite("client", c18_client, 600_000, 3_000_000), suite("fault", c18_fault, 240_000, 1_200_000)],
        expect_labels: &["none", "integrity", "confidentiality", "no common layer", "tampered", "several layers", "layer not offered", "bad length", "not wrapped", "weak context", "1 token", "2 tokens", "3 tokens", "library fault"],
    }]
}

fn flags(src: &mut Src) -> u32 {
    let mut f = match src.weighted(&[3, 2, 1]) {
        0 => MUTUAL | CONF | INTEG,
        1 => [0, INTEG, CONF, CONF | INTEG, MUTUAL, MUTUAL | INTEG, MUTUAL | CONF][src.idx(7)],
        _ => (src.below(8) as u32 & 1) * MUTUAL | (src.below(2) as u32) * CONF | (src.below(2) as u32) * INTEG,
    };
    // flags that do not matter
    if src.chance(1, 3) {
        f |= *src.pick(&[1, 4, 8, 12, 128, 256]);
    }
    f
}
fn caps(flags: u32) -> u8 {
    NONE | if flags & INTEG != 0 { INT } else { 0 } | if flags & CONF != 0 { CNF } else { 0 }
}
const FULL: u32 = MUTUAL | CONF | INTEG;
fn full(flags: u32) -> bool {
    flags & FULL == FULL
}
fn layers(src: &mut Src) -> Option<u8> {
    match src.weighted(&[2, 6]) {
        0 => None,
        _ => Some(if src.chance(1, 12) { 0 } else { 1 + src.below(7) as u8 }),
    }
}
/// What the user accepts, at most.
fn accepts(l: Option<u8>) -> u8 {
    match l {
        None => 7,
        Some(0) => NONE,
        Some(x) => x,
    }
}

pub struct Gx {
    pub c: Sess,
    pub s: Sess,
    pub clog: LogRef,
    pub slog: LogRef,
    pub service: String,
    pub host: String,
    pub principal: String,
    pub client_layers: Option<u8>,
    pub server_layers: Option<u8>,
    pub cf: u32,
    pub sf: u32,
    pub tokens: u32,
}
fn gx(src: &mut Src, val: Val) -> Gx {
    let service = if src.chance(2, 3) { word(src, 6) } else { (*src.pick(&["imap", "xmpp", "HTTP", "ldap", "host", "SMTP", "svc-1", "_x", "\u{e9}", "a b", "nfs/x"])).to_string() };
    let host = match src.weighted(&[8, 4, 1]) {
        0 => word(src, 10),
        1 => (*src.pick(&["host.example.com", "host.example.com.", "HOST.Example.COM", "localhost", "localhost.localdomain", "127.0.0.1", "::1", "[::1]", "host:143", " host", "host ", "b\u{fc}cher.example", "xn--bcher-kva.example", "a@b", ".", "host@REALM"])).to_string(),
        _ => {
            let n = boundary(src);
            long_text(src, n)
        }
    };
    let principal = match src.weighted(&[8, 5, 1]) {
        0 => word(src, 10),
        1 => (*src.pick(&[
            "user@EXAMPLE.COM", "user@", "@EXAMPLE.COM", "user/admin@EXAMPLE.COM", "host/a.example.com@EXAMPLE.COM", "User@Example.Com", "a\\@b@R", "u\u{fc}@R", "user name@R", " user", "user\n", "user\0", "a,b=c@R", "WELLKNOWN/ANONYMOUS@WELLKNOWN:ANONYMOUS", "user@R1@R2", "root",
        ]))
        .to_string(),
        _ => {
            let n = boundary(src);
            long_text(src, n)
        }
    };
    let tokens = 1 + src.below(5) as u32;
    let cf = flags(src);
    let sf = if src.chance(1, 4) { flags(src) } else { cf };
    let (cl, sl) = (layers(src), layers(src));
    src.label(["1 token", "2 tokens", "3 tokens", "4 tokens", "5 tokens"][tokens as usize - 1]);
    if !full(cf) || !full(sf) {
        src.label("weak context");
    }
    fg::install(Scenario { tokens, client_flags: cf, server_flags: sf, id: src.below(1 << 40), principal: principal.clone().into_bytes(), ..Scenario::default() });
    let (c, clog) = client_of("GSSAPI", Script { service: Some(service.clone()), hostname: Some(host.clone()), layers: cl, ..Script::default() });
    let (s, slog) = server_of("GSSAPI", Script { layers: sl, val, ..Script::default() });
    src.note(|| format!("{tokens} context tokens, client {cf:#x} accepts {cl:?}, server {sf:#x} accepts {sl:?}"));
    Gx { c, s, clog, slog, service, host, principal, client_layers: cl, server_layers: sl, cf, sf, tokens }
}

/// Whether the (side's n-th) step needs a message, so that a call without one may be inserted.
fn needs(g: &Gx, server: bool, nth: usize) -> bool {
    // steps that take a context token: client 1 + floor(tokens / 2), the first of them without one
    let (t, n) = (g.tokens as usize, nth);
    if server {
        let ctx = t.div_ceil(2);
        // an even number of tokens ends with the server's, whose answer is an empty message
        n < ctx || n > ctx - usize::from(t % 2 == 1)
    } else {
        // the last step takes the offer
        n == 1 + t / 2
    }
}

/// One exchange; `spurious` inserts calls without input where a message is needed.
fn run(src: &mut Src, g: &mut Gx, spurious: bool) -> Result<Driven, Fail> {
    let mut d = Driven { client: vec![], server: vec![], client_done: false, server_done: false, stuck: false };
    let mut client_turn = true;
    let mut input: Option<Vec<u8>> = None;
    for _ in 0..20 {
        if if client_turn { d.client_done } else { d.server_done } {
            d.stuck = input.is_some();
            break;
        }
        let nth = if client_turn { d.client.len() } else { d.server.len() };
        if spurious && needs(g, !client_turn, nth) && src.chance(1, 3) {
            let o = if client_turn { g.c.step(None) } else { g.s.step(None) };
            src.label("no input");
            src.nontrivial();
            ensure!(
                matches!(o.res, Err(SessionError::InputDataRequired)) && o.bytes.is_empty(),
                "gssapi-no-input",
                "GSSAPI {}: step {nth} without the required message: {}",
                if client_turn { "client" } else { "server" },
                o.desc()
            );
        }
        let o = if client_turn { g.c.step(input.as_deref()) } else { g.s.step(input.as_deref()) };
        src.note(|| format!("{} {} -> {}", if client_turn { "client" } else { "server" }, input.as_deref().map_or("(none)".into(), show), o.desc()));
        input = match &o.res {
            Ok(State::Running) | Ok(State::Finished(MessageSent::Yes)) => Some(o.bytes.clone()),
            _ => None,
        };
        let (err, fin) = (o.res.is_err(), o.finished());
        if client_turn {
            d.client_done |= fin;
            d.client.push(o);
        } else {
            d.server_done |= fin;
            d.server.push(o);
        }
        if err || (d.client_done && d.server_done && input.is_none()) {
            break;
        }
        client_turn = !client_turn;
    }
    Ok(d)
}

fn layer_name(l: u8) -> &'static str {
    match l {
        NONE => "none",
        INT => "integrity",
        CNF => "confidentiality",
        _ => "several",
    }
}

/// The plaintexts that went through `gss_wrap` on one side.
fn wrapped(server: bool) -> Vec<(bool, Vec<u8>)> {
    fg::with(|s| s.calls.iter().filter_map(|c| if let Call::Wrap { server: w, conf, data } = c { (*w == server).then(|| (*conf, data.clone())) } else { None }).collect())
}

/// Sends data over the layer both sides agreed on.
fn data(src: &mut Src, g: &mut Gx, layer: u8) -> R {
    let n = 1 + src.idx(3);
    let (mut cseq, mut sseq) = (1u8, 1u8); // the negotiation used sequence number 0 on both sides
    for _ in 0..n {
        let from_client = src.flag();
        let msg = crate::common::layer_data(src, 200);
        let (a, b) = if from_client { (&mut g.c, &mut g.s) } else { (&mut g.s, &mut g.c) };
        let mut out = vec![];
        let through = src.chance(1, 5);
        let r = if through {
            src.label("data through a slow writer");
            let mut w = bad_writer(src);
            let r = a.encode(&msg, &mut w);
            if w.hit && layer != NONE {
                src.label("data refused by the writer");
                ensure!(r.is_err() || w.once, "layer-lost", "GSSAPI {}: encoding {} gave {r:?} although the writer refused data; it got {}", layer_name(layer), show(&msg), show(&w.got));
                if r.is_err() {
                    return Ok(());
                }
            }
            out = w.got;
            r
        } else {
            a.encode(&msg, &mut out)
        };
        if layer == NONE {
            ensure!(matches!(r, Err(SessionError::NoSecurityLayer)) && out.is_empty(), "layer-none", "GSSAPI without a layer: encode gave {r:?} and wrote {}", show(&out));
            let r = b.decode(&msg, &mut out);
            ensure!(matches!(r, Err(SessionError::NoSecurityLayer)) && out.is_empty(), "layer-none", "GSSAPI without a layer: decode gave {r:?} and wrote {}", show(&out));
            continue;
        }
        ensure!(matches!(r, Ok(k) if k == msg.len()), "layer-data", "GSSAPI {}: encoding {} bytes gave {r:?}", layer_name(layer), msg.len());
        let seq = if from_client { &mut cseq } else { &mut sseq };
        match fg::unwrap(!from_client, Some(*seq), &out) {
            None => return fail("layer-data", format!("GSSAPI {}: encode wrote {} which is not the wrapped data", layer_name(layer), show(&out))),
            Some((d, conf)) => {
                ensure!(d == msg, "layer-data", "GSSAPI {}: encode of {} wrapped {}", layer_name(layer), show(&msg), show(&d));
                ensure!(conf == (layer == CNF), "layer-kind", "GSSAPI: {} was agreed but data is {}", layer_name(layer), if conf { "encrypted" } else { "not encrypted" });
            }
        }
        if src.chance(1, 4) {
            src.label("tampered");
            let mut bad = out.clone();
            match src.idx(4) {
                0 => {
                    let i = src.idx(bad.len());
                    bad[i] ^= 1 << src.below(8);
                }
                1 => bad.truncate(src.idx(bad.len())),
                2 => bad = msg.clone(),
                _ => bad.push(0),
            }
            let mut got = vec![];
            let r = b.decode(&bad, &mut got);
            ensure!(r.is_err() && got.is_empty(), "layer-tampered", "GSSAPI {}: decoding {} instead of {} gave {r:?} and {}", layer_name(layer), show(&bad), show(&out), show(&got));
        }
        let mut got = vec![];
        let r = if src.chance(1, 5) {
            let mut w = bad_writer(src);
            let r = b.decode(&out, &mut w);
            if w.hit {
                ensure!(r.is_err() || w.once, "layer-lost", "GSSAPI {}: decoding {} gave {r:?} although the writer refused data; it got {}", layer_name(layer), show(&out), show(&w.got));
                if r.is_err() {
                    return Ok(());
                }
            }
            got = w.got;
            r
        } else {
            b.decode(&out, &mut got)
        };
        ensure!(matches!(r, Ok(k) if k == out.len()) && got == msg, "layer-data", "GSSAPI {}: {} encoded and decoded gave {r:?} and {}", layer_name(layer), show(&msg), show(&got));
        *seq = seq.wrapping_add(1);
    }
    Ok(())
}

fn c18_pair(src: &mut Src) -> R {
    let mut g = gx(src, Val::Auto);
    let d = run(src, &mut g, false)?;
    // the name the client asked for
    let target = format!("{}@{}", g.service, g.host).into_bytes();
    let names: Vec<Vec<u8>> = fg::with(|s| s.calls.iter().filter_map(|c| if let Call::Init { target, .. } = c { Some(target.clone()) } else { None }).collect());
    ensure!(!names.is_empty() && names.iter().all(|n| *n == target), "target", "GSSAPI client for service {:?} on {:?} asked for {}", g.service, g.host, names.iter().map(|n| show(n)).collect::<Vec<_>>().join(", "));
    let ca = accepts(g.client_layers);
    let sa = accepts(g.server_layers);
    let (coff, soff) = (caps(g.cf), caps(g.sf));
    let possible = ca & sa & coff & soff;
    let certain = if g.client_layers == Some(0) || g.server_layers == Some(0) {
        0
    } else {
        // integrity and none need nothing else; encryption is certain only with all flags
        let c = |f: u32| caps(f) & if full(f) { 7 } else { 3 };
        ca & sa & c(g.cf) & c(g.sf)
    };
    // whatever happened, the server offered only what its user accepts and its context can do
    let offers = wrapped(true);
    if !offers.is_empty() {
        src.nontrivial();
    }
    if let Some((_, o)) = offers.first() {
        ensure!(o.len() == 4, "offer", "GSSAPI server offered {}", show(o));
        ensure!(o[0] & !(sa & soff) == 0 && o[0] != 0, "offer", "GSSAPI server accepting {:?} on a context with {:#x} offered layers {:#b}", g.server_layers, g.sf, o[0]);
    }
    ensure!(offers.len() <= 1, "offer", "GSSAPI server made {} offers", offers.len());
    if !d.client_done || !d.server_done {
        if possible == 0 {
            src.label("no common layer");
        }
        ensure!(certain == 0, "not-agreed", "GSSAPI exchange failed although both sides can use layers {certain:#b}: {}", d.desc());
        ensure!(!d.server_done, "half", "GSSAPI server finished without the client: {}", d.desc());
        ensure!(!g.s.has_layer(), "layer-early", "GSSAPI server has a security layer after a failed exchange");
        ensure!(d.failed(), "stuck", "GSSAPI exchange stopped without an error: {}", d.desc());
        return Ok(());
    }
    ensure!(!d.stuck && !d.failed(), "stuck", "GSSAPI exchange: {}", d.desc());
    let sel = wrapped(false);
    ensure!(sel.len() == 1 && sel[0].1.len() >= 4, "selection", "GSSAPI client sent {sel:?}");
    let layer = sel[0].1[0];
    ensure!(layer.count_ones() == 1, "several", "GSSAPI finished with the layers {layer:#b}");
    ensure!(layer & possible != 0, "wrong-layer", "GSSAPI agreed on {}: client accepts {:?} with {:#x}, server accepts {:?} with {:#x}", layer_name(layer), g.client_layers, g.cf, g.server_layers, g.sf);
    src.label(layer_name(layer));
    // RFC 4752: the maximum size is 0 without a layer
    ensure!(layer != NONE || sel[0].1[1..4] == [0, 0, 0], "selection", "GSSAPI client selected no layer with the size {:?}", &sel[0].1[1..4]);
    for (s, who) in [(&g.c, "client"), (&g.s, "server")] {
        ensure!(s.has_layer() == (layer != NONE), "layer-flag", "GSSAPI agreed on {} but the {who} says has_security_layer() = {}", layer_name(layer), s.has_layer());
    }
    data(src, &mut g, layer)
}

/// Establishes the context of one side of the pair; returns the other side's last token, if it is to be delivered.
fn c18_server(src: &mut Src) -> R {
    let mut g = gx(src, Val::Auto);
    // the scripted client
    let mut n = 0;
    let offer = loop {
        let input = if n < g.tokens { fg::token(n + 1) } else { vec![] };
        n += 1;
        let o = g.s.step(Some(&input));
        if o.res.is_err() {
            // context not strong enough for what the user accepts
            ensure!(!g.s.has_layer(), "layer-early", "GSSAPI server has a layer after {}", o.desc());
            ensure!(accepts(g.server_layers) & caps(g.sf) == 0 || !full(g.sf) || g.server_layers == Some(0), "not-agreed", "GSSAPI server accepting {:?} with {:#x}: {}", g.server_layers, g.sf, o.desc());
            return Ok(());
        }
        ensure!(o.running(), "early", "GSSAPI server finished before the final token: {}", o.desc());
        ensure!(!g.s.has_layer(), "layer-early", "GSSAPI server has a layer before the final token");
        if let Some((p, _)) = fg::unwrap(true, Some(0), &o.bytes) {
            break p;
        }
        ensure!(o.bytes == fg::token(n + 1), "token", "GSSAPI server sent {} instead of context token {}", o.desc(), n + 1);
        n += 1;
        ensure!(n <= g.tokens + 1, "early", "GSSAPI server makes no offer");
    };
    src.nontrivial();
    ensure!(offer.len() == 4 && offer[0] != 0 && offer[0] & !(accepts(g.server_layers) & caps(g.sf)) == 0, "offer", "GSSAPI server accepting {:?} on a context with {:#x} offered {offer:?}", g.server_layers, g.sf);
    let offered = offer[0];
    // the final token
    let first = match src.weighted(&[4, 3, 2]) {
        0 => 1 << src.below(3),
        1 => src.below(8) as u8,
        _ => src.below(256) as u8,
    };
    let size: [u8; 3] = match src.idx(3) {
        0 => [0, 0, 0],
        1 => [0xff, 0xff, 0xff],
        _ => [src.below(256) as u8, src.below(256) as u8, src.below(256) as u8],
    };
    let mut plain = vec![first, size[0], size[1], size[2]];
    let mut judged_length = true;
    match src.weighted(&[10, 2, 2]) {
        0 => {}
        1 => {
            plain.truncate(src.idx(4));
            src.label("bad length");
        }
        _ => {
            let k = 1 + src.size(20);
            plain.extend(src.bytes(k));
            judged_length = false;
            src.label("longer");
        }
    }
    let conf = src.flag() && g.sf & CONF != 0;
    let good = fg::wrap(false, conf, 0, &plain);
    let (msg, genuine) = match src.weighted(&[10, 1, 1, 1, 1, 1]) {
        0 => (good, true),
        1 => (plain.clone(), false),
        2 => (fg::wrap(true, conf, 0, &plain), false),
        3 => {
            let mut m = good;
            let i = src.idx(m.len());
            m[i] ^= 1 << src.below(8);
            (m, false)
        }
        4 => (soup(src), false),
        _ => (fg::wrap(false, conf, 1 + src.below(255) as u8, &plain), false),
    };
    if !genuine {
        src.label("not wrapped");
    }
    if first.count_ones() > 1 {
        src.label("several layers");
    }
    if first & offered == 0 {
        src.label("layer not offered");
    }
    let o = g.s.step(Some(&msg));
    src.note(|| format!("offer {offered:#b}, final token {plain:?} (genuine {genuine}) -> {}", o.desc()));
    let fine = genuine && plain.len() >= 4 && first.count_ones() == 1 && first & offered != 0;
    if o.finished() {
        ensure!(
            genuine && plain.len() >= 4,
            "bad-final",
            "GSSAPI server accepted the final token {plain:?} ({}): {}",
            if genuine { "wrapped" } else { "not wrapped by the client" },
            o.desc()
        );
        ensure!(fine, "bad-selection", "GSSAPI server offered {offered:#b} and accepted a client that selected {first:#b}: {}", o.desc());
        ensure!(o.bytes.is_empty() == o.fin(false), "message", "GSSAPI server: {}", o.desc());
        ensure!(g.s.has_layer() == (first != NONE), "layer-flag", "GSSAPI server: the client selected {} and has_security_layer() is {}", layer_name(first), g.s.has_layer());
        let mut out = vec![];
        let r = g.s.encode(b"some data", &mut out);
        if first == NONE {
            ensure!(r.is_err() && out.is_empty(), "layer-none", "GSSAPI server without a layer encoded {r:?}");
        } else {
            let w = fg::unwrap(true, Some(1), &out);
            ensure!(w == Some((b"some data".to_vec(), first == CNF)), "layer-kind", "GSSAPI server: the client selected {} and data is sent as {}", layer_name(first), show(&out));
        }
    } else {
        ensure!(o.res.is_err(), "bad-final", "GSSAPI server after the final token: {}", o.desc());
        ensure!(!(fine && judged_length), "refused", "GSSAPI server offered {offered:#b} and refused a client that selected {first:#b}: {}", o.desc());
        ensure!(!g.s.has_layer(), "layer-early", "GSSAPI server has a layer after {}", o.desc());
        ensure!(validations(&g.slog).is_empty(), "validated", "GSSAPI server validated a client it refused");
        // and it stays that way
        let o = g.s.step(Some(&fg::wrap(false, false, 0, &[offered & offered.wrapping_neg(), 0, 0, 0])));
        ensure!(o.res.is_err() && !g.s.has_layer(), "bad-final", "GSSAPI server accepted another final token after a bad one: {}", o.desc());
    }
    Ok(())
}

fn c18_client(src: &mut Src) -> R {
    let mut g = gx(src, Val::Auto);
    // the scripted server
    let mut input: Option<Vec<u8>> = None;
    let mut n = 0;
    loop {
        let o = g.c.step(input.as_deref());
        n += 1;
        let expect = if n <= g.tokens { fg::token(n) } else { vec![] };
        if o.res.is_err() {
            // the context is not good enough for this user
            ensure!(n >= g.tokens, "refused", "GSSAPI client: {} on token {n}", o.desc());
            ensure!(!full(g.cf) || g.client_layers == Some(0), "refused", "GSSAPI client accepting {:?} refused a context with {:#x}: {}", g.client_layers, g.cf, o.desc());
            ensure!(!g.c.has_layer(), "layer-early", "GSSAPI client has a layer after {}", o.desc());
            return Ok(());
        }
        ensure!(o.running() && o.bytes == expect, "token", "GSSAPI client sent {} instead of context token {n}", o.desc());
        ensure!(!g.c.has_layer(), "layer-early", "GSSAPI client has a layer before the offer");
        if n >= g.tokens {
            break;
        }
        n += 1;
        input = Some(fg::token(n));
        // an even number of tokens ends with the server's; the client answers with an empty message
    }
    src.nontrivial();
    let first = match src.weighted(&[6, 2]) {
        0 => 1 + src.below(7) as u8,
        _ => src.below(256) as u8,
    };
    let mut plain = vec![first, src.below(256) as u8, src.below(256) as u8, src.below(256) as u8];
    match src.weighted(&[8, 1, 1]) {
        0 => {}
        1 => plain.truncate(src.idx(4)),
        _ => {
            let k = 1 + src.size(20);
            plain.extend(src.bytes(k));
        }
    }
    if plain.len() != 4 {
        src.label("bad length");
    }
    let good = fg::wrap(true, false, 0, &plain);
    let (msg, genuine) = match src.weighted(&[10, 1, 1, 1, 1]) {
        0 => (good, true),
        1 => (plain.clone(), false),
        2 => (fg::wrap(false, false, 0, &plain), false),
        3 => {
            let mut m = good;
            let i = src.idx(m.len());
            m[i] ^= 1 << src.below(8);
            (m, false)
        }
        _ => (soup(src), false),
    };
    if !genuine {
        src.label("not wrapped");
    }
    let o = g.c.step(Some(&msg));
    src.note(|| format!("offer {plain:?} (genuine {genuine}) -> {}", o.desc()));
    let usable = plain.first().copied().unwrap_or(0) & accepts(g.client_layers) & caps(g.cf);
    if o.finished() {
        ensure!(genuine && plain.len() == 4, "bad-offer", "GSSAPI client finished on the offer {plain:?} ({}): {}", if genuine { "wrapped" } else { "not wrapped by the server" }, o.desc());
        ensure!(o.fin(true), "message", "GSSAPI client finished without a message: {}", o.desc());
        let sel = match fg::unwrap(false, Some(0), &o.bytes) {
            Some((p, _)) if p.len() >= 4 => p[0],
            _ => return fail("selection", format!("GSSAPI client's selection: {}", o.desc())),
        };
        ensure!(sel.count_ones() == 1, "several", "GSSAPI client selected {sel:#b}");
        ensure!(sel & usable != 0, "wrong-layer", "GSSAPI client accepting {:?} on a context with {:#x} was offered {first:#b} and selected {}", g.client_layers, g.cf, layer_name(sel));
        ensure!(g.c.has_layer() == (sel != NONE), "layer-flag", "GSSAPI client selected {} and has_security_layer() is {}", layer_name(sel), g.c.has_layer());
        let mut out = vec![];
        let r = g.c.encode(b"some data", &mut out);
        if sel == NONE {
            ensure!(r.is_err() && out.is_empty(), "layer-none", "GSSAPI client without a layer encoded {r:?}");
        } else {
            let w = fg::unwrap(false, Some(1), &out);
            ensure!(w == Some((b"some data".to_vec(), sel == CNF)), "layer-kind", "GSSAPI client selected {} and data is sent as {}", layer_name(sel), show(&out));
        }
    } else {
        ensure!(o.res.is_err(), "bad-offer", "GSSAPI client after the offer: {}", o.desc());
        ensure!(!g.c.has_layer(), "layer-early", "GSSAPI client has a layer after {}", o.desc());
        let surely = genuine && plain.len() == 4 && first < 8 && full(g.cf) && usable != 0 && g.client_layers != Some(0);
        ensure!(!surely, "refused", "GSSAPI client accepting {:?} on a context with {:#x} refused the offer {first:#b}: {}", g.client_layers, g.cf, o.desc());
    }
    Ok(())
}

fn c18_fault(src: &mut Src) -> R {
    let mut g = gx(src, Val::Auto);
    let at = src.idx(16);
    fg::with(|s| s.fail_at = Some(at));
    let d = run(src, &mut g, false)?;
    let failed = fg::with(|s| s.failed);
    if !failed {
        return Ok(());
    }
    src.nontrivial();
    src.label("library fault");
    let which = fg::with(|s| {
        let mut n = 0;
        s.calls.iter().find(|_| {
            n += 1;
            n - 1 == at
        })
        .cloned()
    });
    // calls the exchange can not do without
    let (client, server) = match &which {
        Some(Call::Init { .. }) => (true, false),
        Some(Call::Accept { .. }) => (false, true),
        Some(Call::Wrap { server, .. } | Call::Unwrap { server, .. } | Call::Inquire { server }) => (!*server, *server),
        Some(Call::Import(_)) => (true, false),
        Some(Call::Acquire { accept }) => (!*accept, *accept),
        _ => return Ok(()),
    };
    src.note(|| format!("failing call {which:?}: {}", d.desc()));
    if client {
        ensure!(!d.client_done && d.client.iter().any(|o| o.res.is_err()), "fault", "GSSAPI client after {which:?} failed: {}", d.desc());
        ensure!(!g.c.has_layer(), "fault", "GSSAPI client has a layer after {which:?} failed");
    }
    if server {
        ensure!(!d.server_done && d.server.iter().any(|o| o.res.is_err()), "fault", "GSSAPI server after {which:?} failed: {}", d.desc());
        ensure!(!g.s.has_layer(), "fault", "GSSAPI server has a layer after {which:?} failed");
    }
    Ok(())
}

/* ------------------------------------------------------------------ suites of other properties */

/// C05: arbitrary and damaged messages at every step.
pub fn c05_gssapi(src: &mut Src) -> R {
    let mut g = gx(src, Val::Auto);
    let server = src.flag();
    let base64 = src.flag();
    let mut client_turn = true;
    let mut input: Option<Vec<u8>> = None;
    for _ in 0..12 {
        let damaged = client_turn != server && src.chance(1, 2);
        if damaged {
            src.nontrivial();
            input = match src.weighted(&[4, 2, 2, 1]) {
                0 => input.map(|m| mutate(src, &m, &[b"tok1-", b"W\x00\x00\x00"])),
                1 => {
                    let k = src.size(40);
                    let b = src.bytes(k);
                    let (side, conf, seq) = (!server, src.flag(), src.below(3) as u8);
                    Some(fg::wrap(!side, conf, seq, &b))
                }
                2 => Some(soup(src)),
                _ => None,
            };
        }
        let sess = if client_turn { &mut g.c } else { &mut g.s };
        let o = if base64 { sess.step64(input.as_ref().map(|m| b64(m).into_bytes()).as_deref()) } else { sess.step(input.as_deref()) };
        src.note(|| format!("{} {} -> {}", if client_turn { "client" } else { "server" }, input.as_deref().map_or("(none)".into(), show), o.desc()));
        let mut bytes = o.bytes.clone();
        if base64 && o.ok() {
            bytes = unb64(&o.bytes).unwrap_or_default();
        }
        if !o.running() && !o.fin(true) {
            if o.res.is_err() && src.flag() {
                // a failed session stays harmless
                let _ = if client_turn { g.c.step(Some(b"x")) } else { g.s.step(Some(b"x")) };
            }
            return Ok(());
        }
        input = Some(bytes);
        client_turn = !client_turn;
    }
    Ok(())
}

/// C09: the exchange is the one the mechanism defines, also with calls without input.
pub fn c09_gssapi(src: &mut Src) -> R {
    let mut g = gx(src, Val::Auto);
    ensure!(g.c.first() && !g.s.first(), "gssapi-first", "GSSAPI: are_we_first() is {} on the client and {} on the server", g.c.first(), g.s.first());
    let d = run(src, &mut g, true)?;
    let (ca, sa) = (accepts(g.client_layers), accepts(g.server_layers));
    if !(full(g.cf) && full(g.sf) && ca & sa != 0 && g.client_layers != Some(0) && g.server_layers != Some(0)) {
        return Ok(());
    }
    src.nontrivial();
    // client: ceil((tokens + 1) / 2) context steps and the selection
    let want = 1 + g.tokens as usize / 2 + 1;
    ensure!(d.complete(), "gssapi-table", "GSSAPI exchange of {} context tokens: {}", g.tokens, d.desc());
    ensure!(d.client.len() == want, "gssapi-table", "GSSAPI client took {} steps for {} context tokens: {}", d.client.len(), g.tokens, d.desc());
    ensure!(d.client.last().map_or(false, |o| o.fin(true)) && d.server.last().map_or(false, |o| o.fin(false) && o.bytes.is_empty()), "gssapi-table", "GSSAPI exchange ended with {}", d.desc());
    Ok(())
}

/// C10: a step through a bad writer.
pub fn c10_gssapi(src: &mut Src) -> R {
    let mut g = gx(src, Val::Auto);
    let victim = src.idx(2 + g.tokens as usize + 1);
    let mut w = bad_writer(src);
    let mut client_turn = true;
    let mut input: Option<Vec<u8>> = None;
    for turn in 0..16 {
        let sess = if client_turn { &mut g.c } else { &mut g.s };
        let o = if turn == victim {
            let res = sess.step_w(input.as_deref(), &mut w);
            if w.calls > 1 || w.hit {
                src.nontrivial();
                src.label(if w.vectored { "vectored" } else { "unvectored" });
            }
            src.note(|| format!("GSSAPI step {turn}: {} writer got {} of its message", rdesc(&res), show(&w.got)));
            if w.hit {
                src.label(if w.end == WEnd::Zero { "zero" } else { "error" });
                ensure!(res.is_err(), "lost-message", "GSSAPI: step {turn} returned {} although the writer refused data; it got {}", rdesc(&res), show(&w.got));
                return Ok(());
            }
            Out { res, bytes: w.got.clone() }
        } else {
            sess.step(input.as_deref())
        };
        match &o.res {
            Ok(State::Running) | Ok(State::Finished(MessageSent::Yes)) => {}
            Ok(State::Finished(MessageSent::No)) => return Ok(()),
            Err(_) => {
                let fine = full(g.cf) && full(g.sf) && accepts(g.client_layers) & accepts(g.server_layers) != 0 && g.client_layers != Some(0) && g.server_layers != Some(0);
                ensure!(!fine, "changed-message", "GSSAPI: after step {victim} through a slow writer that took everything: {}", o.desc());
                return Ok(());
            }
        }
        // what arrived is what was produced: the stand-in refuses anything else
        input = Some(o.bytes);
        client_turn = !client_turn;
    }
    Ok(())
}

/// C13: the server validates exactly once, and knows the client.
pub fn c13_gssapi(src: &mut Src) -> R {
    let (val, want): (Val, Option<Option<&str>>) = match src.idx(4) {
        0 => (Val::Auto, None),
        1 => (Val::Nothing, Some(None)),
        2 => (Val::Ops(vec![ValOp::Finalize("one".into()), ValOp::Finalize("two".into())]), Some(Some("one"))),
        _ => (Val::Fail(val_text(src)), None),
    };
    let fails = matches!(val, Val::Fail(_));
    let mut g = gx(src, val);
    // a name that is no text cannot be shown to the user without changing it
    let broken = src.chance(1, 12);
    if broken {
        let b = *src.pick(&[0xffu8, 0xc3, 0x80]);
        let n = g.principal.len();
        fg::with(|s| s.principal.insert(if b == 0xff { n } else { 0 }, b));
        src.label("name that is no text");
    }
    let d = run(src, &mut g, false)?;
    let v = validations(&g.slog);
    ensure!(validations(&g.clog).is_empty(), "gssapi-client-validates", "GSSAPI client called validate");
    if broken && d.client_done {
        ensure!(v.is_empty() && !d.server_done && g.s.validation().is_none(), "gssapi-identity", "GSSAPI server whose client's name is no text: validations {v:?}, {}", d.desc());
        return Ok(());
    }
    if d.server_done {
        src.nontrivial();
        ensure!(!fails, "validation-error-ignored", "GSSAPI server finished although validation failed: {}", d.desc());
        ensure!(v.len() == 1, "gssapi-validate", "GSSAPI server finished and called validate {} times: {}", v.len(), d.desc());
        ensure!(v[0].mech == "GSSAPI" && v[0].server, "gssapi-validate", "GSSAPI: validate was called with {:?}", v[0]);
        ensure!(v[0].authid.as_deref() == Some(g.principal.as_str()), "gssapi-identity", "GSSAPI client {:?} was validated as {:?}", g.principal, v[0].authid);
        let got = g.s.validation();
        match want {
            Some(w) => ensure!(got.as_deref() == w, "gssapi-value", "GSSAPI: the validation value is {got:?} instead of {w:?}"),
            None => ensure!(got == Some(auto_value(&v[0])), "gssapi-value", "GSSAPI: the validation value is {got:?}"),
        }
        ensure!(g.s.validation().is_none(), "gssapi-value", "GSSAPI: the validation value was delivered twice");
    } else if fails && d.client_done {
        src.nontrivial();
        ensure!(v.len() == 1 && matches!(d.server.last().map(|o| &o.res), Some(Err(SessionError::ValidationError(_)))), "validation-error-ignored", "GSSAPI server with failing validation ({} calls): {}", v.len(), d.desc());
        ensure!(!g.s.has_layer(), "validation-error-ignored", "GSSAPI server has a security layer after validation failed");
    } else {
        ensure!(v.is_empty(), "gssapi-validate", "GSSAPI server validated in a failed exchange: {}", d.desc());
        ensure!(g.s.validation().is_none(), "gssapi-value", "GSSAPI: a validation value without validation");
    }
    Ok(())
}

/// C17: values not supplied, and errors of the callback.
pub fn c17_gssapi(src: &mut Src) -> R {
    let mut g = gx(src, Val::Auto);
    let (no_service, no_host) = (src.chance(1, 3), src.chance(1, 3));
    let e = match CbErr::any(src) {
        CbErr::NoValue => CbErr::Boxed,
        e => e,
    };
    let cfail = if src.chance(1, 2) { Some((src.idx(4), e)) } else { None };
    let sfail = if src.chance(1, 4) { Some((0, e)) } else { None };
    let (c, clog) = client_of(
        "GSSAPI",
        Script {
            service: (!no_service).then(|| g.service.clone()),
            hostname: (!no_host).then(|| g.host.clone()),
            layers: g.client_layers,
            fail_at: cfail,
            ..Script::default()
        },
    );
    let (s, slog) = server_of("GSSAPI", Script { layers: g.server_layers, fail_at: sfail, ..Script::default() });
    (g.c, g.clog, g.s, g.slog) = (c, clog, s, slog);
    let d = run(src, &mut g, false)?;
    let creached = cfail.map_or(false, |(n, _)| g.clog.lock().unwrap().calls > n);
    let sreached = sfail.map_or(false, |(n, _)| g.slog.lock().unwrap().calls > n);
    if no_service || no_host || creached {
        src.nontrivial();
        src.label(if creached { "error" } else { "omitted" });
        ensure!(!d.client_done && d.client.last().map_or(false, |o| o.res.is_err()), "gssapi-omitted", "GSSAPI client (service {} hostname {} callback error {creached}): {}", !no_service, !no_host, d.desc());
    }
    if no_service || no_host {
        ensure!(d.client.len() == 1, "gssapi-omitted", "GSSAPI client without service or host name went on: {}", d.desc());
    }
    if sreached {
        src.nontrivial();
        ensure!(!d.server_done && d.server.last().map_or(false, |o| o.res.is_err()), "gssapi-omitted", "GSSAPI server whose callback failed: {}", d.desc());
        ensure!(validations(&g.slog).is_empty(), "gssapi-omitted", "GSSAPI server whose callback failed validated");
    }
    Ok(())
}

/// C19: no layer before the exchange is finished, and none after it if none was agreed upon.
pub fn c19_gssapi(src: &mut Src) -> R {
    let mut g = gx(src, Val::Auto);
    let mut client_turn = true;
    let mut input: Option<Vec<u8>> = None;
    let (mut cdone, mut sdone, mut over) = (false, false, false);
    for _ in 0..16 {
        for (s, done, who) in [(&mut g.c, cdone, "client"), (&mut g.s, sdone, "server")] {
            // the layer the client selected, if it has
            let selected = wrapped(false).first().and_then(|(_, m)| m.first().copied());
            if done && selected.map_or(false, |l| l != NONE) {
                src.label("agreed on a layer");
                ensure!(s.has_layer(), "layer-missing", "GSSAPI {who} finished with a layer but reports none");
            } else if (!done && src.chance(1, 2)) || done {
                src.nontrivial();
                let when = if done { "that finished without a layer" } else { "before it finished" };
                src.label(if done { "finished without a layer" } else { "GSSAPI before" });
                ensure!(!s.has_layer(), "layer-early", "GSSAPI {who} {when} has a security layer");
                let len = src.size(20);
                let m = src.bytes(len);
                let mut out = vec![];
                let r = s.encode(&m, &mut out);
                ensure!(matches!(r, Err(SessionError::NoSecurityLayer)) && out.is_empty(), "layer-early", "GSSAPI {who} {when} encoded: {r:?} {}", show(&out));
                let r = s.decode(&m, &mut out);
                ensure!(matches!(r, Err(SessionError::NoSecurityLayer)) && out.is_empty(), "layer-early", "GSSAPI {who} {when} decoded: {r:?} {}", show(&out));
            }
        }
        if over || if client_turn { cdone } else { sdone } {
            break;
        }
        let o = if client_turn { g.c.step(input.as_deref()) } else { g.s.step(input.as_deref()) };
        if client_turn {
            cdone |= o.finished();
        } else {
            sdone |= o.finished();
        }
        over = !(o.running() || o.fin(true));
        input = Some(o.bytes);
        client_turn = !client_turn;
    }
    Ok(())
}

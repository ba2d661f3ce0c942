use rsasl::callback::{Context, Request, SessionCallback, SessionData};
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::validate::{NoValidation, Validate, ValidationError};
use std::collections::HashMap;
use std::io::Read;
use std::sync::Arc;

const NAMES: [&str; 15] = [
    "SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512", "SCRAM-SHA-512-PLUS", "ANONYMOUS", "EXTERNAL", "PLAIN", "LOGIN", "XOAUTH2",
    "OAUTHBEARER", "GSSAPI", "X-PROBE", "X-NOTHING",
];

type In = Arc<HashMap<String, Vec<u8>>>;
/// What the user knows, and whether this is the server's user.
struct Cb(In, bool);
impl Cb {
    fn text(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|v| std::str::from_utf8(v).unwrap())
    }
    #[allow(dead_code)]
    fn bytes(&self, k: &str) -> &[u8] {
        self.0.get(k).map_or(&[], |v| v)
    }
}
struct Val;
impl Validation for Val {
    type Value = String;
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{c:02x}")).collect()
}
impl SessionCallback for Cb {
    #[allow(unused_variables)]
    fn callback(&self, sd: &SessionData, context: &Context, request: &mut Request) -> Result<(), SessionError> {
        if !self.1 {
            if let Some(v) = self.text("user") {
                request.satisfy::<AuthId>(v)?;
            }
            if let Some(v) = self.text("authzid") {
                request.satisfy::<AuthzId>(v)?;
            }
            request.satisfy::<Password>(self.bytes("password"))?;
            #[cfg(any(feature = "xoauth2", feature = "oauthbearer"))]
            if let Some(v) = self.text("token") {
                request.satisfy::<OAuthBearerToken>(v)?;
            }
            #[cfg(feature = "oauthbearer")]
            request.satisfy::<OAuthBearerKV>(&[])?;
            #[cfg(feature = "anonymous")]
            if let Some(v) = self.text("token") {
                request.satisfy::<rsasl::mechanisms::anonymous::AnonymousToken>(v)?;
            }
        } else {
            #[cfg(any(feature = "scram-sha-1", feature = "scram-sha-2"))]
            {
                use rsasl::mechanisms::scram::properties::ScramStoredPassword;
                let m = sd.mechanism().mechanism.as_str().trim_end_matches("-PLUS").to_string();
                let it = self.text("iterations").unwrap_or("1").parse().unwrap();
                if context.get_ref::<AuthId>() == self.text("user") {
                    request.satisfy::<ScramStoredPassword>(&ScramStoredPassword::new(it, self.bytes("salt"), self.bytes(&format!("stored.{m}")), self.bytes(&format!("server.{m}"))))?;
                }
            }
            #[cfg(feature = "xoauth2")]
            request.satisfy::<rsasl::mechanisms::xoauth2::properties::XOAuth2Validate>(&Ok(()))?;
            #[cfg(feature = "oauthbearer")]
            request.satisfy::<rsasl::mechanisms::oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?;
        }
        if context.get_ref::<ChannelBindingName>().is_some() {
            request.satisfy::<ChannelBindings>(b"data")?;
        }
        Ok(())
    }
    fn validate(&self, _: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        let t = |x: Option<&[u8]>| x.map_or("-".to_string(), |x| format!("x{}", hex(x)));
        #[allow(unused_mut)]
        let mut token = None;
        #[cfg(any(feature = "xoauth2", feature = "oauthbearer"))]
        if let Some(x) = c.get_ref::<OAuthBearerToken>() {
            token = Some(x.as_bytes());
        }
        #[cfg(feature = "anonymous")]
        if let Some(x) = c.get_ref::<rsasl::mechanisms::anonymous::AnonymousToken>() {
            token = Some(x.as_bytes());
        }
        let s = format!("{} {} {} {}", t(c.get_ref::<AuthId>().map(str::as_bytes)), t(c.get_ref::<AuthzId>().map(str::as_bytes)), t(c.get_ref::<Password>()), t(token));
        v.finalize::<Val>(s);
        Ok(())
    }
    fn enable_channel_binding(&self) -> bool {
        true
    }
}

/// The static of every mechanism whose feature is on.
#[allow(unreachable_patterns)]
fn statics(n: &str) -> Option<Mechanism> {
    #[allow(unused_imports)]
    use rsasl::mechanisms as m;
    match n {
        #[cfg(feature = "scram-sha-1")]
        "SCRAM-SHA-1" => Some(m::scram::SCRAM_SHA1),
        #[cfg(feature = "scram-sha-1")]
        "SCRAM-SHA-1-PLUS" => Some(m::scram::SCRAM_SHA1_PLUS),
        #[cfg(feature = "scram-sha-2")]
        "SCRAM-SHA-256" => Some(m::scram::SCRAM_SHA256),
        #[cfg(feature = "scram-sha-2")]
        "SCRAM-SHA-256-PLUS" => Some(m::scram::SCRAM_SHA256_PLUS),
        #[cfg(feature = "scram-sha-2")]
        "SCRAM-SHA-512" => Some(m::scram::SCRAM_SHA512),
        #[cfg(feature = "scram-sha-2")]
        "SCRAM-SHA-512-PLUS" => Some(m::scram::SCRAM_SHA512_PLUS),
        #[cfg(feature = "anonymous")]
        "ANONYMOUS" => Some(m::anonymous::ANONYMOUS),
        #[cfg(feature = "external")]
        "EXTERNAL" => Some(m::external::EXTERNAL),
        #[cfg(feature = "plain")]
        "PLAIN" => Some(m::plain::PLAIN),
        #[cfg(feature = "login")]
        "LOGIN" => Some(m::login::LOGIN),
        #[cfg(feature = "xoauth2")]
        "XOAUTH2" => Some(m::xoauth2::XOAUTH2),
        #[cfg(feature = "oauthbearer")]
        "OAUTHBEARER" => Some(m::oauthbearer::OAUTHBEARER),
        #[cfg(feature = "gssapi")]
        "GSSAPI" => Some(m::gssapi::GSSAPI),
        _ => None,
    }
}

#[cfg(all(feature = "registry_static", feature = "unstable_custom_mechanism"))]
pub mod own {
    use rsasl::mechname::Mechname;
    use rsasl::prelude::Mechanism;
    use rsasl::registry::{Matches, Named, Side};
    pub struct Select;
    impl Named for Select {
        fn mech() -> &'static Mechanism {
            &X_PROBE
        }
    }
    #[linkme::distributed_slice(rsasl::registry::MECHANISMS)]
    pub static X_PROBE: Mechanism = Mechanism::build(
        Mechname::const_new_unchecked(b"X-PROBE"),
        1,
        Some(|| Err(rsasl::prelude::SASLError::NoSharedMechanism)),
        Some(|_| Err(rsasl::prelude::SASLError::NoSharedMechanism)),
        Side::Client,
        |_| Some(Matches::<Select>::name()),
        |_| true,
    );
}

fn name(n: &str) -> &'static Mechname {
    Mechname::parse(Box::leak(n.as_bytes().to_vec().into_boxed_slice())).unwrap()
}
fn lists(what: &str, c: &Arc<SASLConfig>) {
    let mut all: Vec<String> = SASLServer::<Val>::new(c.clone()).get_available().into_iter().map(|m| m.mechanism.as_str().to_string()).collect();
    all.sort();
    println!("{what} available {}", all.join(","));
    for n in NAMES {
        if n == "X-PROBE" {
            continue;
        }
        let cl = SASLClient::new(c.clone()).start_suggested(&[name(n)]);
        let srv = SASLServer::<Val>::new(c.clone()).start_suggested(name(n));
        println!("{what} client {n} {}", cl.map_or_else(|_| "no".to_string(), |s| s.get_mechname().as_str().to_string()));
        println!("{what} server {n} {}", srv.map_or_else(|_| "no".to_string(), |s| s.get_mechname().as_str().to_string()));
    }
}

fn run(cl: &mut Session<NoValidation>, srv: &mut Session<Val>, b64: bool) -> Result<(), String> {
    let mut msg: Option<Vec<u8>> = None;
    let mut turn = cl.are_we_first();
    let (mut a, mut b) = (false, false);
    for _ in 0..8 {
        let mut out = vec![];
        let r = match (turn, b64) {
            #[cfg(feature = "provider_base64")]
            (true, true) => cl.step64(msg.as_deref(), &mut out),
            #[cfg(feature = "provider_base64")]
            (false, true) => srv.step64(msg.as_deref(), &mut out),
            (true, _) => cl.step(msg.as_deref(), &mut out),
            (false, _) => srv.step(msg.as_deref(), &mut out),
        };
        let st = r.map_err(|e| format!("{} failed: {e:?}", if turn { "client" } else { "server" }))?;
        if turn {
            a = st.is_finished();
        } else {
            b = st.is_finished();
        }
        if a && b {
            return Ok(());
        }
        msg = Some(out);
        turn = !turn;
    }
    Err("no end".into())
}

pub fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut m = HashMap::new();
    let mut offers: Vec<Vec<String>> = vec![];
    for l in s.lines() {
        let (k, v) = l.split_once('=').unwrap();
        if k == "offer" {
            offers.push(v.split(',').map(str::to_string).collect());
        } else {
            m.insert(k.to_string(), (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect());
        }
    }
    let input: In = Arc::new(m);
    let default = SASLConfig::builder().with_defaults().with_callback(Cb(input.clone(), false)).unwrap();
    let mechanisms = SASLConfig::builder().with_default_mechanisms().with_callback(Cb(input.clone(), false)).unwrap();
    lists("default", &default);
    lists("default2", &mechanisms);
    lists("cred", &SASLConfig::with_credentials(None, "user".into(), "pw".into()).unwrap());
    lists("credz", &SASLConfig::with_credentials(Some("z".into()), "user".into(), "pw".into()).unwrap());
    for o in &offers {
        let names: Vec<&Mechname> = o.iter().map(|n| name(n)).collect();
        let r = SASLClient::new(default.clone()).start_suggested(names.iter());
        println!("choice {} {}", o.join(","), r.map_or_else(|_| "no".to_string(), |s| s.get_mechname().as_str().to_string()));
    }
    for n in NAMES {
        let Some(x) = statics(n) else { continue };
        let reg = Registry::with_mechanisms(Box::leak(vec![x].into_boxed_slice()));
        let c = SASLConfig::builder().with_registry(reg.clone()).with_callback(Cb(input.clone(), false)).unwrap();
        let sc = SASLConfig::builder().with_registry(reg).with_callback(Cb(input.clone(), true)).unwrap();
        if n == "GSSAPI" {
            continue;
        }
        for b64 in [false, true] {
            if b64 && !cfg!(feature = "provider_base64") {
                continue;
            }
            let mut cl = match SASLClient::new(c.clone()).start_suggested(&[name(n)]) {
                Ok(s) => s,
                Err(e) => {
                    println!("exchange {n} no client: {e:?}");
                    continue;
                }
            };
            let mut srv = match SASLServer::<Val>::new(sc.clone()).start_suggested(name(n)) {
                Ok(s) => s,
                Err(e) => {
                    println!("exchange {n} no server: {e:?}");
                    continue;
                }
            };
            let r = run(&mut cl, &mut srv, b64);
            println!("exchange {n} {} {}", srv.validation().unwrap_or_else(|| "not validated".into()), r.map_or_else(|e| e, |()| "finished".into()));
        }
    }
}

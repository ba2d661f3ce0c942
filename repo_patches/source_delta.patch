From 9a99c45356c82da07badd8caffaebde8073b1aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 01/28] fix: malformed SCRAM messages are refused instead of
 panicking

---
 src/mechanisms/scram/parser.rs | 94 +++++++++++++++-------------------
 1 file changed, 41 insertions(+), 53 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 229ce63..033ad98 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -179,6 +179,23 @@ pub enum ParseError {
     BadNonce,
 }
 
+/// Return the value of an attribute, given the complete `name=value` part
+fn attribute_value<'a>(part: &'a [u8], name: &[u8]) -> Result<&'a [u8], ParseError> {
+    part.strip_prefix(name).ok_or_else(|| {
+        part.first().map_or(ParseError::MissingAttributes, |byte| {
+            ParseError::InvalidAttribute(*byte)
+        })
+    })
+}
+
+/// The error for data after the last attribute that is allowed in a message
+fn trailing_data(part: &[u8]) -> ParseError {
+    part.first()
+        .map_or(ParseError::InvalidAttribute(b','), |byte| {
+            ParseError::InvalidAttribute(*byte)
+        })
+}
+
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Debug)]
 pub enum GS2CBindFlag<'scram> {
     SupportedNotUsed,
@@ -257,26 +274,22 @@ impl<'scram> ClientFirstMessage<'scram> {
         let authzid = if authzid.is_empty() {
             None
         } else {
-            Some(core::str::from_utf8(&authzid[2..]).map_err(ParseError::BadUtf8)?)
+            let authzid = authzid
+                .strip_prefix(b"a=")
+                .ok_or(ParseError::BadGS2Header)?;
+            Some(core::str::from_utf8(authzid).map_err(ParseError::BadUtf8)?)
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
 
-        let username = if &next[0..2] == b"n=" {
-            core::str::from_utf8(&next[2..]).map_err(ParseError::BadUtf8)?
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let username =
+            core::str::from_utf8(attribute_value(next, b"n=")?).map_err(ParseError::BadUtf8)?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute_value(next, b"r=")?;
         if !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
             return Err(ParseError::BadNonce);
         }
@@ -370,35 +383,19 @@ impl<'scram> ServerFirst<'scram> {
         let mut partiter = input.split(|b| matches!(b, b','));
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        if next.len() < 2 {
-            return Err(ParseError::MissingAttributes);
-        }
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
-
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute_value(next, b"r=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let salt = if &next[0..2] == b"s=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let salt = attribute_value(next, b"s=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let iteration_count = if &next[0..2] == b"i=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let iteration_count = attribute_value(next, b"i=")?;
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(trailing_data(next));
         }
 
         Ok(Self {
@@ -445,32 +442,24 @@ impl<'scram> ClientFinal<'scram> {
         let mut partiter = input.split(|b| matches!(b, b','));
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let channel_binding = if &next[0..2] == b"c=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let channel_binding = attribute_value(next, b"c=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute_value(next, b"r=")?;
 
         let proof = loop {
             // Skip all extensions in between nonce and proof since we can't handle them.
             // If they are mandatory-to-implement extensions we error.
             let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-            if &next[0..2] == b"p=" {
-                break &next[2..];
-            } else if &next[0..2] == b"m=" {
+            if let Some(proof) = next.strip_prefix(b"p=") {
+                break proof;
+            } else if next.starts_with(b"m=") {
                 return Err(ParseError::UnknownMandatoryExtensions);
             };
         };
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(trailing_data(next));
         }
 
         Ok(Self {
@@ -552,15 +541,16 @@ pub enum ServerFinal<'scram> {
 
 impl<'scram> ServerFinal<'scram> {
     pub fn parse(input: &'scram [u8]) -> Result<Self, ParseError> {
-        if &input[0..2] == b"v=" {
-            Ok(Self::Verifier(&input[2..]))
-        } else if &input[0..2] == b"e=" {
+        if let Some(verifier) = input.strip_prefix(b"v=") {
+            Ok(Self::Verifier(verifier))
+        } else {
+            let error = attribute_value(input, b"e=")?;
             use ServerErrorValue::{
                 ChannelBindingNotSupported, ChannelBindingsDontMatch, ExtensionsNotSupported,
                 InvalidEncoding, InvalidProof, InvalidUsernameEncoding, NoResources, OtherError,
                 ServerDoesSupportChannelBinding, UnknownUser, UnsupportedChannelBindingType,
             };
-            let e = match &input[2..] {
+            let e = match error {
                 b"invalid-encoding" => InvalidEncoding,
                 b"extensions-not-supported" => ExtensionsNotSupported,
                 b"invalid-proof" => InvalidProof,
@@ -574,8 +564,6 @@ impl<'scram> ServerFinal<'scram> {
                 _ => OtherError,
             };
             Ok(Self::Error(e))
-        } else {
-            Err(ParseError::InvalidAttribute(input[0]))
         }
     }
 
-- 
2.43.0


From b8ea08eb01cb0354c7671f8a137ef15c5849d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 02/28] fix: SCRAM server decodes user names and authorization
 identities

---
 src/mechanisms/scram/parser.rs | 42 ++++++++++++++++------------------
 src/mechanisms/scram/server.rs | 34 +++++++++++++++++++--------
 2 files changed, 45 insertions(+), 31 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 033ad98..b5ccf9f 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -116,7 +116,6 @@ impl<'a> SaslName<'a> {
         }
     }
 
-    #[allow(unused)]
     /// Convert a SCRAM-side string into the representation expected by Rust
     ///
     /// This will clone the given string if characters need unescaping
@@ -129,29 +128,28 @@ impl<'a> SaslName<'a> {
             return Err(SaslNameError::InvalidChar(*c));
         }
 
-        if let Some(bad) = input.iter().position(|b| matches!(b, b'=')) {
-            let mut out = String::with_capacity(input.len());
-            let good = core::str::from_utf8(&input[..bad]).map_err(SaslNameError::InvalidUtf8)?;
-            out.push_str(good);
-            let mut input = &input[bad..];
-
-            while let Some(bad) = input.iter().position(|b| matches!(b, b'=')) {
-                let good =
-                    core::str::from_utf8(&input[..bad]).map_err(SaslNameError::InvalidUtf8)?;
-                out.push_str(good);
-                let c = match &input[bad + 1..bad + 3] {
-                    b"2C" => ',',
-                    b"3D" => '=',
-                    _ => return Err(SaslNameError::InvalidEscape),
-                };
-                out.push(c);
-                input = &input[bad..];
-            }
+        let input = core::str::from_utf8(input)?;
+        if !input.contains('=') {
+            return Ok(Cow::Borrowed(input));
+        }
 
-            Ok(out.into())
-        } else {
-            Ok(Cow::Borrowed(core::str::from_utf8(input)?))
+        // Every part but the first follows a '=' and thus has to start with the rest of an escape
+        let mut parts = input.split('=');
+        let mut out = String::with_capacity(input.len());
+        out.push_str(parts.next().unwrap_or_default());
+        for part in parts {
+            let (c, rest) = if let Some(rest) = part.strip_prefix("2C") {
+                (',', rest)
+            } else if let Some(rest) = part.strip_prefix("3D") {
+                ('=', rest)
+            } else {
+                return Err(SaslNameError::InvalidEscape);
+            };
+            out.push(c);
+            out.push_str(rest);
         }
+
+        Ok(Cow::Owned(out))
     }
 }
 
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 1d0c5b0..44a65fb 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -1,11 +1,12 @@
 use crate::alloc::format;
-use crate::alloc::{boxed::Box, string::String, vec::Vec};
+use crate::alloc::{borrow::Cow, boxed::Box, string::String, vec::Vec};
 use crate::context::{Demand, DemandReply, Provider};
 use crate::error::{MechanismError, MechanismErrorKind, SessionError};
 use crate::mechanism::Authentication;
 use crate::mechanisms::scram::client::{ProtocolError, SCRAMError};
 use crate::mechanisms::scram::parser::{
-    ClientFinal, ClientFirstMessage, GS2CBindFlag, ServerErrorValue, ServerFinal, ServerFirst,
+    ClientFinal, ClientFirstMessage, GS2CBindFlag, SaslName, ServerErrorValue, ServerFinal,
+    ServerFirst,
 };
 use crate::mechanisms::scram::properties::ScramStoredPassword;
 use crate::mechanisms::scram::tools::{compute_signatures, generate_nonce, DOutput};
@@ -129,8 +130,8 @@ impl<const N: usize> WaitingClientFirst<N> {
         // Step 1: (try to) parse the client message received.
         let client_first @ ClientFirstMessage {
             cbflag,
-            authzid, // FIXME: Save authzid
-            username: authid,
+            authzid: escaped_authzid,
+            username,
             nonce: client_nonce,
         } = ClientFirstMessage::parse(client_first).map_err(SCRAMError::ParseError)?;
 
@@ -140,9 +141,18 @@ impl<const N: usize> WaitingClientFirst<N> {
         // TODO: Only store this if we're a -PLUS
         let mut gs2_header = client_first.build_gs2_header_vec();
 
-        // FIXME: Escape Username from SCRAM format to whatever
+        // The callback gets to see the names the client meant, while signatures and the GS2 header
+        // are built from what was actually sent.
+        let authid = SaslName::unescape(username.as_bytes())?;
+        let authzid = escaped_authzid
+            .map(|authzid| SaslName::unescape(authzid.as_bytes()))
+            .transpose()?;
+
         // TODO: This must at this stage provide so much more info <.<
-        let provider = Prov { authid, authzid };
+        let provider = Prov {
+            authid: &authid,
+            authzid: authzid.as_deref(),
+        };
 
         match cbflag {
             // TODO: check if this is a protocol downgrade
@@ -203,8 +213,9 @@ impl<const N: usize> WaitingClientFirst<N> {
                 client_nonce.into(),
                 server_nonce,
                 gs2_header,
-                authid.to_string(),
-                authzid.map(ToString::to_string),
+                username.to_string(),
+                authid.into_owned(),
+                authzid.map(Cow::into_owned),
                 salt,
                 iterations,
                 stored_key,
@@ -236,7 +247,9 @@ struct FinalInner<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
     client_nonce: Vec<u8>,
     server_nonce: [u8; N],
     gs2_header: Vec<u8>,
+    /// Username as sent by the client, i.e. with ',' and '=' escaped
     username: String,
+    authid: String,
     authzid: Option<String>,
     salt: String,
     iterations: String,
@@ -252,6 +265,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         server_nonce: [u8; N],
         gs2_header: Vec<u8>,
         username: String,
+        authid: String,
         authzid: Option<String>,
         salt: String,
         iterations: String,
@@ -264,6 +278,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                 server_nonce,
                 gs2_header,
                 username,
+                authid,
                 authzid,
                 salt,
                 iterations,
@@ -295,6 +310,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
             server_nonce,
             gs2_header,
             username,
+            authid,
             authzid,
             salt,
             iterations,
@@ -353,7 +369,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                         *written = vecw.write_all_vectored(writer)?;
 
                         let prov = Prov {
-                            authid: username.as_str(),
+                            authid: authid.as_str(),
                             authzid: authzid.as_deref(),
                         };
                         session_data.validate(&prov)?;
-- 
2.43.0


From f69c16e1cc3063f825c24aeaa6e23339cea6c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 03/28] fix: SCRAM -PLUS servers refuse clients that do not use
 channel bindings

---
 src/mechanisms/scram/server.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 44a65fb..2e28718 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -53,6 +53,9 @@ pub enum ScramServerError {
 
     #[error("channel bindings are supported by both sides but were not used")]
     ChannelBindingsNotUsed,
+
+    #[error("channel bindings are required by the selected mechanism but were not used")]
+    ChannelBindingsRequired,
 }
 impl MechanismError for ScramServerError {
     fn kind(&self) -> MechanismErrorKind {
@@ -66,6 +69,8 @@ enum CBSupport {
     No,
     /// Server *does* support CB
     Yes,
+    /// CB must be used, i.e. a -PLUS mechanism was selected
+    Required,
 }
 
 pub struct ScramServer<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
@@ -84,7 +89,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> ScramServer<D, N>
     }
 
     pub const fn new_plus() -> Self {
-        let plus = CBSupport::Yes;
+        let plus = CBSupport::Required;
         Self {
             state: Some(ScramServerState::WaitingClientFirst(ScramState::new(plus))),
         }
@@ -155,15 +160,22 @@ impl<const N: usize> WaitingClientFirst<N> {
         };
 
         match cbflag {
-            // TODO: check if this is a protocol downgrade
+            // A client that supports CB must have used it if the server supports it as well, anything
+            // else is a protocol downgrade.
             GS2CBindFlag::SupportedNotUsed => {
-                if self.plus == CBSupport::Yes {
+                if self.plus != CBSupport::No {
                     return Err(SessionError::MechanismError(Box::new(
                         ScramServerError::ChannelBindingsNotUsed,
                     )));
                 }
             }
-            GS2CBindFlag::NotSupported => {}
+            GS2CBindFlag::NotSupported => {
+                if self.plus == CBSupport::Required {
+                    return Err(SessionError::MechanismError(Box::new(
+                        ScramServerError::ChannelBindingsRequired,
+                    )));
+                }
+            }
             GS2CBindFlag::Used(name) => session_data.need_cb_data(name, provider, |cbdata| {
                 gs2_header.extend_from_slice(cbdata);
                 Ok(())
-- 
2.43.0


From 38c8667be2e8113c6105d14989820e524e749440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 04/28] fix: SCRAM exchanges can go on after a step without
 input

---
 src/mechanisms/scram/client.rs | 13 ++++++++++---
 src/mechanisms/scram/server.rs | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 6521a64..292a2c7 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -472,7 +472,10 @@ where
                 Ok(State::Running)
             }
             Some(ClientFirst(state)) => {
-                let server_first = input.ok_or(SessionError::InputDataRequired)?;
+                let Some(server_first) = input else {
+                    self.state = Some(ClientFirst(state));
+                    return Err(SessionError::InputDataRequired);
+                };
 
                 let mut written = 0;
                 let new_state = state.step(session, server_first, writer, &mut written)?;
@@ -481,11 +484,15 @@ where
                 Ok(State::Running)
             }
             Some(ServerFirst(state)) => {
-                let server_final = input.ok_or(SessionError::InputDataRequired)?;
+                let Some(server_final) = input else {
+                    self.state = Some(ServerFirst(state));
+                    return Err(SessionError::InputDataRequired);
+                };
                 state.step(session, server_final)?;
                 Ok(State::Finished(MessageSent::No))
             }
-            None => panic!("State machine in invalid state"),
+            // The exchange has finished or an earlier step failed
+            None => Err(SessionError::MechanismDone),
         }
     }
 }
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 2e28718..fc2cd5b 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -460,7 +460,10 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> Authentication for
         use ScramServerState::{Finished, WaitingClientFinal, WaitingClientFirst};
         match self.state.take() {
             Some(WaitingClientFirst(state)) => {
-                let client_first = input.ok_or(SessionError::InputDataRequired)?;
+                let Some(client_first) = input else {
+                    self.state = Some(WaitingClientFirst(state));
+                    return Err(SessionError::InputDataRequired);
+                };
 
                 let mut rng = rand::thread_rng();
                 let mut written = 0;
@@ -470,15 +473,17 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> Authentication for
                 Ok(State::Running)
             }
             Some(WaitingClientFinal(state)) => {
-                let client_final = input.ok_or(SessionError::InputDataRequired)?;
+                let Some(client_final) = input else {
+                    self.state = Some(WaitingClientFinal(state));
+                    return Err(SessionError::InputDataRequired);
+                };
                 let mut written = 0;
                 let new_state = state.step(client_final, session, writer, &mut written)?;
                 self.state = Some(Finished(new_state));
                 Ok(State::Finished(MessageSent::Yes))
             }
-            Some(Finished(_state)) => Err(SessionError::MechanismDone),
-
-            None => panic!("SCRAM server state machine in invalid state"),
+            // `None` is left behind by a step that failed
+            Some(Finished(_)) | None => Err(SessionError::MechanismDone),
         }
     }
 }
-- 
2.43.0


From 131c4d035e02535c8c4d5ea75ffd53eb2b810ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 05/28] fix: SCRAM server includes extensions sent by the
 client in the signatures

---
 src/mechanisms/scram/server.rs | 35 ++++++++++++++++++++--------------
 src/mechanisms/scram/tools.rs  | 30 +++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index fc2cd5b..f90bada 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -9,7 +9,7 @@ use crate::mechanisms::scram::parser::{
     ServerFirst,
 };
 use crate::mechanisms::scram::properties::ScramStoredPassword;
-use crate::mechanisms::scram::tools::{compute_signatures, generate_nonce, DOutput};
+use crate::mechanisms::scram::tools::{compute_signatures_raw, generate_nonce, DOutput};
 use crate::property::{AuthId, AuthzId};
 use crate::session::{MechanismData, MessageSent, State};
 use crate::vectored_io::VectoredWriter;
@@ -128,7 +128,7 @@ impl<const N: usize> WaitingClientFirst<N> {
         self,
         rng: &mut impl Rng,
         session_data: &mut MechanismData,
-        client_first: &[u8],
+        input: &[u8],
         writer: impl Write,
         written: &mut usize,
     ) -> Result<WaitingClientFinal<D, N>, SessionError> {
@@ -138,13 +138,15 @@ impl<const N: usize> WaitingClientFirst<N> {
             authzid: escaped_authzid,
             username,
             nonce: client_nonce,
-        } = ClientFirstMessage::parse(client_first).map_err(SCRAMError::ParseError)?;
+        } = ClientFirstMessage::parse(input).map_err(SCRAMError::ParseError)?;
 
         // AuthMessage we need to validate the user:
         // client-first-message-bare + "," + server-first-message + "," + client-final-message-without-proof
 
         // TODO: Only store this if we're a -PLUS
         let mut gs2_header = client_first.build_gs2_header_vec();
+        // Everything after the GS2 header, including extensions
+        let client_first_bare = &input[gs2_header.len()..];
 
         // The callback gets to see the names the client meant, while signatures and the GS2 header
         // are built from what was actually sent.
@@ -225,7 +227,7 @@ impl<const N: usize> WaitingClientFirst<N> {
                 client_nonce.into(),
                 server_nonce,
                 gs2_header,
-                username.to_string(),
+                client_first_bare.into(),
                 authid.into_owned(),
                 authzid.map(Cow::into_owned),
                 salt,
@@ -259,8 +261,7 @@ struct FinalInner<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
     client_nonce: Vec<u8>,
     server_nonce: [u8; N],
     gs2_header: Vec<u8>,
-    /// Username as sent by the client, i.e. with ',' and '=' escaped
-    username: String,
+    client_first_bare: Vec<u8>,
     authid: String,
     authzid: Option<String>,
     salt: String,
@@ -276,7 +277,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         client_nonce: Vec<u8>,
         server_nonce: [u8; N],
         gs2_header: Vec<u8>,
-        username: String,
+        client_first_bare: Vec<u8>,
         authid: String,
         authzid: Option<String>,
         salt: String,
@@ -289,7 +290,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                 client_nonce,
                 server_nonce,
                 gs2_header,
-                username,
+                client_first_bare,
                 authid,
                 authzid,
                 salt,
@@ -321,7 +322,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
             client_nonce,
             server_nonce,
             gs2_header,
-            username,
+            client_first_bare,
             authid,
             authzid,
             salt,
@@ -348,15 +349,21 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                     let mut client_signature = DOutput::<D>::default();
                     let mut server_signature = DOutput::<D>::default();
 
-                    compute_signatures::<D>(
-                        &stored_key,
-                        &server_key,
-                        &username,
+                    // The proof is the last attribute
+                    let without_proof =
+                        &client_final[..client_final.len() - proof.len() - b",p=".len()];
+                    let server_first = ServerFirst::new(
                         &client_nonce,
                         &server_nonce,
                         salt.as_bytes(),
                         iterations.as_bytes(),
-                        channel_binding,
+                    );
+                    compute_signatures_raw::<D>(
+                        &stored_key,
+                        &server_key,
+                        &client_first_bare,
+                        &server_first.as_ioslices(),
+                        without_proof,
                         &mut client_signature,
                         &mut server_signature,
                     );
diff --git a/src/mechanisms/scram/tools.rs b/src/mechanisms/scram/tools.rs
index 79c31ba..516b263 100644
--- a/src/mechanisms/scram/tools.rs
+++ b/src/mechanisms/scram/tools.rs
@@ -78,6 +78,36 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .finalize_into(server_signature);
 }
 
+/// Compute signatures over messages exactly as they were received
+///
+/// In contrast to [`compute_signatures`] this covers extensions the messages may contain.
+pub(super) fn compute_signatures_raw<D: Digest + BlockSizeUser + FixedOutput>(
+    stored_key: &GenericArray<u8, D::OutputSize>,
+    server_key: &DOutput<D>,
+    client_first_bare: &[u8],
+    server_first: &[&[u8]],
+    client_final_without_proof: &[u8],
+    client_signature: &mut DOutput<D>,
+    server_signature: &mut DOutput<D>,
+) {
+    let keys = [
+        (stored_key.as_slice(), client_signature),
+        (server_key.as_slice(), server_signature),
+    ];
+    for (key, signature) in keys {
+        let mut hmac =
+            <SimpleHmac<D>>::new_from_slice(key).expect("HMAC can work with any key size");
+        Mac::update(&mut hmac, client_first_bare);
+        Mac::update(&mut hmac, b",");
+        for part in server_first {
+            Mac::update(&mut hmac, part);
+        }
+        Mac::update(&mut hmac, b",");
+        Mac::update(&mut hmac, client_final_without_proof);
+        hmac.finalize_into(signature);
+    }
+}
+
 #[allow(clippy::missing_panics_doc)]
 #[must_use]
 pub fn derive_keys<D>(password: &[u8]) -> (DOutput<D>, DOutput<D>)
-- 
2.43.0


From afa4c1efe0478e102ae8d6ef5458c6e43064692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 06/28] fix: SCRAM server refuses proofs shorter than the
 digest

---
 src/mechanisms/scram/server.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index f90bada..cdd7134 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -342,9 +342,10 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                     && proof.len() <= (<SimpleHmac<D> as OutputSizeUser>::output_size() * 4 / 3) + 3
                 {
                     let mut proof_decoded = DOutput::<D>::default();
-                    base64::engine::general_purpose::STANDARD
+                    let proof_len = base64::engine::general_purpose::STANDARD
                         .decode_slice(proof, &mut proof_decoded)
                         .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;
+                    let complete_proof = proof_len == proof_decoded.len();
 
                     let mut client_signature = DOutput::<D>::default();
                     let mut server_signature = DOutput::<D>::default();
@@ -380,7 +381,8 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
 
                     let calculated_stored_key = D::digest(client_key);
 
-                    if stored_key == calculated_stored_key {
+                    // A shorter proof must not be completed with the zeroes of the buffer
+                    if complete_proof && stored_key == calculated_stored_key {
                         let encoded =
                             base64::engine::general_purpose::STANDARD.encode(server_signature);
                         let msg = ServerFinal::Verifier(encoded.as_bytes());
-- 
2.43.0


From ac64b5f7ad6dc6111f06b960e94abe6e626662c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 07/28] fix: SCRAM is not selected if only its -PLUS variant
 was offered

---
 src/mechanisms/scram/mechinfo.rs | 60 +++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/mechanisms/scram/mechinfo.rs b/src/mechanisms/scram/mechinfo.rs
index 0e0ca1d..ad97be7 100644
--- a/src/mechanisms/scram/mechinfo.rs
+++ b/src/mechanisms/scram/mechinfo.rs
@@ -54,26 +54,32 @@ mod scram_sha1 {
         No,
         /// Only SCRAM-SHA1 but not -PLUS found
         Bare,
-        /// SCRAM-SHA1-PLUS found.
+        /// Only SCRAM-SHA1-PLUS but not SCRAM-SHA1 found
+        PlusOnly,
+        /// Both SCRAM-SHA1 and SCRAM-SHA1-PLUS found.
         Plus,
     }
     impl Selector for ScramSelector1 {
         fn select(&mut self, mechname: &Mechname) -> Option<&'static Mechanism> {
             if *mechname == *SCRAM_SHA1.mechanism {
                 *self = match *self {
-                    Self::No => Self::Bare,
-                    x => x,
+                    Self::No | Self::Bare => Self::Bare,
+                    Self::PlusOnly | Self::Plus => Self::Plus,
                 }
             } else if *mechname == *SCRAM_SHA1_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No | Self::PlusOnly => Self::PlusOnly,
+                    Self::Bare | Self::Plus => Self::Plus,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
-                _ => Some(&SCRAM_SHA1),
+                // SCRAM without -PLUS may only be used if it was offered as such
+                Self::No | Self::PlusOnly => None,
+                Self::Bare | Self::Plus => Some(&SCRAM_SHA1),
             }
         }
 
@@ -81,7 +87,7 @@ mod scram_sha1 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha1Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha1Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
@@ -159,26 +165,32 @@ mod scram_sha256 {
         No,
         /// Only SCRAM-SHA256 but not -PLUS found
         Bare,
-        /// SCRAM-SHA256-PLUS found.
+        /// Only SCRAM-SHA256-PLUS but not SCRAM-SHA256 found
+        PlusOnly,
+        /// Both SCRAM-SHA256 and SCRAM-SHA256-PLUS found.
         Plus,
     }
     impl Selector for ScramSelector256 {
         fn select(&mut self, mechname: &Mechname) -> Option<&'static Mechanism> {
             if *mechname == *SCRAM_SHA256.mechanism {
                 *self = match *self {
-                    Self::No => Self::Bare,
-                    x => x,
+                    Self::No | Self::Bare => Self::Bare,
+                    Self::PlusOnly | Self::Plus => Self::Plus,
                 }
             } else if *mechname == *SCRAM_SHA256_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No | Self::PlusOnly => Self::PlusOnly,
+                    Self::Bare | Self::Plus => Self::Plus,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
-                _ => Some(&SCRAM_SHA256),
+                // SCRAM without -PLUS may only be used if it was offered as such
+                Self::No | Self::PlusOnly => None,
+                Self::Bare | Self::Plus => Some(&SCRAM_SHA256),
             }
         }
 
@@ -186,7 +198,7 @@ mod scram_sha256 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha256Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha256Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
@@ -264,26 +276,32 @@ mod scram_sha512 {
         No,
         /// Only SCRAM-SHA512 but not -PLUS found
         Bare,
-        /// SCRAM-SHA512-PLUS found.
+        /// Only SCRAM-SHA512-PLUS but not SCRAM-SHA512 found
+        PlusOnly,
+        /// Both SCRAM-SHA512 and SCRAM-SHA512-PLUS found.
         Plus,
     }
     impl Selector for ScramSelector512 {
         fn select(&mut self, mechname: &Mechname) -> Option<&'static Mechanism> {
             if *mechname == *SCRAM_SHA512.mechanism {
                 *self = match *self {
-                    Self::No => Self::Bare,
-                    x => x,
+                    Self::No | Self::Bare => Self::Bare,
+                    Self::PlusOnly | Self::Plus => Self::Plus,
                 }
             } else if *mechname == *SCRAM_SHA512_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No | Self::PlusOnly => Self::PlusOnly,
+                    Self::Bare | Self::Plus => Self::Plus,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
-                _ => Some(&SCRAM_SHA512),
+                // SCRAM without -PLUS may only be used if it was offered as such
+                Self::No | Self::PlusOnly => None,
+                Self::Bare | Self::Plus => Some(&SCRAM_SHA512),
             }
         }
 
@@ -291,7 +309,7 @@ mod scram_sha512 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha512Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha512Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
-- 
2.43.0


From b083e429c5f7fb9a2bdf882d89009055954da0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 08/28] fix: SCRAM client refuses cached keys of the wrong size
 instead of panicking

---
 src/mechanisms/scram/client.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 292a2c7..91aad76 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -310,6 +310,10 @@ where
                  client_key,
                  server_key,
              }| {
+                let key_len = DOutput::<D>::default().len();
+                if client_key.len() != key_len || server_key.len() != key_len {
+                    return Err(SCRAMError::Protocol(ProtocolError::CachedKeySize).into());
+                }
                 Ok((
                     DOutput::<D>::clone_from_slice(client_key),
                     DOutput::<D>::clone_from_slice(server_key),
@@ -507,6 +511,8 @@ pub enum ProtocolError {
     IterationCountZero,
     #[error("base64 decoding of data failed")]
     Base64Decode,
+    #[error("cached keys are the wrong size for selected algorithm")]
+    CachedKeySize,
 }
 
 #[derive(Debug, Eq, PartialEq, Copy, Clone, Error)]
-- 
2.43.0


From eaa6a08bc835e26f3a673158a978883bad7ad2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 09/28] fix: OAUTHBEARER server accepts key/value pairs with
 '=' in the value

---
 src/mechanisms/oauthbearer/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 86adcde..4175e4b 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -57,12 +57,10 @@ impl<'a> OAuthBearerMsg<'a> {
                 if let Some(t) = kv.strip_prefix(b"auth=") {
                     token = Some(core::str::from_utf8(t)?);
                 } else {
-                    let mut kviter = kv.split(|b| matches!(b, b'='));
+                    // Only the first '=' is a separator, values may contain further ones.
+                    let mut kviter = kv.splitn(2, |b| matches!(b, b'='));
                     let key = kviter.next().ok_or(ParseError::InvalidKVPair)?;
                     let val = kviter.next().ok_or(ParseError::InvalidKVPair)?;
-                    if kviter.next().is_some() {
-                        return Err(ParseError::InvalidKVPair);
-                    }
                     let key = core::str::from_utf8(key)?;
                     let val = core::str::from_utf8(val)?;
                     fields.push((key, val));
-- 
2.43.0


From 1ca20ed9f7165e903af260c4620ee5b2da8b5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:47 +0000
Subject: [PATCH 10/28] fix: OAUTHBEARER server provides the token without its
 scheme

---
 src/mechanisms/oauthbearer/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 4175e4b..2681a55 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -55,6 +55,8 @@ impl<'a> OAuthBearerMsg<'a> {
 
             for kv in it {
                 if let Some(t) = kv.strip_prefix(b"auth=") {
+                    // The value is the token preceded by its scheme, as in an HTTP header
+                    let t = t.strip_prefix(b"Bearer ").unwrap_or(t);
                     token = Some(core::str::from_utf8(t)?);
                 } else {
                     // Only the first '=' is a separator, values may contain further ones.
-- 
2.43.0


From d9d10cfbf1bfbe935e384c2da50f5d32c7fd2287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 11/28] fix: OAUTHBEARER server refuses malformed GS2 headers

---
 src/mechanisms/oauthbearer/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 2681a55..4ee21d4 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -41,6 +41,10 @@ impl<'a> OAuthBearerMsg<'a> {
                 return Err(ParseError::ChannelBindings);
             }
             let gs2_authzid = gs2iter.next().ok_or(ParseError::InvalidGs2)?;
+            // The header ends in a separator
+            if gs2iter.next() != Some(b"") || gs2iter.next().is_some() {
+                return Err(ParseError::InvalidGs2);
+            }
 
             let authzid = if gs2_authzid.is_empty() {
                 None
-- 
2.43.0


From 9e71221949b7df1fc58ceba1ef785c0fec90934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 12/28] fix: OAUTHBEARER escapes and unescapes authorization
 identities

---
 src/mechanisms/oauthbearer/client.rs |  3 ++-
 src/mechanisms/oauthbearer/parser.rs | 34 ++++++++++++++++++++++++++--
 src/mechanisms/oauthbearer/server.rs |  2 +-
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index a43662f..a2251a2 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -1,6 +1,7 @@
 use crate::context::EmptyProvider;
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
+use crate::mechanisms::oauthbearer::parser::escape_authzid;
 use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrored};
 use crate::property::{AuthzId, OAuthBearerKV, OAuthBearerToken};
 use crate::session::MessageSent;
@@ -37,7 +38,7 @@ impl Authentication for OAuthBearer {
                 writer.write_all(b"n,")?;
                 session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
                     writer.write_all(b"a=")?;
-                    writer.write_all(authzid.as_bytes())?;
+                    writer.write_all(escape_authzid(authzid).as_bytes())?;
                     Ok(())
                 })?;
                 writer.write_all(b",")?;
diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 4ee21d4..9b9a659 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -1,3 +1,4 @@
+use alloc::borrow::Cow;
 use alloc::str::Utf8Error;
 use thiserror::Error;
 
@@ -23,8 +24,37 @@ pub enum ParseError {
     ),
 }
 
+/// Escape an authorization identity for use in a GS2 header
+pub fn escape_authzid(authzid: &str) -> Cow<'_, str> {
+    if authzid.contains([',', '=']) {
+        Cow::Owned(authzid.replace('=', "=3D").replace(',', "=2C"))
+    } else {
+        Cow::Borrowed(authzid)
+    }
+}
+
+/// Undo [`escape_authzid`]
+fn unescape_authzid(escaped: &str) -> Result<Cow<'_, str>, ParseError> {
+    let mut parts = escaped.split('=');
+    let first = parts.next().unwrap_or_default();
+    let mut authzid = Cow::Borrowed(first);
+    for part in parts {
+        let (c, rest) = if let Some(rest) = part.strip_prefix("2C") {
+            (',', rest)
+        } else if let Some(rest) = part.strip_prefix("3D") {
+            ('=', rest)
+        } else {
+            return Err(ParseError::InvalidGs2);
+        };
+        let authzid = authzid.to_mut();
+        authzid.push(c);
+        authzid.push_str(rest);
+    }
+    Ok(authzid)
+}
+
 pub struct OAuthBearerMsg<'a> {
-    pub authzid: Option<&'a str>,
+    pub authzid: Option<Cow<'a, str>>,
     pub token: &'a str,
     pub fields: Vec<(&'a str, &'a str)>,
 }
@@ -49,7 +79,7 @@ impl<'a> OAuthBearerMsg<'a> {
             let authzid = if gs2_authzid.is_empty() {
                 None
             } else if let Some(rem) = gs2_authzid.strip_prefix(b"a=") {
-                Some(core::str::from_utf8(rem)?)
+                Some(unescape_authzid(core::str::from_utf8(rem)?)?)
             } else {
                 return Err(ParseError::InvalidGs2);
             };
diff --git a/src/mechanisms/oauthbearer/server.rs b/src/mechanisms/oauthbearer/server.rs
index 077e5b1..5d228d1 100644
--- a/src/mechanisms/oauthbearer/server.rs
+++ b/src/mechanisms/oauthbearer/server.rs
@@ -57,7 +57,7 @@ impl Authentication for OAuthBearer {
                 } = OAuthBearerMsg::parse(input).map_err(Error::Parse)?;
 
                 let prov = Prov {
-                    authzid,
+                    authzid: authzid.as_deref(),
                     token,
                     kvpairs: fields.as_slice(),
                 };
-- 
2.43.0


From e02943f97c25ec63fec6386c45978794dec41f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 13/28] fix: OAUTHBEARER client understands error messages with
 escape sequences

---
 src/mechanisms/oauthbearer/client.rs     |  7 ++++---
 src/mechanisms/oauthbearer/properties.rs | 23 +++++++++++++++++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index a2251a2..9be8b93 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -2,7 +2,7 @@ use crate::context::EmptyProvider;
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
 use crate::mechanisms::oauthbearer::parser::escape_authzid;
-use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrored};
+use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrorMsg, OAuthBearerErrored};
 use crate::property::{AuthzId, OAuthBearerKV, OAuthBearerToken};
 use crate::session::MessageSent;
 use crate::vectored_io::VectoredWriter;
@@ -77,10 +77,11 @@ impl Authentication for OAuthBearer {
                     return Ok(State::Finished(MessageSent::No));
                 }
 
-                let error = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let error: OAuthBearerErrorMsg =
+                    serde_json::from_slice(input).map_err(Error::Serde)?;
 
                 // If the user callback *doesn't*, we must error, so '?' is correct.
-                session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;
+                session.action::<OAuthBearerErrored>(&EmptyProvider, &error.as_error())?;
                 Ok(State::Finished(MessageSent::Yes))
             }
             OAuthBearerState::Done => Err(SessionError::MechanismDone),
diff --git a/src/mechanisms/oauthbearer/properties.rs b/src/mechanisms/oauthbearer/properties.rs
index 4fd0dc0..923762b 100644
--- a/src/mechanisms/oauthbearer/properties.rs
+++ b/src/mechanisms/oauthbearer/properties.rs
@@ -71,6 +71,29 @@ pub struct OAuthBearerError<'a> {
     pub openid_config: Option<&'a str>,
 }
 
+/// An [`OAuthBearerError`] as received
+///
+/// Strings in JSON messages may contain escape sequences and can thus not always be borrowed from
+/// the message.
+#[derive(Debug, Deserialize)]
+pub(super) struct OAuthBearerErrorMsg {
+    status: String,
+    #[serde(default)]
+    scope: Option<String>,
+    #[serde(default, rename = "openid-configuration")]
+    openid_config: Option<String>,
+}
+
+impl OAuthBearerErrorMsg {
+    pub(super) fn as_error(&self) -> OAuthBearerError<'_> {
+        OAuthBearerError::new(
+            &self.status,
+            self.scope.as_deref(),
+            self.openid_config.as_deref(),
+        )
+    }
+}
+
 impl<'a> OAuthBearerError<'a> {
     #[must_use]
     pub const fn new(
-- 
2.43.0


From 43e65c4d70c87840c5330591605a0ec81ad057a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 14/28] fix: XOAUTH2 server refuses tokens containing
 separators

---
 src/mechanisms/xoauth2/server.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mechanisms/xoauth2/server.rs b/src/mechanisms/xoauth2/server.rs
index 69c0b89..227e040 100644
--- a/src/mechanisms/xoauth2/server.rs
+++ b/src/mechanisms/xoauth2/server.rs
@@ -84,6 +84,7 @@ impl Authentication for XOAuth2 {
                 let raw_token = tokenpart
                     .strip_prefix(b"\x01auth=Bearer ")
                     .and_then(|token| token.strip_suffix(b"\x01\x01"))
+                    .filter(|token| !token.contains(&ASCII_SOH))
                     .ok_or_else(|| SessionError::MechanismError(Box::new(Error::InvalidFormat)))?;
 
                 let authid = core::str::from_utf8(raw_authid)
-- 
2.43.0


From 2a7da04748d22e0d9faf2d61ed7a47a4dec5184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 15/28] fix: XOAUTH2 client refuses values containing
 separators

---
 src/mechanisms/xoauth2/client.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/xoauth2/client.rs b/src/mechanisms/xoauth2/client.rs
index f336228..50a6a7b 100644
--- a/src/mechanisms/xoauth2/client.rs
+++ b/src/mechanisms/xoauth2/client.rs
@@ -29,6 +29,8 @@ impl Default for XOAuth2State {
 
 #[derive(Debug, Error)]
 enum Error {
+    #[error("username or bearer token contains a separator")]
+    ContainsSeparator,
     #[error("response message is invalid UTF-8")]
     Utf8(
         #[from]
@@ -38,8 +40,21 @@ enum Error {
 }
 impl MechanismError for Error {
     fn kind(&self) -> MechanismErrorKind {
-        MechanismErrorKind::Parse
+        match self {
+            Self::ContainsSeparator => MechanismErrorKind::Protocol,
+            Self::Utf8(_) => MechanismErrorKind::Parse,
+        }
+    }
+}
+
+/// Values can not be sent if they contain the `^A` separating the parts of the message
+fn check_separator(value: &str) -> Result<(), SessionError> {
+    if value.contains('\x01') {
+        return Err(SessionError::MechanismError(Box::new(
+            Error::ContainsSeparator,
+        )));
     }
+    Ok(())
 }
 
 impl Authentication for XOAuth2 {
@@ -52,6 +67,7 @@ impl Authentication for XOAuth2 {
         match self.state {
             XOAuth2State::Initial => {
                 session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
+                    check_separator(authid)?;
                     let data = [b"user=", authid.as_bytes(), b"\x01auth=Bearer "];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(&mut *writer)?;
@@ -59,6 +75,7 @@ impl Authentication for XOAuth2 {
                 })?;
 
                 session.need_with::<OAuthBearerToken, _, _>(&EmptyProvider, |token| {
+                    check_separator(token)?;
                     let data = [token.as_bytes(), b"\x01\x01"];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(writer)?;
-- 
2.43.0


From b9ad8ac84543531a4545a7eb0505d6e7a84881d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 16/28] fix: OAUTHBEARER client refuses values the message can
 not carry

---
 src/mechanisms/oauthbearer/client.rs |  6 +++++-
 src/mechanisms/oauthbearer/parser.rs | 18 ++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index 9be8b93..8c56393 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -1,7 +1,7 @@
 use crate::context::EmptyProvider;
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
-use crate::mechanisms::oauthbearer::parser::escape_authzid;
+use crate::mechanisms::oauthbearer::parser::{check_key, check_separator, escape_authzid};
 use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrorMsg, OAuthBearerErrored};
 use crate::property::{AuthzId, OAuthBearerKV, OAuthBearerToken};
 use crate::session::MessageSent;
@@ -37,6 +37,7 @@ impl Authentication for OAuthBearer {
             OAuthBearerState::Initial => {
                 writer.write_all(b"n,")?;
                 session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
+                    check_separator(authzid).map_err(Error::Parse)?;
                     writer.write_all(b"a=")?;
                     writer.write_all(escape_authzid(authzid).as_bytes())?;
                     Ok(())
@@ -45,6 +46,8 @@ impl Authentication for OAuthBearer {
 
                 session.maybe_need_with::<OAuthBearerKV, _, _>(&EmptyProvider, |kvpairs| {
                     for (k, v) in kvpairs {
+                        check_key(k).map_err(Error::Parse)?;
+                        check_separator(v).map_err(Error::Parse)?;
                         let data = [b"\x01", k.as_bytes(), b"=", v.as_bytes()];
                         let mut vecw = VectoredWriter::new(data);
                         vecw.write_all_vectored(&mut *writer)?;
@@ -53,6 +56,7 @@ impl Authentication for OAuthBearer {
                 })?;
 
                 session.need_with::<OAuthBearerToken, _, _>(&EmptyProvider, |token| {
+                    check_separator(token).map_err(Error::Parse)?;
                     let data = [b"\x01auth=Bearer ", token.as_bytes(), b"\x01\x01"];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(writer)?;
diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 9b9a659..50501f3 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -16,6 +16,8 @@ pub enum ParseError {
     ChannelBindings,
     #[error("K/V pair is invalid")]
     InvalidKVPair,
+    #[error("value contains a separator")]
+    ContainsSeparator,
     #[error("Invalid UTF-8")]
     InvalidUtf8(
         #[from]
@@ -24,6 +26,22 @@ pub enum ParseError {
     ),
 }
 
+/// Values can not be sent if they contain the `^A` separating the parts of the message
+pub fn check_separator(value: &str) -> Result<(), ParseError> {
+    if value.contains('\x01') {
+        return Err(ParseError::ContainsSeparator);
+    }
+    Ok(())
+}
+
+/// Keys must be distinguishable from values and from the token
+pub fn check_key(key: &str) -> Result<(), ParseError> {
+    if key.is_empty() || key == "auth" || key.contains('=') {
+        return Err(ParseError::InvalidKVPair);
+    }
+    check_separator(key)
+}
+
 /// Escape an authorization identity for use in a GS2 header
 pub fn escape_authzid(authzid: &str) -> Cow<'_, str> {
     if authzid.contains([',', '=']) {
-- 
2.43.0


From e40e864047bdefd93979f4adbef8a43153a82861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 17/28] fix: steps whose message could not be written
 completely are errors

write_all_vectored returned Ok when the writer stopped taking data before all
buffers were written, so that a step reported success for a message that was
cut off.  It also gave up on interrupted writes, unlike write_all.
---
 src/vectored_io.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/vectored_io.rs b/src/vectored_io.rs
index 0793039..9f5741a 100644
--- a/src/vectored_io.rs
+++ b/src/vectored_io.rs
@@ -54,17 +54,22 @@ impl<'io, const N: usize> VectoredWriter<'io, N> {
         let mut bufs: [IoSlice; N] = self.data.map(IoSlice::new);
 
         let mut written = 0;
-        while {
-            let len = self.write_vectored_inner(&mut bufs, &mut writer)?;
-            // Check the corner case that Ok(0) was returned because the underlying writer is
-            // exhausted.
-            if len == 0 {
-                return Ok(written);
+        while self.skip < N {
+            let skip = self.skip;
+            match self.write_vectored_inner(&mut bufs, &mut writer) {
+                // Check the corner case that Ok(0) was returned because the underlying writer is
+                // exhausted, as opposed to because only empty buffers were left.
+                Ok(0) if self.skip == skip => {
+                    return Err(io::Error::new(
+                        io::ErrorKind::WriteZero,
+                        "failed to write whole buffer",
+                    ));
+                }
+                Ok(len) => written += len,
+                Err(error) if error.kind() == io::ErrorKind::Interrupted => {}
+                Err(error) => return Err(error),
             }
-
-            written += len;
-            self.skip < N
-        } {}
+        }
 
         Ok(written)
     }
-- 
2.43.0


From a3b6d4dcdc123be2e6afb6ba4a05c1cc21d2faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 18/28] fix: step64 reports messages that could not be written

The encoder was only finished when it was dropped, which ignores errors and
writers that take a part of the data, so that step64 reported success for a
message that was cut off.
---
 src/session.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index e730042..0844f4e 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -230,17 +230,18 @@ mod provider {
             input: Option<&[u8]>,
             writer: &mut impl Write,
         ) -> Result<State, SessionError> {
-            use base64::write::EncoderWriter;
-            let mut writer64 =
-                EncoderWriter::new(writer, &base64::engine::general_purpose::STANDARD);
-
-            let state = if let Some(input) = input {
-                let input =
-                    base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input)?;
-                self.step(Some(&input[..]), &mut writer64)
-            } else {
-                self.step(None, &mut writer64)
-            }?;
+            use base64::engine::{general_purpose::STANDARD, Engine};
+
+            let input = input.map(|input| STANDARD.decode(input)).transpose()?;
+
+            // The message is collected first since a writer encoding on the fly can only write the
+            // last characters, and report errors doing that, after the mechanism is done.
+            let mut message = Vec::new();
+            let result = self.step(input.as_deref(), &mut message);
+            let written = writer.write_all(STANDARD.encode(&message).as_bytes());
+
+            let state = result?;
+            written?;
             Ok(state)
         }
     }
-- 
2.43.0


From 79dfc977018b3a1b51204012a7742364365d597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 19/28] fix: a second satisfy does not discard the value of the
 first

Answering a request that is satisfied already dropped the value given first, so
that the mechanism got none.  As documented, the first value is used and further
calls do nothing.
---
 src/callback.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/callback.rs b/src/callback.rs
index 87297a0..678a0bb 100644
--- a/src/callback.rs
+++ b/src/callback.rs
@@ -215,6 +215,8 @@ impl CallbackError {
 }
 
 pub(crate) trait CallbackRequest<Answer: ?Sized> {
+    /// Returns true if a value was already provided
+    fn is_satisfied(&self) -> bool;
     fn satisfy(&mut self, answer: &Answer) -> Result<(), SessionError>;
 }
 
@@ -254,10 +256,18 @@ where
     P: for<'p> Property<'p>,
     F: FnOnce(&<P as Property<'_>>::Value) -> Result<G, SessionError>,
 {
+    fn is_satisfied(&self) -> bool {
+        matches!(self.closure, Some(ClosureCRState::Satisfied(_)))
+    }
+
     fn satisfy(&mut self, answer: &<P as Property<'_>>::Value) -> Result<(), SessionError> {
-        if let Some(ClosureCRState::Open(closure)) = self.closure.take() {
-            let reply = closure(answer)?;
-            self.closure = Some(ClosureCRState::Satisfied(reply));
+        match self.closure.take() {
+            Some(ClosureCRState::Open(closure)) => {
+                let reply = closure(answer)?;
+                self.closure = Some(ClosureCRState::Satisfied(reply));
+            }
+            // Only the first value is ever used
+            satisfied => self.closure = satisfied,
         }
         Ok(())
     }
@@ -416,11 +426,12 @@ impl<'a> Request<'a> {
         &mut self,
         answer: &<P as Property<'_>>::Value,
     ) -> Result<&mut Self, SessionError> {
-        if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
-            mech.satisfy(answer)?;
-            Err(CallbackError::early_return().into())
-        } else {
-            Ok(self)
+        match self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
+            Some(Tagged(mech)) if !mech.is_satisfied() => {
+                mech.satisfy(answer)?;
+                Err(CallbackError::early_return().into())
+            }
+            _ => Ok(self),
         }
     }
 
@@ -493,12 +504,13 @@ impl<'a> Request<'a> {
     where
         F: FnOnce() -> Result<P::Value, SessionError>,
     {
-        if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
-            let answer = closure()?;
-            mech.satisfy(&answer)?;
-            Err(CallbackError::early_return().into())
-        } else {
-            Ok(self)
+        match self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
+            Some(Tagged(mech)) if !mech.is_satisfied() => {
+                let answer = closure()?;
+                mech.satisfy(&answer)?;
+                Err(CallbackError::early_return().into())
+            }
+            _ => Ok(self),
         }
     }
 }
-- 
2.43.0


From d60d8d8cf50fd8ccf284a99294e4c65f96d51dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 20/28] fix: GSSAPI server establishes contexts that need
 several tokens

---
 src/mechanisms/gssapi/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index c663a0b..1574565 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -91,6 +91,8 @@ impl Authentication for Gssapi {
                     }
 
                     self.state = GssapiState::Installed(ctx, acceptable);
+                } else {
+                    self.state = GssapiState::Pending(ctx);
                 }
                 // If an auth exchange token was produced we need to do another loop, otherwise we
                 // immediately produce the supported security layer token.
-- 
2.43.0


From 8444864986b84ed55fa62f0357a8a739cb77b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 21/28] fix: GSSAPI client selects only layers its context
 provides

---
 src/mechanisms/gssapi/client.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index 8483fd5..8b3c182 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -92,7 +92,7 @@ impl Authentication for Gssapi {
                 }
 
                 // Request acceptable security layers from the client.
-                let acceptable = session
+                let mut acceptable = session
                     .maybe_need_with::<GssSecurityLayer, _, _>(&EmptyProvider, |acceptable| {
                         let flags = ctx.flags().map_err(Error::Gss)?;
                         // If acceptable contains `NO_SECURITY_LAYER` or is empty, which we treat as
@@ -123,6 +123,19 @@ impl Authentication for Gssapi {
                     })?
                     .unwrap_or_default();
 
+                // Only layers that the established context does provide may be selected.
+                let flags = ctx.flags().map_err(Error::Gss)?;
+                if !flags.contains(
+                    CtxFlags::GSS_C_INTEG_FLAG
+                        | CtxFlags::GSS_C_MUTUAL_FLAG
+                        | CtxFlags::GSS_C_CONF_FLAG,
+                ) {
+                    acceptable.set(SecurityLayer::CONFIDENTIALITY, false);
+                }
+                if !flags.contains(CtxFlags::GSS_C_INTEG_FLAG) {
+                    acceptable.set(SecurityLayer::INTEGRITY, false);
+                }
+
                 self.state = GssapiState::Last(ctx, acceptable);
                 Ok(State::Running)
             }
-- 
2.43.0


From fa6bdf09f251ad7cf8307e2067da17bcd0bff516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 22/28] fix: GSSAPI server refuses selections of several or
 unsupported layers

---
 src/mechanisms/gssapi/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index 1574565..4925e72 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -127,8 +127,9 @@ impl Authentication for Gssapi {
                 let selected =
                     SecurityLayer::from_bits(unwrapped[0]).ok_or(Error::BadFinalToken)?;
 
-                // If the client selected a layer we don't support or accept, error.
-                if !selected.intersects(supported) {
+                // If the client selected a layer we don't support or accept or did not select exactly
+                // one layer, error.
+                if !supported.contains(selected) || selected.bits().count_ones() != 1 {
                     Err(Error::BadFinalToken)?;
                 }
 
-- 
2.43.0


From cbd262016604b1937068901600de500724767569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 23/28] fix: GSSAPI exchanges can go on after a step without
 input

---
 src/mechanisms/gssapi/client.rs |  5 ++++-
 src/mechanisms/gssapi/server.rs | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index 8b3c182..1d9477b 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -140,7 +140,10 @@ impl Authentication for Gssapi {
                 Ok(State::Running)
             }
             GssapiState::Last(mut ctx, acceptable) => {
-                let input = input.ok_or(SessionError::InputDataRequired)?;
+                let Some(input) = input else {
+                    self.state = GssapiState::Last(ctx, acceptable);
+                    return Err(SessionError::InputDataRequired);
+                };
                 let unwrapped = ctx.unwrap(input).map_err(Error::Gss)?;
                 if unwrapped.len() != 4 {
                     Err(Error::BadFinalToken)?;
diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index 4925e72..4ec44f8 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -64,7 +64,10 @@ impl Authentication for Gssapi {
                 self.step(session, input, writer)
             }
             GssapiState::Pending(mut ctx) => {
-                let input = input.ok_or(SessionError::InputDataRequired)?;
+                let Some(input) = input else {
+                    self.state = GssapiState::Pending(ctx);
+                    return Err(SessionError::InputDataRequired);
+                };
                 let token = ctx.step(input).map_err(Error::Gss)?;
                 if ctx.is_complete() {
                     // Query the user for acceptable security layers
@@ -119,7 +122,10 @@ impl Authentication for Gssapi {
                 Ok(State::Running)
             }
             GssapiState::Final(mut ctx, supported) => {
-                let input = input.ok_or(SessionError::InputDataRequired)?;
+                let Some(input) = input else {
+                    self.state = GssapiState::Final(ctx, supported);
+                    return Err(SessionError::InputDataRequired);
+                };
                 let unwrapped = ctx.unwrap(input).map_err(Error::Gss)?;
                 if unwrapped.len() != 4 {
                     Err(Error::BadFinalToken)?;
-- 
2.43.0


From 394878d54834c79beb3d364138ff6b63d0ee5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 24/28] fix: GSSAPI server validates the client it
 authenticated

---
 src/mechanisms/gssapi/server.rs | 11 ++++++++++-
 src/mechanisms/mod.rs           |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index 4ec44f8..86a2f8a 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -1,8 +1,9 @@
-use crate::context::EmptyProvider;
+use crate::context::{EmptyProvider, ThisProvider};
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
 use crate::mechanisms::gssapi::properties::{Error, GssSecurityLayer, SecurityLayer};
 use crate::prelude::State::Finished;
+use crate::property::AuthId;
 use crate::session::MessageSent;
 use alloc::mem;
 use core::fmt;
@@ -139,6 +140,14 @@ impl Authentication for Gssapi {
                     Err(Error::BadFinalToken)?;
                 }
 
+                // The context names the client that was authenticated by it.
+                let name = ctx
+                    .source_name()
+                    .and_then(|name| name.display_name())
+                    .map_err(Error::Gss)?;
+                let authid = core::str::from_utf8(&name).map_err(|_| Error::BadContext)?;
+                session.validate(&ThisProvider::<AuthId>::with(authid))?;
+
                 let wrap_state = if selected.contains(SecurityLayer::CONFIDENTIALITY) {
                     Some((ctx, true))
                 } else if selected.contains(SecurityLayer::INTEGRITY) {
diff --git a/src/mechanisms/mod.rs b/src/mechanisms/mod.rs
index a0e1850..02467a2 100644
--- a/src/mechanisms/mod.rs
+++ b/src/mechanisms/mod.rs
@@ -208,6 +208,7 @@ pub mod gssapi {
     //! # Server
     //!
     //! Requests the property [`GssSecurityLayer`](properties::GssSecurityLayer) using a 'satisfiable' callback.
+    //! Validates with the name of the client as [`AuthId`] provided.
     #[cfg(doc)]
     use crate::property::*;
 
-- 
2.43.0


From b6b09ed578fa4576855da6f747ba3b1ab108c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 25/28] fix: SCRAM client ignores optional extensions in server
 messages

---
 src/mechanisms/scram/client.rs | 16 ++++++++--------
 src/mechanisms/scram/parser.rs | 24 ++++++++++++++++++++----
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 91aad76..a9447c7 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -8,7 +8,7 @@ use crate::mechanisms::scram::parser::{
 };
 use crate::mechanisms::scram::properties::{Iterations, Salt, SaltedPassword, ScramCachedPassword};
 use crate::mechanisms::scram::tools::{
-    compute_signatures, derive_keys, generate_nonce, hash_password, DOutput,
+    compute_signatures_raw, derive_keys, generate_nonce, hash_password, DOutput,
 };
 use crate::property::{AuthId, AuthzId, OverrideCBType, Password};
 use crate::session::{MechanismData, MessageSent, State};
@@ -356,15 +356,15 @@ where
         let mut client_signature = DOutput::<D>::default();
         let mut server_signature = DOutput::<D>::default();
 
-        compute_signatures::<D>(
+        // Sign the messages as they were sent and received, including extensions
+        let client_first_bare = [b"n=", self.username.as_bytes(), b",r=", &self.client_nonce];
+        let client_final = [b"c=", self.channel_bindings.as_bytes(), b",r=", nonce];
+        compute_signatures_raw::<D>(
             &stored_key,
             &server_key,
-            &self.username,
-            &self.client_nonce,
-            server_nonce,
-            salt64,
-            iteration_count,
-            self.channel_bindings.as_bytes(),
+            &client_first_bare.concat(),
+            &[input],
+            &client_final.concat(),
             &mut client_signature,
             &mut server_signature,
         );
diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index b5ccf9f..9947182 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -186,6 +186,15 @@ fn attribute_value<'a>(part: &'a [u8], name: &[u8]) -> Result<&'a [u8], ParseErr
     })
 }
 
+/// Unknown extensions are ignored, unless they are mandatory or not an attribute at all
+fn ignore_extension(part: &[u8]) -> Result<(), ParseError> {
+    match part {
+        [b'm', b'=', ..] => Err(ParseError::UnknownMandatoryExtensions),
+        [b'a'..=b'z' | b'A'..=b'Z', b'=', _, ..] => Ok(()),
+        _ => Err(trailing_data(part)),
+    }
+}
+
 /// The error for data after the last attribute that is allowed in a message
 fn trailing_data(part: &[u8]) -> ParseError {
     part.first()
@@ -392,8 +401,8 @@ impl<'scram> ServerFirst<'scram> {
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
         let iteration_count = attribute_value(next, b"i=")?;
 
-        if let Some(next) = partiter.next() {
-            return Err(trailing_data(next));
+        for next in partiter {
+            ignore_extension(next)?;
         }
 
         Ok(Self {
@@ -539,10 +548,17 @@ pub enum ServerFinal<'scram> {
 
 impl<'scram> ServerFinal<'scram> {
     pub fn parse(input: &'scram [u8]) -> Result<Self, ParseError> {
-        if let Some(verifier) = input.strip_prefix(b"v=") {
+        let mut partiter = input.split(|b| matches!(b, b','));
+
+        let first = partiter.next().ok_or(ParseError::MissingAttributes)?;
+        for next in partiter {
+            ignore_extension(next)?;
+        }
+
+        if let Some(verifier) = first.strip_prefix(b"v=") {
             Ok(Self::Verifier(verifier))
         } else {
-            let error = attribute_value(input, b"e=")?;
+            let error = attribute_value(first, b"e=")?;
             use ServerErrorValue::{
                 ChannelBindingNotSupported, ChannelBindingsDontMatch, ExtensionsNotSupported,
                 InvalidEncoding, InvalidProof, InvalidUsernameEncoding, NoResources, OtherError,
-- 
2.43.0


From 491d9fb0e5b8d54e6bdec8966e9bc758e3a76879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 26/28] fix: SCRAM server refuses mandatory extensions after
 the nonce

---
 src/mechanisms/scram/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 9947182..138e63c 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -301,6 +301,10 @@ impl<'scram> ClientFirstMessage<'scram> {
             return Err(ParseError::BadNonce);
         }
 
+        for next in partiter {
+            ignore_extension(next)?;
+        }
+
         Ok(Self {
             cbflag,
             authzid,
-- 
2.43.0


From bd5f8d5ebc5c173f5a31823bd1109812e9383429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 27/28] fix: OAUTHBEARER server reports errors of the writer as
 such

---
 src/mechanisms/oauthbearer/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/oauthbearer/server.rs b/src/mechanisms/oauthbearer/server.rs
index 5d228d1..70ac3d3 100644
--- a/src/mechanisms/oauthbearer/server.rs
+++ b/src/mechanisms/oauthbearer/server.rs
@@ -64,7 +64,8 @@ impl Authentication for OAuthBearer {
 
                 let state = session.need_with::<OAuthBearerValidate, _, _>(&prov, |result| {
                     if let Err(error) = result {
-                        serde_json::to_writer(writer, error).map_err(Error::Serde)?;
+                        let message = serde_json::to_vec(error).map_err(Error::Serde)?;
+                        writer.write_all(&message)?;
                         self.state = OAuthBearerState::Errored;
                         Ok(State::Running)
                     } else {
-- 
2.43.0


From f3fd37a17af79669d8b4f2e1cfeb120b2f95c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 28/28] fix: a client starts no mechanism that has no client
 side

A registered mechanism without a client start function whose selector matches
the server's offer made the client panic instead of choosing another one.
---
 src/registry.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index ea31183..4655080 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -238,8 +238,11 @@ impl Registry {
         // Only if the selector has to keep state (e.g. the non-PLUS SCRAM ones have to change
         // their behaviour depending on what mechanisms the server offered for their GS2 header)
         // the Box has to make an allocation.
-        let mut selectors: Vec<Selection> =
-            self.get_mechanisms().filter_map(|m| m.select(cb)).collect();
+        let mut selectors: Vec<Selection> = self
+            .get_mechanisms()
+            .filter(|m| m.client.is_some())
+            .filter_map(|m| m.select(cb))
+            .collect();
 
         for o in offered {
             for s in &mut selectors {
-- 
2.43.0


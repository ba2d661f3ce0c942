#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that long statements stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","SCRAM server authenticates nobody without a correct proof",
 "A SCRAM server session (SHA-1, SHA-256, SHA-512, with or without -PLUS) sends a server verifier, calls the user's validation and yields a validation value only if the client's final message carries exactly the combined nonce of this exchange, the exact GS2 header and channel-binding data of this exchange, and a complete proof computed with the stored key over the messages of this exchange. Every other final message - wrong password, altered, truncated, padded, replayed from another exchange, for another user, with any attribute changed - must end without validation and without a verifier being sent.",
 ["inputs","histories"],"all stored credentials, all client-first messages, and all mutations/replays of client-final messages",
 "The repository has no end-to-end SCRAM exchange test at all; a handful of parser examples cannot show that no altered final message is accepted.",
 ["src/mechanisms/scram/server.rs","src/mechanisms/scram/parser.rs","src/mechanisms/scram/tools.rs"],
 [("gs2 header / nonce / StoredKey comparison","src/mechanisms/scram/server.rs handle_client_final"),("compute_signatures","src/mechanisms/scram/tools.rs")],
 ["SessionCallback::validate calls","bytes written by Session::step","Session::validation()"],
 [("FinalInner","what the server remembers of the first round trip","src/mechanisms/scram/server.rs")])

p("C02","SCRAM exchanges interoperate with an independent RFC 5802 peer",
 "For every user name, authorization identity, password, salt and iteration count the SCRAM client and the SCRAM server each complete an exchange with an independently written RFC 5802/7677 peer, and with each other: every message they send is the one the RFC prescribes, the proof and verifier are correct, and the exchange ends as finished on both sides with exactly one validation on the server. The server's credential lookup and validation are given the decoded identities the client meant. Optional extensions a peer adds to its messages are covered by the signatures and otherwise ignored; a mandatory extension (m=) is refused by either side.",
 ["inputs","configurations"],"all identities (including ',' '=' and non-ASCII), passwords, salts, iteration counts, digests, and the three pairings client/reference, reference/server, client/server",
 "Existing tests pin a few parser strings and one PBKDF2 assumption; no test runs an exchange, let alone against another implementation over arbitrary credentials.",
 ["src/mechanisms/scram/client.rs","src/mechanisms/scram/server.rs","src/mechanisms/scram/parser.rs","src/mechanisms/scram/tools.rs"],
 [("message construction and signatures","src/mechanisms/scram/*.rs")],
 ["bytes written by Session::step","State returned","validate callback context"])

p("C03","SCRAM client finishes only after the server proved knowledge of the keys",
 "A SCRAM client session reports a successful finish only if the server's nonce strictly extends the client's, the iteration count is a positive decimal number, the salt is valid base64 and the server's final message carries exactly the verifier computed with the server key over this exchange; for every other server message it returns an error. The keys are offered to the user for caching only after that verification succeeded.",
 ["inputs","histories"],"all server-first and server-final messages, including mutated, truncated, replayed and error messages",
 "No existing test drives the client past its first message; mutual authentication must hold for every message a malicious server can send.",
 ["src/mechanisms/scram/client.rs","src/mechanisms/scram/parser.rs"],
 [("nonce prefix check, verifier comparison","src/mechanisms/scram/client.rs handle_server_first/handle_server_final")],
 ["State/Err returned by Session::step","ScramCachedPassword action requests"],
 [("WaitingServerFinal.verifier","expected server signature","src/mechanisms/scram/client.rs")])

p("C04","Channel bindings bind, and downgrades are detected",
 "A SCRAM -PLUS exchange succeeds if and only if both sides use the same channel-binding type and the same channel-binding data; a server running a -PLUS mechanism never authenticates a client that did not use channel binding, and a server that supports the -PLUS variant refuses a client that says it could have used channel binding but believed the server could not. The client announces 'not supported', 'server does not support' or 'used' exactly as its configuration and the server's offer demand, and takes the binding data from the protocol implementation before asking the user.",
 ["inputs","configurations"],"all channel-binding names and data on both sides, all offers of plain and -PLUS variants, all client flags",
 "Channel binding is covered by one test that looks up data in a callback; no test combines flags, offers and data on two sides.",
 ["src/mechanisms/scram/client.rs","src/mechanisms/scram/server.rs","src/mechanisms/scram/mechinfo.rs","src/session.rs","src/channel_bindings.rs"],
 [("GS2 flag selection","src/mechanisms/scram/mechinfo.rs ScramSelector*"),("cbind-input comparison","src/mechanisms/scram/server.rs"),("need_cb_data","src/session.rs")],
 ["bytes written by Session::step","validate callback","result of step"])

p("C05","Arbitrary bytes from the peer never panic, crash or exhaust memory",
 "Whatever bytes the remote party sends, at whatever step of whatever mechanism and on either side, a step returns a state or an error: it never panics, aborts, overflows, or takes memory or (apart from a SCRAM iteration count) processor time out of proportion to its input. A message the mechanism cannot parse is an error, never a success.",
 ["inputs","histories"],"all byte strings, and structure-aware mutations of valid messages, at every step of every mechanism on both sides",
 "Unit tests feed a few malformed inputs to some mechanisms; the parsers index into attacker-controlled segments, so only a search over inputs can show there is no panic.",
 ["src/mechanisms/scram/parser.rs","src/mechanisms/plain/server.rs","src/mechanisms/login/server.rs","src/mechanisms/xoauth2/server.rs","src/mechanisms/oauthbearer/parser.rs","src/mechanisms/oauthbearer/client.rs","src/mechanisms/external/server.rs","src/mechanisms/anonymous/server.rs","src/session.rs"],
 [("message parsers","src/mechanisms/*/")],
 ["panics / process death","result of Session::step and step64"])

p("C06","The server sees exactly the identity and credential the client supplied",
 "When a client session of any mechanism accepts the identities, password, token or key/value pairs its user supplied and its message is given to the matching server session, the server's callbacks see exactly those values (after the documented string preparation), and never a different identity. Values the wire format cannot carry are either encoded so that they arrive unchanged or refused by one of the two sides. The clients of PLAIN, LOGIN, EXTERNAL, ANONYMOUS and XOAUTH2 send exactly the message their specification makes of the values, and PLAIN and XOAUTH2 clients send nothing for values it cannot carry.",
 ["inputs"],"all authids, authzids, passwords, tokens and key/value lists, for PLAIN, LOGIN, EXTERNAL, ANONYMOUS, XOAUTH2, OAUTHBEARER and SCRAM",
 "Tests check one or two fixed strings per side and never connect a client to a server; separators inside values are where confusion between identities arises.",
 ["src/mechanisms/plain/client.rs","src/mechanisms/plain/server.rs","src/mechanisms/login/client.rs","src/mechanisms/login/server.rs","src/mechanisms/oauthbearer/client.rs","src/mechanisms/oauthbearer/parser.rs","src/mechanisms/xoauth2/client.rs","src/mechanisms/xoauth2/server.rs","src/mechanisms/external/client.rs","src/mechanisms/anonymous/client.rs","src/mechanisms/scram/parser.rs"],
 [("message encoders and parsers","src/mechanisms/*")],
 ["Context given to validate and to server-side requests"])

p("C07","PLAIN server accepts exactly well-formed messages and prepares them",
 "The PLAIN server hands a message to validation if and only if it consists of exactly three NUL-separated fields with valid UTF-8 identities, a non-empty prepared authid and a non-empty password; it then provides the authzid verbatim (empty if absent), the authid with SASLprep applied and the password with SASLprep applied if it is UTF-8 and verbatim otherwise. Every other message is an error without validation.",
 ["inputs"],"all byte strings",
 "The PLAIN server has no unit test in the repository; acceptance must be decided for every byte string.",
 ["src/mechanisms/plain/server.rs"],
 [("split on NUL, saslprep","src/mechanisms/plain/server.rs step")],
 ["validate callback context","Err from Session::step"])

p("C08","Mechanism selection stays within offer and registry, by preference",
 "A client only ever starts a mechanism that the server offered, that is in its configured registry with a client side, and that may be used with its channel-binding setting; among those it starts the one its preference callback prefers, and it fails with 'no shared mechanism' if and only if there is none or all are rejected. A server starts exactly the requested mechanism and only if it is registered with a server side, and lists exactly those as available.",
 ["inputs","configurations"],"all registries (built-in and custom mechanisms), all offers in any order and multiplicity, all total preference orders and rejections",
 "Existing tests cover a few fixed offer lists with the default preference; selection quantifies over registries, offers and preference functions.",
 ["src/registry.rs","src/sasl.rs","src/config.rs","src/callback.rs","src/mechanisms/scram/mechinfo.rs"],
 [("Registry::select fold","src/registry.rs"),("Selector implementations","src/registry.rs, src/mechanisms/*/mechinfo.rs"),("server_start_suggested / get_available","src/sasl.rs")],
 ["Session::get_mechname","SASLError","first bytes sent"])

p("C09","Step results tell the truth about the state of the exchange",
 "In every exchange, driven by any valid alternation of messages: the side that must speak first is the one that says so; a step reporting running or message-sent has produced the message to deliver (possibly empty) and a step reporting no message has produced none; a missing-input error leaves the exchange able to continue as if the call had not happened; an exchange ends within the number of messages its mechanism defines.",
 ["histories","inputs"],"all mechanisms, sides, credentials and interleavings of empty calls with the regular messages",
 "Unit tests step a mechanism once or twice along one happy path; the contract is over histories, including spurious calls.",
 ["src/session.rs","src/mechanism.rs","src/mechanisms/scram/client.rs","src/mechanisms/scram/server.rs","src/mechanisms/login/server.rs","src/mechanisms/xoauth2/client.rs","src/mechanisms/oauthbearer/server.rs"],
 [("per-mechanism state machines","src/mechanisms/*"),("are_we_first","src/session.rs")],
 ["State, Err and bytes of Session::step","Session::are_we_first"])

p("C10","A step reports success only if its whole message reached the writer",
 "For every writer behaviour - short writes, interrupted writes, writers that fill up, writers that fail at any point - a step that returns success has written its complete message, in order and exactly once, and a step that could not write everything returns an error.",
 ["fault_sequences","inputs"],"all schedules of partial writes, interruptions, zero-length writes and errors, at every message of every mechanism",
 "One unit test writes four fixed buffers through one five-byte writer; the property quantifies over write schedules and failure points for every message.",
 ["src/vectored_io.rs","src/session.rs","src/mechanisms/scram/client.rs","src/mechanisms/scram/server.rs","src/mechanisms/oauthbearer/client.rs","src/mechanisms/xoauth2/client.rs"],
 [("VectoredWriter::write_all_vectored","src/vectored_io.rs"),("write_all in mechanisms","src/mechanisms/*")],
 ["bytes received by the writer","result of Session::step"])

p("C11","Base64 stepping is exactly base64 around stepping",
 "Stepping with base64 is observably the same as decoding the input from standard padded base64, stepping, and encoding the output: same state, same errors, same callbacks, with the output being the canonical base64 of the raw message. Input that is not valid base64 is refused before the mechanism sees anything, and a write failure is reported.",
 ["inputs","histories","fault_sequences"],"all exchanges of all mechanisms, valid and invalid base64 inputs, all write schedules",
 "There is no test of base64 stepping.",
 ["src/session.rs"],[("step64","src/session.rs")],
 ["bytes and results of step64 versus step on the same history"])

p("C12","Callback requests deliver exactly the matching typed value",
 "A mechanism's request for a property is answered only by a value the callback supplied for that same property, the first one supplied wins and reaches the mechanism unchanged; requests for other properties are unaffected, an unanswered optional request yields nothing and an unanswered required one is an error, actions deliver their value exactly once, and the context gives exactly the values the mechanism provides for that call. Errors returned by the callback reach the caller of the step.",
 ["histories","inputs"],"all sequences of mechanism requests (optional, required, action, channel-binding data) and callback scripts (satisfy, satisfy with closure, action, context queries, errors), over sized and unsized property types",
 "The type-erased request machinery is covered by one context test and doc examples; its guarantees are over arbitrary scripts on both ends.",
 ["src/callback.rs","src/context.rs","src/typed.rs","src/session.rs","src/property.rs"],
 [("Request/Satisfy/Action erasure","src/callback.rs, src/typed.rs"),("Demand/Provider","src/context.rs"),("MechanismData::need_with etc","src/session.rs")],
 ["values seen by a custom mechanism and by the callback"])

p("C13","Validation happens exactly once and its value is delivered exactly once",
 "A server session that finishes a successful exchange has called the user's validation exactly once, before or at the step that finishes, and a session whose exchange failed at protocol level has a validation only if it was called; the protocol implementation then obtains exactly the first value the callback set for its own validation type, exactly once, and none if the callback set none or a value for another type. If validation itself fails, the step returns that error and the session is not finished.",
 ["histories","inputs","configurations"],"all server mechanisms, all exchange outcomes, all validation callback scripts and validation types",
 "Tests use a no-op validation; ordering, exactly-once and typing of the delivered value are over histories and callback scripts.",
 ["src/validate.rs","src/session.rs","src/mechanisms/plain/server.rs","src/mechanisms/login/server.rs","src/mechanisms/scram/server.rs","src/mechanisms/xoauth2/server.rs","src/mechanisms/oauthbearer/server.rs","src/mechanisms/external/server.rs","src/mechanisms/anonymous/server.rs"],
 [("Validate::finalize/with","src/validate.rs"),("MechanismData::validate","src/session.rs"),("Session::validation","src/session.rs")],
 ["validate calls","Session::validation()","result of step"])

p("C14","Mechanism names are validated exactly and preserved verbatim",
 "A byte string is accepted as a mechanism name if and only if it is non-empty and consists only of ASCII upper-case letters, digits, hyphen and underscore; an accepted name reads back as exactly the same string in every view and comparison, and a rejection points at the first offending byte.",
 ["inputs"],"all byte strings",
 "Tests list a few good and bad names; acceptance is a predicate over all byte strings (every byte value at every position).",
 ["src/mechname.rs"],[("Mechname::parse","src/mechname.rs")],["Mechname::parse, as_str, as_bytes, comparisons, Display, TryFrom"])

p("C15","OAUTHBEARER server decides by the callback and reports errors intact",
 "The OAUTHBEARER server succeeds silently if and only if the user's decision callback accepted the token; otherwise it sends exactly the user's error object as JSON, stays running, and ends only after the client's acknowledgement. The client finishes successfully only without an error message, hands any well-formed error to its user and acknowledges it, and fails if the user does not take it or it is malformed; a server never accepts a message that is not a well-formed initial response, and parses a well-formed one exactly.",
 ["inputs","histories"],"all tokens, authzids, key/value lists, error objects, callback decisions, and client/server messages",
 "Tests use one token and one error; grammar and decision outcomes are quantified over all messages and callback results.",
 ["src/mechanisms/oauthbearer/client.rs","src/mechanisms/oauthbearer/server.rs","src/mechanisms/oauthbearer/parser.rs","src/mechanisms/oauthbearer/properties.rs"],
 [("OAuthBearerMsg::parse","src/mechanisms/oauthbearer/parser.rs"),("OAuthBearerValidate / OAuthBearerErrored","src/mechanisms/oauthbearer/properties.rs")],
 ["callback contexts","bytes and states of step"])

p("C16","XOAUTH2 server decides by the callback and reports errors intact",
 "The XOAUTH2 server succeeds silently if and only if the user's decision callback accepted user and token; otherwise it sends the user's error text verbatim, stays running, and ends after the client's acknowledgement. The client sends the documented initial response, finishes without a message when there is no error, hands an error text unchanged to its user and acknowledges it, and fails if the user does not take it or it is not UTF-8; messages outside the documented format are refused without consulting the user.",
 ["inputs","histories"],"all users, tokens, error texts, callback decisions, and client/server messages",
 "Tests use one user, one token and one error text.",
 ["src/mechanisms/xoauth2/client.rs","src/mechanisms/xoauth2/server.rs"],
 [("format checks and decision","src/mechanisms/xoauth2/server.rs step")],
 ["callback contexts","bytes and states of step"])

p("C17","Missing or refused credentials never let an exchange succeed",
 "If the user's callback does not supply a value a mechanism requires, or returns an error from any of its requests, the step that needed it returns an error and the exchange is never reported as finished because of that step; on a server a callback that supplies nothing for a credential or decision lookup never results in an authenticated client. Optional values may be omitted without affecting the others.",
 ["fault_sequences","configurations"],"all subsets of properties a callback answers, and all points at which it returns an error, for every mechanism and side",
 "Tests always answer every request; omission and failure at each request is a fault-sequence quantifier.",
 ["src/session.rs","src/callback.rs","src/mechanisms/plain/client.rs","src/mechanisms/login/client.rs","src/mechanisms/scram/client.rs","src/mechanisms/scram/server.rs","src/mechanisms/xoauth2/server.rs","src/mechanisms/oauthbearer/server.rs"],
 [("need_with / maybe_need_with / need_cb_data","src/session.rs")],
 ["results of step","validate calls"])

p("C18","GSSAPI negotiates only mutually acceptable security layers",
 "A GSSAPI exchange finishes only if both sides agreed on one security layer that the server offered, that both users accept, and that the established context can provide; data is then encrypted, integrity-protected or left alone exactly as agreed, and encoding followed by the peer's decoding returns the original data, each reporting how much input it took. A reply selecting a layer the server did not offer, more than one layer, or a malformed final token is refused.",
 ["inputs","histories","configurations"],"all acceptable-layer sets on both sides, all context capability flags, all numbers of context tokens, and all forged final tokens",
 "GSSAPI has no tests at all.",
 ["src/mechanisms/gssapi/client.rs","src/mechanisms/gssapi/server.rs","src/mechanisms/gssapi/properties.rs"],
 [("layer masks and final token checks","src/mechanisms/gssapi/{client,server}.rs")],
 ["State, bytes, has_security_layer, encode/decode","calls made to the GSS-API library"])

p("C19","No security layer is claimed or used by mechanisms that have none",
 "At every point of every exchange of a mechanism without a security layer, before a GSSAPI exchange is finished, and after one that agreed on no layer, the session reports that it has none, and encoding or decoding data returns the no-security-layer error and writes nothing; a custom mechanism that does install a layer has its data passed through unchanged in both directions.",
 ["histories","inputs"],"all mechanisms, sides, points of the exchange and data",
 "No test calls encode or decode.",
 ["src/session.rs","src/mechanism.rs"],[("has_security_layer/encode/decode delegation","src/session.rs"),("trait defaults","src/mechanism.rs")],
 ["Session::has_security_layer/encode/decode"])

p("C20","Credential configurations use exactly the given credentials",
 "A configuration built from an authid, password and optional authzid authenticates with exactly these values over SCRAM-SHA-512 or SCRAM-SHA-256 (either first), SCRAM-SHA-1, PLAIN and - only without an authzid - LOGIN, prefers them in that order whatever the order of the offer, and refuses every other offer. A default configuration offers all built-in mechanisms that need no channel binding.",
 ["inputs","configurations"],"all credentials and all offers (any order, repetitions, unknown names)",
 "One test uses a LOGIN client from credentials; offers and credentials are quantified.",
 ["src/config.rs","src/registry.rs","src/builder.rs"],[("CredentialsProvider, Registry::credentials","src/config.rs, src/registry.rs")],
 ["Session::get_mechname","server-side contexts"])

p("C21","Sessions sharing a configuration are isolated from each other",
 "Any number of client and server sessions started from one shared configuration and stepped in any interleaving, on one or several threads, behave exactly as each would alone: same states, same outcomes, same validation values delivered to the session they belong to, with callbacks told the right mechanism and side.",
 ["schedules","histories"],"all interleavings of steps of concurrent exchanges (up to a dozen in any interleaving, up to a thousand in progress at once) with different users, mechanisms and outcomes",
 "No test has two sessions alive at once.",
 ["src/session.rs","src/sasl.rs","src/config.rs"],[("per-session state in Session/Sasl","src/session.rs, src/sasl.rs")],
 ["outcomes per session versus a run alone"])

p("C22","All ways of supplying SCRAM client keys are equivalent",
 "A SCRAM client given the plain password, the salted password or the cached client and server keys for the same credential sends a final message that the same server accepts, and verifies the same server; the most specific supplied form is used and the others are then not needed, and cached keys of the wrong size are refused with an error. The keys handed out for caching are exactly those derived from the password with the salt and iteration count shown alongside, and the library's own password-hashing and signature helpers produce the values a reference implementation does.",
 ["inputs","configurations"],"all passwords, salts, iteration counts, digests, and subsets of supplied forms",
 "No test supplies salted or cached keys.",
 ["src/mechanisms/scram/client.rs","src/mechanisms/scram/tools.rs","src/mechanisms/scram/properties.rs"],
 [("key lookup cascade","src/mechanisms/scram/client.rs handle_server_first"),("hash_password, derive_keys","src/mechanisms/scram/tools.rs")],
 ["client-final message","ScramCachedPassword action and context"])

p("C23","SCRAM nonces are fresh, printable and never reused",
 "Every SCRAM client-first message carries a nonce of at least 18 printable characters without comma, every SCRAM server extends it by at least as many of its own, and no two exchanges ever use the same client or server nonce; for an unknown user the salt is equally fresh in size and form. Each nonce character position takes many different values across exchanges.",
 ["histories"],"all sequences of exchanges across sessions, threads, users and digests",
 "A unit test cannot see reuse across exchanges; there is no test of nonce generation.",
 ["src/mechanisms/scram/tools.rs","src/mechanisms/scram/client.rs","src/mechanisms/scram/server.rs"],
 [("generate_nonce","src/mechanisms/scram/tools.rs")],
 ["r= attributes on the wire"])

p("C24","Unknown SCRAM users look like known ones until refused",
 "When the user's callback has no stored credential for the named user, the SCRAM server answers the first message exactly as for a known user - a well-formed nonce, a well-formed non-empty salt, a positive iteration count - and refuses the final message whatever it contains, without validation and without a verifier. A stored credential whose keys have the wrong size for the digest is refused instead of being used.",
 ["inputs","histories"],"all client messages of unknown users, all key sizes of stored credentials",
 "No test exercises the unknown-user path.",
 ["src/mechanisms/scram/server.rs"],[("bad_user path, key length check","src/mechanisms/scram/server.rs handle_client_first")],
 ["bytes of step","validate calls"])

p("C25","LOGIN, EXTERNAL and ANONYMOUS servers pass on exactly what was sent",
 "The LOGIN server prompts for user name and then password and validates exactly the two answers; the EXTERNAL and ANONYMOUS servers validate exactly the single message received, treating no message as the empty string. A user name, authzid or token that is not valid UTF-8 is an error without validation, and each exchange finishes without a message from the server.",
 ["inputs","histories"],"all byte strings at every step",
 "Tests list five strings for EXTERNAL and ANONYMOUS; the LOGIN server has no test.",
 ["src/mechanisms/login/server.rs","src/mechanisms/external/server.rs","src/mechanisms/anonymous/server.rs"],
 [("UTF-8 checks and providers","src/mechanisms/{login,external,anonymous}/server.rs")],
 ["validate callback context","State/Err of step"])

p("C26","A failed step says what failed",
 "The error of a failed step tells its caller which kind of thing went wrong, for every mechanism and side: a message that breaks the mechanism's format or rules is a mechanism error of kind Parse or Protocol; a server's SCRAM error value is one of kind Outcome whose text tells which value it was (unknown ones as other error), and a SCRAM server's own error value names the cause (invalid-proof, channel-bindings-dont-match); a well-formed but wrong server verifier is MutualAuthenticationFailed; a required value nobody supplied is CallbackError::NoCallback with the name of the property; channel-binding data that is not available is MissingChannelBindingData with the name of the binding; a writer that fails is SessionError::Io with the writer's own error kind; what the user's validation fails with is ValidationError. The predicates on errors and states (is_mechanism_error, is_missing_prop, is_no_callback, is_running, is_finished, has_sent_message) agree with the variants.",
 ["inputs","fault_sequences"],"all malformed messages, server error values, wrong verifiers, omitted values and bindings, and writer failures at every step of every mechanism",
 "Callers decide by the error whether to ask for another password, blame the peer or try again; tests look at a few errors of parsers, never at those of a running exchange.",
 ["src/error.rs","src/session.rs","src/callback.rs","src/mechanisms/scram/client.rs","src/mechanisms/scram/server.rs","src/mechanisms/scram/parser.rs","src/mechanisms/oauthbearer/server.rs"],
 [("SessionError and MechanismErrorKind","src/error.rs"),("conversion of SCRAM errors","src/mechanisms/scram/tools.rs, parser.rs")],
 ["Err returned by Session::step"])

p("C27","SCRAM messages are accepted exactly when they are well-formed",
 "A SCRAM server (with or without -PLUS) continues on a client-first message if and only if it follows the grammar of RFC 5802 section 7: the flag is exactly 'n', 'y' or 'p=' and a name of ASCII letters, digits, '.' and '-'; the authorization identity is empty or 'a=' and an escaped name; then 'n=' and an escaped name, 'r=' and a nonce of printable ASCII, and any number of optional extensions (a letter, '=', a non-empty value), whatever their names, lengths and characters; then the user's callback sees the decoded names, the answer starts with the client's nonce, and a correct final message completes the exchange. A malformed message ends with a mechanism error, nothing sent and nothing asked of the user. Likewise a correctly signed client-final, a server-first and a server-final message are accepted with any optional extensions, and refused when an attribute is missing, repeated, out of order, misnamed or malformed, a mandatory extension is present, or something follows the proof.",
 ["inputs"],"all messages at each of the four positions of a SCRAM exchange, built from the grammar and damaged",
 "Tests look at the channel-binding flag and a few names; whether every well-formed message is accepted and every malformed one refused is a question about all byte strings.",
 ["src/mechanisms/scram/parser.rs","src/mechanisms/scram/server.rs","src/mechanisms/scram/client.rs"],
 [("ClientFirstMessage, ServerFirst, ClientFinal, ServerFinal and SaslName parsers","src/mechanisms/scram/parser.rs")],
 ["State/Err and bytes of Session::step","requests and validate calls seen by the callback"])

p("C28","Every selection of features builds and offers exactly the mechanisms selected",
 "For every selection of the crate's features (with std): the crate compiles; the default configuration offers and accepts, on the client and on the server, each of SCRAM-SHA-512, SCRAM-SHA-256 (scram-sha-2), SCRAM-SHA-1 (scram-sha-1), PLAIN, LOGIN, ANONYMOUS, EXTERNAL, XOAUTH2 and OAUTHBEARER exactly if its own feature is on, independently of the other features, with the built-in list as well as with registry_static (which adds GSSAPI and mechanisms registered by other crates); SASLConfig::with_credentials likewise for the SCRAM mechanisms, PLAIN and LOGIN (no LOGIN with an authorization identity); a client picks the best mechanism among those selected and offered; and every selected mechanism, the SCRAM -PLUS ones included, completes an exchange in which the server's validation sees what the client's user supplied, through step and (with provider_base64) step64.",
 ["configurations"],"all selections of the 15 features, all offers",
 "The test suite runs with the default features and with all of them; what a cfg attribute does in any other selection is never compiled by it.",
 ["Cargo.toml","src/registry.rs","src/mechanisms/*/mechinfo.rs","src/mechanisms/mod.rs","src/lib.rs","src/config.rs"],
 [("Registry::default, Registry::credentials, registry_static","src/registry.rs"),("cfg attributes on modules and mechanism statics","src/mechanisms/")],
 ["compiler's exit status","get_available, start_suggested, step, step64 and the validate callback of a program built with the selection"])

p("C29","Sessions misuse no memory and give back all they took",
 "Whatever the parties of an exchange send, supply, answer or fail to do - for every mechanism, the user's own ones included - no memory is read or written outside of what it belongs to or after it was given back, and values a callback hands over are not looked at after the call that handed them over. Once a session, its configuration and its results are dropped, everything it took has been given back, whether it finished, failed or was abandoned.",
 ["inputs","histories","fault_sequences"],"all exchanges, attacks, faults, custom mechanisms and callback scripts the other properties' generators produce",
 "Tests pass constants that live for ever and never look at memory; the type-erased requests and contexts rest on unsafe casts whose soundness depends on which types and lifetimes meet.",
 ["src/typed.rs","src/context.rs","src/callback.rs","src/validate.rs","src/config.rs","src/mechname.rs","src/mechanisms/scram/parser.rs","src/registry.rs"],
 [("Erased::downcast_mut, Demand, Request, Context, Validate","src/typed.rs, src/context.rs, src/callback.rs, src/validate.rs"),("SASLConfig::cast","src/config.rs"),("Mechname::new_unchecked","src/mechname.rs")],
 ["AddressSanitizer's reports","bytes taken and given back by a thread"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))

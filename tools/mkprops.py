import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SC,SS,SU,SG="srp/src/client.rs","srp/src/server.rs","srp/src/utils.rs","srp/src/groups.rs"
K,KE="spake2/src/lib.rs","spake2/src/ed25519.rs"
AC,AS,AU,AD="aucpace/src/client.rs","aucpace/src/server.rs","aucpace/src/utils.rs","aucpace/src/database.rs"
p("C01","SRP: matching credentials always agree on one key and both proofs verify",
 "When a client logs in with the username, password and salt that produced the stored verifier, and messages are delivered unmodified, client and server derive the same session key, the server accepts the client's proof and the client accepts the server's proof. This holds for every username, password and salt (including empty, long and binary ones), every pair of ephemeral secrets, every hash function and every valid group, including when a public value, verifier or key has leading zero bytes. The only permitted refusal is of a public value that is zero modulo N.",
 ["inputs","configurations"],"all usernames, passwords, salts, ephemeral secrets a and b (any length), all hash functions, all RFC 5054 groups and custom safe-prime groups",
 "The one agreement test uses one user, one password, SHA-256, G_2048 and fresh random ephemerals; encodings with leading zero bytes appear in about 1 of 128 sessions, odd lengths and other hashes or groups never.",
 [SC,SS,SU],[("client premaster (B - k*g^x)^(a+u*x)",SC),("server premaster (A*v^u)^b",SS),("shared u/k/M1/M2 helpers",SU)],["key(), proof(), verify_client(), verify_server() on both sides of a session"])
p("C02","SRP: no login succeeds with wrong credentials or altered messages",
 "If the password, username or salt used by the client differs from what was registered, or the public value or salt that one side receives differs from what the other side sent, or the server holds the wrong verifier, then the server rejects the client's proof, the client rejects the server's proof, and the two session keys differ. A proof recorded in one session, or one side's own proof reflected back to it, is never accepted.",
 ["inputs","histories"],"all pairs of differing credentials, all single- and multi-field message alterations, all replays and reflections across sessions, for cryptographic hashes and RFC 5054 groups (pairs whose concatenation username:password is identical are the same credential)",
 "One test tries one wrong password (one letter changed) and only checks that something panics; altered messages, replay, reflection, wrong verifiers, near-miss passwords are never tried.",
 [SC,SS,SU],[("identity hash H(I:P) and x = H(s|..)",SC),("proof comparison",SC+" verify_server"),("proof comparison",SS+" verify_client")],["results of verify_client/verify_server, key() of both sides"])
p("C03","SRP: keys and proofs are exactly those of the documented algorithm",
 "For every input each side computes k = H(N | PAD(g)), x = H(s | H(I:P)), v = g^x, A = g^a, B = k*v + g^b, u = H(A | B), S = (B - k*g^x)^(a+u*x) = (A*v^u)^b, M1 = H(A | B | S), M2 = H(A | M1 | S), all integers encoded as minimal big-endian bytes except PAD(g), and the exposed session key is S. An independently written peer that follows these formulas therefore completes a session with either side of this library.",
 ["inputs","configurations"],"all inputs to every public computation, all hash functions and groups, received public values of any size and with any number of leading zero bytes (the integer received is hashed as it is, not reduced modulo N)",
 "The RFC vector pins one group, one hash and one set of values for k, x, v, A, B, u, S and no proof; a change made on both sides in the same way keeps the agreement test passing.",
 [SC,SS,SU],[("hash and exponentiation formulas",SU),("public helpers compute_*",SC),("compute_b_pub, premaster",SS)],["every public compute_* return value; key() and proof() of each side against an independent peer"])
p("C04","SRP: published quantities interoperate with RFC 5054 peers",
 "For every input, the multiplier k, private key x, verifier v, public values A and B, scrambling parameter u and premaster secret S used in a session equal the values RFC 5054 defines (in particular u hashes A and B zero-padded to the length of N). A peer implementing RFC 5054 therefore derives the same premaster secret.",
 ["inputs","configurations"],"all usernames, passwords, salts, ephemerals, RFC 5054 groups and hash functions",
 "One published vector with full-length A and B; padding only matters when A or B has a leading zero byte (1 session in 128).",
 [SU,SC,SS],[("compute_u, documented as H(PAD(A) | PAD(B))",SU),("compute_k with padding",SU)],["key() of each side versus the RFC 5054 premaster secret"])
p("C05","SRP: exactly the public values that are zero modulo N are refused",
 "The server refuses with an illegal-parameter error every client public value congruent to zero modulo N, and the client does the same for the server's public value, whatever the encoding (empty, zero bytes, N, multiples of N, leading zeros). Every other byte string is processed without error or crash.",
 ["inputs"],"all byte strings offered as a public value, all groups, all other arguments",
 "Two should_panic tests try the single value 0 in one group.",
 [SC,SS],[("b_pub % n == 0 check",SC+" process_reply"),("a_pub % n == 0 check",SS+" process_reply")],["process_reply result of either side"])
p("C06","SRP: the shipped groups are the RFC 5054 groups",
 "Each named group has the modulus and generator that RFC 5054 assigns to it: a safe prime of exactly the named bit length, with generator 2 for 1024, 1536 and 2048 bits, 5 for 3072, 4096 and 6144 bits, and 19 for 8192 bits. The same values are seen by every thread and on every access.",
 ["configurations","schedules"],"all seven groups, every thread and first-access order",
 "Tests only touch the 1024- and 2048-bit groups, and the agreement test passes with any modulus.",
 [SG],[("lazily initialised group constants",SG),("modulus files","srp/src/groups/*.bin")],["public n and g of each group"])
p("C07","Proof and authenticator checks accept exactly the right bytes",
 "An SRP proof or AuCPace authenticator is accepted if and only if it equals the expected value in every byte and in length. Truncated, extended, empty, bit-flipped, byte-permuted and swapped-direction values are all refused with the authentication error and never yield a key.",
 ["inputs"],"all candidate proofs/authenticators, in particular every single-bit change and every length, for all hash output sizes",
 "Tests present a correct proof, or one derived from a different password; near misses and other lengths never occur.",
 [SC,SS,AC,AS],[("ct_eq comparison",SC),("ct_eq comparison",SS),("ct_eq comparison",AC),("ct_eq comparison",AS)],["verify_client, verify_server, receive_client_authenticator, receive_server_authenticator"])
p("C08","Refusing a proof takes the same work wherever it is wrong",
 "The work done to refuse an SRP proof or an AuCPace authenticator of the right length does not depend on which or how many bytes differ from the expected value, so that an attacker cannot learn the expected value byte by byte by timing.",
 ["inputs"],"all wrong proofs/authenticators of the right length, every position of the first difference",
 "Unit tests observe only the accept/reject result, which is the same for an early-exit comparison.",
 [SC,SS,AC,AS],[("constant-time equality from subtle",SC),("constant-time equality",SS),("constant-time equality",AC),("constant-time equality",AS)],["number of instructions executed by a refusing call"])
p("C09","SPAKE2: matching password and identities always give one shared key",
 "When both sides start with the same password and identities, in roles A and B or both symmetric, and receive each other's message unmodified, both finish without error and return the same 32-byte key. Each first message is 33 bytes: the role byte 'A', 'B' or 'S' followed by a group element. This holds for every password and identity (including empty, long and binary ones), every random scalar, and every order of the two messages.",
 ["inputs","configurations"],"all passwords, identities and random generators, both modes, with system or caller-supplied randomness",
 "Tests use one short password and identity with a handful of random scalars; in symmetric mode the ordering of messages that share leading bytes is never exercised.",
 [K,KE],[("start/finish",K),("hash_ab / hash_symmetric transcript",KE)],["message bytes and finish() results"])
p("C10","SPAKE2: any difference in password, identity or messages changes the key",
 "If the two sides differ in password or in any identity (including swapping the two identities, or moving bytes between them), or if a delivered message differs in any way from the one sent, or comes from another session, then finishing either fails or yields keys that differ. Keys from different sessions are never equal.",
 ["inputs","histories"],"all pairs of differing passwords/identities, all alterations, cross-session deliveries and replays of messages",
 "One test with password versus password2; identities, altered or replayed messages are never varied.",
 [K,KE],[("password, identities and both messages hashed into the key",KE),("unblinding with the password scalar",K)],["finish() results of both sides"])
p("C11","SPAKE2: malformed peer messages are refused with the right error, never a crash",
 "Finishing with a message whose length is not 33 bytes returns the wrong-length error; with a 33-byte message whose first byte is not the role expected from the peer (B for A, A for B, S for symmetric) the bad-side error; with a correct first byte but 32 bytes that are not a point encoding the corrupt-message error. Every other message yields a key, and no message causes a panic.",
 ["inputs"],"all byte strings as inbound message, for all three roles",
 "Tests try one over-long message and one reflected message for role A; undecodable points, the other roles, empty input and most side bytes are never tried.",
 [K,KE],[("length and side checks",K),("bytes_to_element decompression",KE)],["finish() result"])
p("C12","SPAKE2: messages and keys match the documented, Python-compatible protocol",
 "The password scalar is the 48-byte HKDF-SHA256 output (empty salt, info 'SPAKE2 pw') read big-endian modulo the group order; the first message is xB + pw*M for A, yB + pw*N for B and xB + pw*S for symmetric with the published constants; the key is SHA-256 over SHA-256(password), the SHA-256 of each identity, both messages (A's first, or sorted in symmetric mode) and the shared element. An independent implementation of this therefore interoperates with each role.",
 ["inputs"],"all passwords, identities, random scalars, in each role",
 "One Python vector for the asymmetric mode and two transcript vectors; nothing pins the symmetric constant or messages, or other inputs; a change made on both sides keeps the agreement tests passing.",
 [K,KE],[("blinding constants M, N, S",KE),("password hash to scalar",KE),("transcripts",KE)],["finish() against an independent peer in each role"])
p("C13","SPAKE2: debug output never depends on secrets and shows identities faithfully",
 "The debug rendering of a protocol instance is determined by its group, role and identities alone: it is the same for every password and random scalar. Identities that are not UTF-8 are shown as hexadecimal from which the exact bytes can be recovered.",
 ["inputs"],"all passwords, scalars and identities, all roles",
 "Two fixed renderings with ASCII identities are compared.",
 [K],[("manual Debug impls",K)],["format!(\"{:?}\") of an instance"])
p("C14","AuCPace: honest sessions with matching credentials always agree",
 "When a registered user runs the protocol with the right password over an unmodified channel, both sides finish without error with the same session key. This holds for the normal, partially augmented, strong, and strong partially augmented variants, for negotiated and pre-established session ids, explicit and implicit authentication, heap and fixed-buffer calls in any mix between registration and login, 32- and 64-byte password hashes, any nonce size, and every username, password and channel identifier that fits the buffer.",
 ["inputs","configurations"],"all credentials, channel identifiers, session ids, password-hash parameters, randomness, and all combinations of variant and mode",
 "16 integration tests run one username, password and channel identifier with the heap calls only; no mix with fixed-buffer calls, no other hash sizes or lengths.",
 [AC,AS,AU],[("client augmentation and CPace steps",AC),("server augmentation and CPace steps",AS),("shared key schedule",AU)],["final session keys, or errors, of both sides"])
p("C15","AuCPace: no key is handed out unless credentials and transcript match",
 "With explicit authentication, if the password is wrong, the user is unregistered, or the session id, channel identifier or any protocol message differs between the two sides, the server and the client each end in an error rather than a key whenever the difference affects what they authenticate. Authenticators and public keys reflected, replayed or swapped between sessions are refused. With implicit authentication the two keys differ.",
 ["inputs","histories"],"all wrong credentials, all single-message alterations, reflections and cross-session replays, in all variants and modes",
 "No test runs a session that should fail; only identity points are tried, as unit tests of single steps.",
 [AC,AS,AU],[("authenticators Ta/Tb compared before the key is released",AS),("same on the client",AC),("session id, PRS and CI hashed into the generator",AU)],["Result of receive_*_authenticator / implicit_auth on both sides"])
p("C16","AuCPace: neutral points are refused wherever a peer point is received",
 "A neutral group element received as server augmentation key, as either side's CPace public key, as blinded point, or as blinded salt, or a blinded salt that becomes neutral, makes the receiving call return the illegal-point error in every variant and mode, in both heap and fixed-buffer forms. Non-neutral elements are never refused for this reason.",
 ["inputs","configurations"],"all received points, all receiving calls of all variants",
 "Unit tests cover most but not all receiving calls, each with one fixed state; the fixed-buffer strong client with a neutral blinded salt is untested.",
 [AC,AS],[("is_identity checks on the client",AC),("is_identity checks on the server",AS)],["Result of each receiving call"])
p("C17","AuCPace: both sides compute exactly the documented protocol",
 "For every input the session id, password related string, ephemeral generator, public keys, first session key, authenticators and final session key are those of the documented protocol table (hash indices 0 to 5 prepended as little-endian words; for the strong variant, salt = H1(user, password)^q blinded and unblinded). An independently written client or server following that table interoperates with each side in every variant.",
 ["inputs","configurations"],"all credentials, nonces, channel identifiers, password hash outputs, digests with 64-byte output, in all variants",
 "There is no fixed vector for this crate at all; any change applied consistently on both sides passes every test.",
 [AU,AC,AS],[("H0..H5 domain separation",AU),("key schedule",AU),("verifier and PRS computation",AC),("PRS computation",AS)],["messages and keys against an independent peer on the other side"])
p("C18","AuCPace: replies for unregistered users look like those for registered ones",
 "A login attempt for an unregistered username gets a reply of the same form as one for a registered user, in every variant, and no later step distinguishes it from a wrong password. Repeating the query for the same username gives the same user-specific values (salt; blinded-salt response; long-term key where one is used), different usernames and different servers give different ones, and the attempt never authenticates.",
 ["inputs","histories"],"all usernames, any sequence of queries in any order over any number of sessions of one server, all variants",
 "No test queries an unregistered user.",
 [AS],[("failed-lookup reply from server secret and username",AS+" lookup_failed*")],["server reply message fields and outcome of the session"],
 state=[("server secret","per-server random value hiding failed lookups",AS)])
p("C19","AuCPace: messages survive serialization and malformed encodings are refused",
 "Every client and server message serialized with the optional serde support and deserialized again (in the compact binary formats the project uses) is identical, and a session run over serialized messages gives the same result as one run directly. Malformed, truncated or corrupted encodings, including bytes that are not a valid group element, salt or parameter string, yield an error or a valid message, never a panic.",
 ["inputs","configurations"],"all message variants and field values, nonce sizes, bincode and postcard, all corruptions of an encoding",
 "No test serializes a message; only the examples do, interactively.",
 [AC,AS,AU],[("serde derives and helper modules",AU)],["deserialize(serialize(m)); deserialize(any bytes)"])
p("C20","AuCPace: password hashing input, limits and hasher failures are handled exactly",
 "The password hasher always receives exactly username:password, the caller's parameters and the session's salt, in registration and login, in heap and fixed-buffer forms, and both forms give identical results whenever username, password and separator fit the buffer; otherwise the fixed-buffer form returns the too-long error. A hasher error is passed on, an absent hash and a hash that is not 32 or 64 bytes long are refused with their own errors, and nothing panics.",
 ["inputs","fault_sequences"],"all usernames, passwords, buffer sizes, salts, hash output lengths, hasher faults",
 "One test compares the two internal hashing functions on one input; buffer boundaries, hash sizes and hasher failures are never exercised.",
 [AC,AU],[("hash_password / hash_password_alloc",AC),("scalar_from_hash",AU)],["arguments seen by the password hasher; Result of register*/generate_cpace*"])
p("C21","AuCPace: short session ids are refused and sessions are bound to their id",
 "Starting either side with a pre-established session id shorter than 16 bytes returns the insecure-id error, and with 16 bytes or more succeeds. Sides whose session ids (pre-established or negotiated from the two nonces) differ in any byte never share a key or accept each other.",
 ["inputs"],"all session id byte strings and lengths, all nonce pairs",
 "One short id is tried per side; the boundary, long ids and mismatching ids are never tried.",
 [AC,AS,AU,"aucpace/src/constants.rs"],[("minimum length check",AC+" begin_prestablished_ssid"),("minimum length check",AS+" begin_prestablished_ssid"),("session id hash",AU)],["begin_prestablished_ssid result; session outcome"])
p("C22","Every nonce, ephemeral key, salt and blinding is fresh from the given generator",
 "All randomness comes from the generator supplied by the caller: the same generator output gives the same messages, and each byte drawn for a nonce, ephemeral key, salt, secret exponent or blinding value changes the resulting message or key. Each such value uses fresh output of full length (nonce size for nonces, at least 16 bytes for salts, at least 32 bytes for scalars), so no two sessions or registrations share one.",
 ["inputs","histories"],"all generator outputs, all sequences of registrations and sessions over shared client and server objects, SPAKE2 and AuCPace in all variants",
 "Tests use the system generator and check only agreement, which also holds with constant or repeated ephemerals.",
 [K,KE,AC,AS,AU],[("random_scalar",KE),("generate_nonce, generate_keypair, generate_server_keypair",AU),("blinding and secret exponent",AC),("failed lookup values",AS)],["bytes drawn from an instrumented generator; messages and keys"])
p("C23","Concurrent and interleaved sessions never influence each other",
 "With any number of sessions interleaved or run on different threads over shared servers, clients, databases and group parameters, each session ends exactly as it would alone: it succeeds if and only if the password used is the one current for that user when the server looked it up, regardless of other users' registrations, password changes, failures or aborted sessions. Running sessions on several threads causes no data race.",
 ["schedules","histories"],"all interleavings of registration, password change, login, abort and unknown-user steps over several users, and thread schedules",
 "Every test runs a single session to completion on one thread with one user.",
 [AS,AC,SC,SS,SG,K],[("per-session state objects consumed by value",AS),("lazily initialised shared groups",SG)],["history of calls and results against a sequential model; race reports"])
p("C24","No peer input, however hostile, crashes or corrupts a party",
 "Any bytes, points or values a peer can send in any protocol step lead to a defined result: a value or an error. They never cause a panic, arithmetic overflow, abort, hang, out-of-bounds access or other undefined behaviour.",
 ["inputs","fault_sequences"],"all peer-controlled inputs to every public call of the three crates, any length",
 "Tests feed a handful of well-formed values and three malformed ones.",
 [SC,SS,SU,K,KE,AC,AS,AU],[("input validation before arithmetic",SC),("length/side/point checks",K),("point checks and buffer-size checks",AC)],["process exit, panics, sanitizer reports"])
p("C25","Features, profiles and optimisation never change protocol behaviour",
 "Every supported combination of crate features builds, and with the same inputs and randomness every build (any features, with or without debug assertions and overflow checks, any optimisation level, any word size and byte order of the machine) produces byte-identical messages, keys and errors. Parties built differently therefore interoperate.",
 ["configurations"],"all feature subsets of the three crates and build profiles",
 "The tests run in a single configuration: all features, dev profile; the default and no-default-features builds are never executed.",
 [AC,AS,AU,K,KE,"aucpace/src/lib.rs"],[("cfg(feature) gates","aucpace/src/*.rs"),("cfg(feature) gates",K)],["event log of a deterministic workload, per build"])
p("C26","Nothing a party sends discloses the password or key material",
 "No login message contains, in raw, hexadecimal or base64 form, the password, the session key, the password verifier, a private ephemeral or the password related string, and none is a fixed function of username and password that an eavesdropper could use to test guesses offline. In the strong variant this includes the salt and the unblinded password point.",
 ["inputs","histories"],"all login messages of all sessions of SRP, SPAKE2 and AuCPace in all variants, all credentials",
 "Tests never inspect message contents.",
 [AC,AS,K,SC,SS],[("blinding of the password point and salt",AC),("ephemeral generator",AU),("password blinding of the first message",K)],["recorded wire messages of sessions"])
p("C27","SPAKE2: any group supplied through the Group trait gives working sessions",
 "The protocol is generic over its group: with any type implementing the Group trait - whatever the length of its encoded elements and whatever its order - matching sessions finish with one shared key that is the documented hash over the inputs and that group's own messages, and messages that have the wrong length for that group, the wrong role byte, or bytes that group refuses to decode get exactly the errors the shipped group gives. Nothing about the shipped group is assumed.",
 ["inputs","configurations"],"all implementations of the Group trait (element lengths, orders, decoders), all passwords, identities, scalars and peer messages",
 "The tests only ever instantiate the shipped Ed25519 group.",
 [K,KE,"spake2/src/group.rs"],[("generic protocol over Group",K),("transcript hashing",KE)],["messages, keys and errors of Spake2<G> for groups of the harness; calls the group receives"])
p("C28","An error names its cause and discloses nothing else",
 "Whenever a call of the libraries is refused, the error value and its Debug and Display text depend only on the documented cause: they are the same for all passwords, usernames, keys, verifiers and ephemerals, for every wrong proof or authenticator of that side whatever its bytes, length or first differing position, for every illegal value, for registered and unregistered users, and for the fixed-buffer and heap forms. Different documented causes have different errors, and a password hasher's error is passed on unchanged.",
 ["inputs","configurations"],"all refusals by SRP, SPAKE2 and AuCPace, all secrets, all wrong values with the same cause",
 "Tests compare an error once, if at all, with one expected value; that it is the same in all other circumstances, and what its text contains, is never looked at.",
 [SC,SS,"srp/src/types.rs","spake2/src/error.rs",K,"aucpace/src/errors.rs",AC,AS,AU],[("error construction","srp/src/types.rs"),("error type","spake2/src/error.rs"),("error type","aucpace/src/errors.rs"),("hash_password error mapping",AC)],["Debug and Display text of every error returned"])
p("C29","The libraries touch nothing outside their arguments",
 "No call of the libraries, successful or refused, writes to standard output or error, reads environment variables, opens, reads or writes files, uses the network, starts threads or processes, or changes process-wide settings. System randomness is requested only by the calls documented to use the system's generator; every other call uses the generator it was given.",
 ["inputs","configurations"],"all sessions, registrations and refusals of SRP, SPAKE2 and AuCPace, all inputs, all process environments",
 "A test passes just the same when a call also logs, caches or reads something; nothing observes the process from outside.",
 [SC,SS,SU,SG,K,KE,AC,AS,AU],[("client and server computations",SC),("client and server computations",SS),("start and finish",K),("sessions and registration",AC),("sessions",AS)],["system calls of a process that does nothing but run sessions; reads of its environment block"])
p("C30","AuCPace: secrets do not steer what is executed or which memory is touched",
 "For every AuCPace operation of client and server (registration, blinding, augmentation, public keys, shared key, implicit and explicit authentication, registered and unregistered users), the sequence of executed instructions and of accessed addresses is the same for all secrets of the same lengths - password, ephemeral and blinding scalars, verifier, secret exponent, long-term key, server secret - when the public messages and the outcome are the same; so neither time nor cache use tells about them. (The strong variant's recovered salt, whose characters the password_hash crate inspects, and the caller's hasher are excepted.)",
 ["inputs"],"all secret values of equal length, all operations and variants of AuCPace",
 "A test sees results only; that a multiplication or reduction takes longer for some secrets leaves every result unchanged.",
 [AC,AS,AU],[("shared point, key pairs, scalar_from_hash",AU),("generate_cpace, start_augmentation_strong, register",AC),("generate_prs and strong variants, fake replies",AS)],["instruction and address traces of one operation under valgrind; undefined-value reports of memcheck with the secrets undefined"])
p("C31","SPAKE2: the shipped group is Edwards25519 for every operand",
 "Used through the public Group trait, Ed25519Group is the Edwards25519 group for every operand, not only for those honest sessions produce: exactly the 32-byte strings that encode a curve point decode (to that point, including points of small and mixed order), every element encodes to the 32 canonical bytes that decode to it again, addition, fixed-base and variable-base multiplication and scalar negation give the mathematical result (including doublings, inverses, the neutral element and zero), password scalars are those of the Python implementation, and the constants M, N and S are the published elements of prime order.",
 ["inputs"],"all byte strings, all curve points including the torsion, all scalars",
 "Tests touch the group only through two honest sessions and a few vectors.",
 [KE,"spake2/src/group.rs"],[("Group implementation",KE),("ed25519_hash_to_scalar",KE)],["results of the Group trait's functions, as bytes"])
p("C32","AuCPace: each message has one wire encoding that peers rely on",
 "The serialized form of every message is a fixed function of its contents, the same in every session, build and history: the number of its variant (variants of optional features numbered last), then its fields in their declared order, points and scalars as their 32 canonical bytes, byte strings, nonces, authenticators and texts with their length. Decoding accepts exactly such encodings: no truncated message, unknown variant, wrong-length nonce or authenticator, non-canonical or invalid point or scalar, or ill-formed salt or parameters becomes a message.",
 ["inputs"],"all messages of all variants, all contents, binary formats (bincode, postcard), all corrupted encodings",
 "Round trips through one build's own serializer pass with any encoding, also one that no deployed peer understands; malformed encodings are never decoded in tests.",
 [AC,AS,AU],[("ClientMessage",AC),("ServerMessage",AS),("serde helpers",AU)],["bytes of serialized messages; decoder results"])
p("C33","Memory and work stay in proportion to the inputs; nothing is left behind",
 "Whatever happens in a session - success, refusal by either side, abandonment, malformed messages - the memory it used is released when its objects are gone, so a party can serve any number of sessions. The memory one call needs and the work it does grow at most in proportion to the length of its inputs (for fixed group and exponents), also for hostile public values and length claims in messages. AuCPace's fixed-buffer calls, and all its calls that have no _alloc form, never use the heap.",
 ["inputs","histories"],"all sequences of sessions, refusals and abandoned sessions, all input lengths, all message encodings",
 "A leak, a growing cache or quadratic work leaves every result of a test unchanged; tests never count allocations nor use long inputs.",
 [SC,SS,SU,K,KE,AC,AS,AU],[("per-session objects",SC),("start and finish, Debug",K),("hash_password and hash_password_alloc",AC),("client info and fake replies",AS),("serde helpers",AU)],["allocations, live memory and processor time of the process around each call"])
p("C34","AuCPace: the server uses exactly the records stored for the name it received",
 "In a login the server reads the database under exactly the bytes of the username it received and under no other name. What is stored there at that moment is used as it is, whatever software stored it: salt and parameters are sent unchanged, in the partially augmented variants the stored long-term public key is sent and its private key used, in the strong variants the stored exponent is applied, and the verifier alone decides whether the login succeeds. Where a part of the record is missing the login fails and nothing of another user's record is sent. A registration carries exactly the name being registered. Names that differ in any byte, however alike they look, are different users.",
 ["inputs","histories"],"all usernames and pairs of similar usernames, all records (salts, parameters, verifiers, exponents, key pairs, partly missing records), changes of records between logins, all variants",
 "Tests store one user under one plain ASCII name, with the record their own client made, and never look at what the server asks of the database.",
 [AS,AD,AC],[("generate_client_info and its three variants, generate_prs*",AS),("Database, PartialAugDatabase and StrongDatabase",AD),("register*",AC)],["calls of the database traits, reply messages, registration messages, outcome of the session"],
 state=[("database records","verifier, salt or exponent, parameters, long-term key pair per username",AD)])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
A = "aeonflux/src/"; S = "signal-credential/src/"

prop("C01", "The honest protocol always completes",
 "For every system parameters, issuer key, phone number of at most 26 bytes and every output of every random source (apart from the negligible draws that make a tag or presentation nonce the identity), an honestly issued credential is accepted by its user, every presentation made from it is accepted by the issuer, and every proof of roster membership made for an honest roster entry is accepted. "
 "This holds for any number of presentations of one credential, for several users of one issuer, and when any object is sent through its byte encoding between steps. "
 "The issuer gets back exactly the commitment of the roster entry the user named.",
 ["inputs", "histories"], "all keys, attributes, random draws and challenges of a small prime-order group; presentation histories up to length 3; every choice of which objects are re-encoded",
 "The tests run the protocol once with one random key and number; a term that is wrong only for a zero or special scalar, a second presentation or a re-encoded object is never reached.",
 [A+"issuer.rs", A+"user.rs", A+"proofs.rs", S+"issuer.rs", S+"user.rs", S+"phone_number.rs"],
 [("Issuer::issue / Issuer::verify", A+"issuer.rs"), ("User::obtain_finish / User::show", A+"user.rs"), ("SignalIssuer::verify_roster_membership", S+"issuer.rs"), ("SignalUser::show", S+"user.rs")],
 ["Results of obtain_finish, show, verify, verify_roster_membership"])

prop("C02", "The algebraic MAC accepts exactly its own tags",
 "A tag is accepted for a message under a key exactly when the message has the length the key was made for, the tag's nonce is not the identity, and the tag's second element is the nonce raised to x0 plus the inner product of key and message. "
 "Tag creation succeeds exactly for messages of the key's length and yields tags with nothing but a fresh random multiple of the generator as nonce, and re-randomising a tag by a non-zero factor preserves which messages it is accepted for. "
 "In particular the issuer's public key has one element per message scalar, each that scalar of the secret key times h.",
 ["inputs"], "all keys of up to 3 elements, all messages of length 0..4, all nonces, tags and re-randomisation factors of a small prime-order group",
 "Tests check one random key with two-element messages, never a wrong length, an identity nonce or a message differing only in a late element.",
 [A+"amacs.rs"], [("SecretKey::mac / verify / get_public_key", A+"amacs.rs"), ("Rerandomization", A+"amacs.rs")], ["Result of SecretKey::verify"])

prop("C03", "Accepted presentations prove possession of a valid credential",
 "The issuer accepts a presentation only if whoever made it knows an attribute and openings such that the presented, re-randomised tag is a valid tag, with non-identity nonce, on exactly that attribute under this issuer's own secret key, and the attribute commitment opens to that attribute. "
 "So forged presentations, presentations of another issuer's or an altered credential, and presentations with any field changed or mixed in from another presentation are rejected, except with the negligible probability of guessing the challenge. "
 "The credential returned as verified is the one that was presented.",
 ["inputs", "histories"], "all presentations (every nonce, commitment, challenge, response) against all issuer keys over a small prime-order group; all splices of two honest presentations; all challenge values",
 "The tests only ever feed an honest presentation to the verifier; not one test expects a rejection.",
 [A+"issuer.rs", A+"user.rs", A+"proofs.rs", S+"issuer.rs"],
 [("Issuer::verify", A+"issuer.rs"), ("valid_credential::Proof::verify", A+"proofs.rs"), ("SignalIssuer::verify", S+"issuer.rs")], ["Result of Issuer::verify and SignalIssuer::verify"])

prop("C04", "Accepted roster-membership proofs bind credential and roster entry",
 "The issuer accepts a roster-membership proof only if the roster-entry commitment and the credential's attribute commitment open to one and the same value, known to the prover, so a user can only prove membership for an entry that commits to their own phone number. "
 "The commitment handed back is exactly the one the proof was made for, so a presentation whose roster entry was replaced by another is rejected.",
 ["inputs", "histories"], "all nonces, commitment pairs, challenges and responses over a small prime-order group; all pairings of two users, their credentials, their entries and each other's openings",
 "No test calls verify_roster_membership at all.",
 [S+"issuer.rs", S+"user.rs", A+"proofs.rs"], [("SignalIssuer::verify_roster_membership", S+"issuer.rs"), ("committed_values_equal::Proof::verify", A+"proofs.rs")], ["Result of verify_roster_membership"])

prop("C05", "A user stores a credential only if it was correctly issued to them",
 "A user accepts an issuance only if its proof shows that the issuer knows key values, matching the published issuer parameters and the enclosed key commitment, under which the enclosed tag was computed, only if the tag's nonce is not the identity, and only if the credential's attribute is the user's own phone number. "
 "An issuance altered in any field, made under another issuer's parameters, or made for somebody else is rejected, and a rejected or missing issuance leaves the user exactly as before.",
 ["inputs", "histories"], "all issuances (every tag, commitment, attribute, challenge and response) against all issuer parameters over a small prime-order group; all splices of two honest issuances",
 "The tests only ever finish an honest issuance.",
 [A+"user.rs", A+"issuer.rs", A+"proofs.rs", S+"user.rs"], [("User::obtain_finish", A+"user.rs"), ("issuance_revealed::Proof::verify", A+"proofs.rs"), ("SignalUser::obtain_finish", S+"user.rs")], ["Result of obtain_finish and the stored credential"])

prop("C06", "Presentations are unlinkable and hide the phone number",
 "What an issuer sees when a credential is presented, alone or over repeated presentations, has exactly the same probability distribution whichever phone number and whichever of the issuer's valid tags lie behind it, so presentations cannot be linked to an issuance, to each other or to a number. "
 "The roster-entry commitment likewise has the same distribution for every phone number.",
 ["inputs", "histories"], "exact distribution of the full view over all random draws, for every pair of attributes and tags, one and two presentations, small prime-order groups",
 "Distribution equality over all randomness is not observable from a handful of random runs; no test looks at it.",
 [A+"user.rs", A+"amacs.rs", A+"pedersen.rs", A+"nonces.rs", S+"user.rs", S+"phone_number.rs"], [("User::show re-randomisation and commitments", A+"user.rs"), ("SignalUser::show", S+"user.rs"), ("RosterEntryCommitment::create", S+"phone_number.rs")], ["bytes of SignalCredentialPresentation and RosterEntryCommitment"])

prop("C07", "Every proof system is complete and sound for its stated relation",
 "For each of the five zero-knowledge proof systems, a proof created with a witness of the stated relation verifies for the same statement, and from any two accepted proofs with equal first messages and different challenges a witness of exactly the stated relation can be computed (a secret that occurs in none of the relation's equations is unconstrained). "
 "A proof made without a witness, or checked against any other statement, verifies with at most the probability of guessing the challenge.",
 ["inputs"], "all statements, witnesses, randomness, challenges and responses over small prime fields for all five proof systems",
 "Only two of the five systems are run by tests, each on one honest instance; a missing or mixed-up term in a verification equation passes them.",
 [A+"proofs.rs", A+"proofs_macros.rs"], [("Proof::create / Proof::verify of issuance_revealed, attributes_blinded, issuance_blinded, valid_credential, committed_values_equal", A+"proofs.rs")], ["Proof::verify result"])

prop("C08", "Every proof reveals nothing about its witness",
 "For each of the five proof systems, for a fixed statement and challenge, the proof's distribution over the prover's randomness is the same for every witness and equals that of a simulator that knows no witness. "
 "In particular every response is masked by its own independent, uniform, never-reused random value.",
 ["inputs"], "all witnesses, statements, challenges and prover randomness over small prime fields",
 "A reused or dropped mask leaves every proof verifying, so no functional test can notice.",
 [A+"proofs.rs"], [("Randomnesses / Responses in Proof::create", A+"proofs.rs")], ["serialized proof"])

prop("C09", "Challenges bind the context, the statement and every commitment",
 "The challenge of each proof depends on the protocol context, the proof system, every public element of the statement and every first message, so changing any one of them changes what is hashed. "
 "A proof accepted in one context or for one proof system or statement is therefore never accepted for another one, other than by guessing the challenge.",
 ["inputs"], "all statements and first messages over a small prime field for all five proof systems, pairwise; all pairs of contexts and proof systems",
 "A public value left out of the hash on both the prover's and verifier's side is invisible to round-trip tests.",
 [A+"proofs.rs", A+"issuer.rs", A+"user.rs", S+"issuer.rs", S+"user.rs"], [("transcript.commit_bytes sequence in create and verify", A+"proofs.rs"), ("Transcript::new contexts", A+"issuer.rs")], ["transcript contents when the challenge is drawn"])

prop("C10", "Decoders never crash, whatever the bytes",
 "Decoding any byte string as any of the library's types, directly or through a serialization framework, returns either a value or an error; it never panics, aborts or reads outside the input. Converting a decoded phone number to text does not crash either.",
 ["inputs"], "every length up to twice the encoding size plus slack and every combination of per-block contents from an adversarial menu, for all 20 decodable types, by from_bytes, bincode and JSON",
 "One test feeds one malformed 64-byte parameter string; all other decoders only ever see their own output.",
 [A+"amacs.rs", A+"credential.rs", A+"elgamal.rs", A+"issuer.rs", A+"macros.rs", A+"parameters.rs", A+"pedersen.rs", A+"user.rs", S+"credential.rs", S+"issuer.rs", S+"phone_number.rs", S+"user.rs"],
 [("from_bytes of every type", A+"amacs.rs"), ("impl_serde_with_to_bytes_and_from_bytes", A+"macros.rs")], ["return of from_bytes / deserialize"])

prop("C11", "Encoding then decoding returns the same object",
 "Every object the library can produce decodes from its byte encoding to an equal object of the same type, has the documented encoded size, and its fields survive unchanged. "
 "The same holds through bincode and through JSON, nested objects included (a bare proof has no byte encoding of its own and goes through bincode).",
 ["inputs"], "all values of every field over a small menu of scalars and points (including zero and identity), with and without optional fields, for all decodable types and all three encodings",
 "Four round-trip tests exist, each for one random object; no test uses JSON or bincode, a user with a credential or key, an issuer, or an issuance.",
 [A+"amacs.rs", A+"credential.rs", A+"elgamal.rs", A+"issuer.rs", A+"macros.rs", A+"parameters.rs", A+"pedersen.rs", A+"user.rs", S+"credential.rs", S+"issuer.rs", S+"phone_number.rs", S+"user.rs"],
 [("to_bytes / from_bytes of every type", A+"credential.rs"), ("impl_serde_with_to_bytes_and_from_bytes", A+"macros.rs")], ["to_bytes, from_bytes, serde"])

prop("C12", "Only the one canonical encoding of an object is accepted",
 "Whenever a decoder accepts a byte string, encoding the result gives back exactly those bytes: missing or trailing bytes, non-canonical scalars or points, and lengths that do not fit the type are errors.",
 ["inputs"], "every truncation and extension of an honest encoding, every combination of canonical, non-canonical and invalid blocks, and every single-bit change, for all decodable types",
 "No test feeds a decoder a byte string of a wrong length or a non-canonical element apart from one parameter test.",
 [A+"amacs.rs", A+"credential.rs", A+"elgamal.rs", A+"issuer.rs", A+"parameters.rs", A+"pedersen.rs", A+"user.rs", S+"credential.rs", S+"issuer.rs", S+"phone_number.rs", S+"user.rs"],
 [("length and canonicity checks in from_bytes", A+"credential.rs")], ["from_bytes then to_bytes"])

prop("C13", "Phone numbers map injectively to attributes and back",
 "Every phone number of 1 to 26 digits maps to its own attribute scalar, the same one whether given as text or as digit bytes, and converting it back yields the digits; every longer input is an error. "
 "Two different accepted inputs of at most 26 bytes, leading and trailing zeros included, never give the same scalar.",
 ["inputs"], "all digit strings up to length 6; for every length 0..40 and every position all byte values; all zero/pad-digit patterns up to length 26; all lengths above the limit",
 "Two example numbers are tested.",
 [S+"phone_number.rs"], [("PhoneNumber::try_from_string / try_from_bytes", S+"phone_number.rs"), ("From<PhoneNumber> for String", S+"phone_number.rs")], ["PhoneNumber scalar and String"])

prop("C14", "Commitments open to what was committed and to nothing else",
 "A commitment opens with a value, opening and generator exactly when it equals the value plus the opening times that generator. "
 "A roster entry created for a phone number opens for that number under the same parameters with its own opening, and for no other number, opening, commitment or parameters; stripping the opening leaves just the commitment.",
 ["inputs"], "all values, openings, generators and commitments of a small prime-order group (2-dimensional, so generators are independent); all pairs of phone numbers mapping to different scalars",
 "Two Pedersen tests use one random value each; roster entries are never opened.",
 [A+"pedersen.rs", S+"phone_number.rs"], [("Commitment::to / open", A+"pedersen.rs"), ("CommittedPhoneNumber, RosterEntryCommitment", S+"phone_number.rs")], ["open results"])

prop("C15", "ElGamal encryption decrypts correctly and is homomorphic",
 "Decrypting an encryption under the matching secret key gives back the message for every key, message and nonce, adding two encryptions under one key decrypts to the sum, and a key pair's public half is always its secret half times the generator. "
 "Over a random nonce a ciphertext is distributed independently of the message given the public key's discrete logarithm is unknown: its first element is uniform and depends on nothing else.",
 ["inputs"], "all keys, messages and nonces of a small prime-order group",
 "One random message is decrypted, with the message derived from the nonce itself.",
 [A+"elgamal.rs", A+"nonces.rs", S+"phone_number.rs"], [("PublicKey::encrypt / SecretKey::decrypt / Encryption::add / Keypair::generate", A+"elgamal.rs")], ["decrypt result"])

prop("C16", "Generated system parameters are always two distinct generators",
 "Whatever bytes the random source returns, parameter generation ends as soon as the source offers an acceptable encoding and returns the standard basepoint together with a second generator that was decoded directly from random bytes and is neither the identity nor the basepoint.",
 ["fault_sequences"], "every sequence up to length 5 of random-source answers from a menu of invalid, non-canonical, identity, basepoint and valid encodings",
 "The test calls the generator once with a real random source.",
 [A+"parameters.rs"], [("SystemParameters::hunt_and_peck", A+"parameters.rs")], ["returned g, h"])

prop("C17", "Secrets are wiped from memory when they go out of scope",
 "When a MAC secret key, re-randomisation factor, ElGamal secret key, ephemeral or vector of nonces goes out of scope, its own memory, every element on the heap included, holds zeros afterwards. "
 "This holds however the object was made (generated, decoded, cloned, moved) and for every length, and no heap block that held such a secret during its life, or what was decoded of one before the rest was refused, is released unwiped.",
 ["histories"], "all wiped types and the objects containing them, lengths 0..9, all histories of up to 6 operations (make, decode, clone, move, swap, drop, overwrite, unwind, use) on two objects",
 "No test inspects memory.",
 [A+"amacs.rs", A+"elgamal.rs", A+"nonces.rs"], [("impl Drop for SecretKey / Rerandomization", A+"amacs.rs"), ("impl Drop for elgamal::SecretKey", A+"elgamal.rs"), ("impl Drop for Ephemeral / Nonces", A+"nonces.rs")], ["memory of the dropped object; heap blocks at release"])

prop("C18", "C API buffers are valid and errors are reported as documented",
 "Every function of the C API returns, on success, a pointer to exactly the documented number of bytes which stay valid and unchanged after the call, and on any error a zero length with a NULL pointer. "
 "NULL pointers, zero lengths, truncated, over-long or corrupted inputs in any argument give that error result and never crash or write to the caller's memory.",
 ["inputs", "fault_sequences"], "every function with every argument replaced in turn (and in pairs) by NULL, empty, truncated, extended and corrupted variants; all call sequences to depth 3 keeping all earlier results live",
 "The Rust-side tests use only valid arguments, and read freed memory.",
 ["ffi/src/c.rs", "ffi/src/macros.rs", "ffi/src/include/credential.h"], [("slice_to_len_and_ptr / zero_len_and_ptr / len_and_ptr_to_slice", "ffi/src/macros.rs"), ("exported functions", "ffi/src/c.rs")], ["returned buf_t, heap state, caller memory"])

prop("C19", "The C API computes the same protocol as the library",
 "A sequence of C API calls gives the same decisions and objects as the corresponding library calls: objects passed between the two worlds at any step are interchangeable, deterministic results for a seed are byte-identical, honest runs succeed and dishonest ones fail. "
 "Opening a roster entry reports 1 exactly if it opens.",
 ["inputs", "histories"], "every assignment of each protocol step to the C API or the library; all pairings of 2 issuers, 2 users and 2 roster entries",
 "Each C function is tested alone on fixed inputs; no two are composed, and opening is untested.",
 ["ffi/src/c.rs", "ffi/src/macros.rs"], [("exported functions", "ffi/src/c.rs")], ["returned buf_t"])

prop("C20", "The JavaScript API computes the same protocol as the library",
 "Every object survives the trip to a JavaScript value and back, an honest run through the JavaScript API succeeds at every step and equals the library's result, and every failure (bad seed length, malformed object, failed verification) gives the documented zero value rather than a crash.",
 ["inputs", "histories"], "every assignment of steps to the JavaScript API or the library; every argument replaced by each entry of an adversarial menu; all pairings of 2 issuers, users and roster entries",
 "The bindings have no tests and are not even compiled by the build.",
 ["wasm/src/js.rs", A+"macros.rs"], [("exported functions", "wasm/src/js.rs"), ("visitor of impl_serde_with_to_bytes_and_from_bytes", A+"macros.rs")], ["returned JsValue"])

prop("C21", "Buffers for foreign callers are copies or NULL",
 "Allocating a buffer for bytes returns either NULL, exactly when the allocator fails or the size cannot be represented, or a fresh block holding a copy of the bytes followed by a zero byte, and it writes nowhere else.",
 ["inputs", "fault_sequences"], "every length 0..4200 and allocator answer (success, failure) at every call of sequences of 4 calls",
 "There is no test for it, and allocator failure cannot be provoked from a unit test.",
 ["build-test/alloc/src/lib.rs"], [("allocate_buffer_for_bytes", "build-test/alloc/src/lib.rs")], ["returned pointer, allocated block and its guard bytes"])

prop("C22", "A user's state changes only by a successful issuance",
 "In every history of issuances (good, bad, missing), presentations and save/restore steps, a user holds exactly the credential of the last successful issuance, presenting works exactly when there is one and never changes the user, and a restored user behaves like the saved one.",
 ["histories"], "all histories up to depth 4 over an alphabet of 8 operations, from empty and non-empty starting states",
 "The tests know a single history: issue, finish, show.",
 [A+"user.rs", S+"user.rs"], [("User::obtain_finish / show / to_bytes / from_bytes", A+"user.rs"), ("SignalUser", S+"user.rs")], ["user fields and results after every step"])

prop("C23", "Proof randomness is never repeated, even if the system's is",
 "The masks of a proof come from a generator keyed with the full statement, every secret and fresh system entropy, so no two proofs for different statements or witnesses share masks even if system entropy repeats, and two proofs of one statement do not share masks while entropy does not repeat. "
 "Likewise issuance and presentation draw fresh randomness from the caller's source on every call.",
 ["histories", "fault_sequences"], "all pairs of proof creations over a small field with repeating and non-repeating entropy, all five proof systems; histories of issuances and presentations",
 "Nonce reuse leaves every proof valid; a test would have to make the system's entropy repeat.",
 [A+"proofs.rs", A+"issuer.rs", A+"user.rs"], [("commit_witness_bytes / reseed_from_rng in Proof::create", A+"proofs.rs"), ("fork_transcript().reseed_from_rng", A+"issuer.rs")], ["inputs of the proof's generator; proof bytes"])

prop("C24", "Runs of the protocol do not influence each other",
 "However the steps of several runs with one or more issuers are interleaved, each run ends exactly as it would alone: honest runs succeed with their own credential, presentation and roster entry, faulty ones fail where they are faulty, and no step changes an object of another run. "
 "An issuer's answers depend on its key and the request only, never on the requests answered before, and answering never changes the issuer.",
 ["schedules", "histories"], "every interleaving of two runs of five steps (2 issuers, 2 numbers, 7 faults) and of three runs of three moves; every history of 4 requests out of 11 to one issuer",
 "The tests make one run from start to end; none interleaves two or asks an issuer twice.",
 [A+"issuer.rs", A+"user.rs", S+"issuer.rs", S+"user.rs"], [("Issuer::issue / verify", A+"issuer.rs"), ("SignalIssuer::verify_roster_membership", S+"issuer.rs"), ("User::obtain_finish / show", A+"user.rs")], ["results of every step, bytes of every object after every step"])

prop("C25", "No operation crashes or half-succeeds, whatever was decoded",
 "Every operation of the library, on any arguments that can be decoded or built (identity and opposite points, zero scalars, keys and requests for another number of attributes, objects of different systems mixed), returns a result or an error and never panics. "
 "It succeeds exactly when its documentation says so, leaves its operands unchanged, and what it returns on success decodes and encodes to the same bytes; a refused credential leaves the user unchanged.",
 ["inputs"], "every operation on the product of argument menus: honest objects of two systems and everything differing from them in one (thorough: two) points or scalars, keys and requests for 0 to 4 attributes, phone numbers of 0 to 300 digits",
 "Tests pass well-formed arguments of one system and one attribute.",
 [A+"issuer.rs", A+"user.rs", A+"amacs.rs", A+"pedersen.rs", A+"elgamal.rs", S+"issuer.rs", S+"user.rs", S+"phone_number.rs"],
 [("Issuer::issue / verify", A+"issuer.rs"), ("User::obtain_finish / show", A+"user.rs"), ("SecretKey::mac / verify", A+"amacs.rs"), ("SignalIssuer", S+"issuer.rs"), ("SignalUser", S+"user.rs"), ("RosterEntryCommitment", S+"phone_number.rs")], ["results, operands after every call"])

prop("C26", "Operators and conversions agree with the group",
 "Every operator form (by value, by reference, in place) of commitments, encryptions, nonces and tags computes the same group operation: commitments and encryptions add and multiply element by element, a re-randomisation multiplies both halves of a tag by one factor, and conversions between the wrappers and plain points or scalars lose and change nothing.",
 ["inputs"], "every scalar and point in small groups, every operator form on both sides; replayed on the real curve",
 "Most operator forms are in no test at all, and a wrong one shows only where its caller is.",
 [A+"pedersen.rs", A+"elgamal.rs", A+"nonces.rs", A+"amacs.rs", S+"phone_number.rs"],
 [("impl Mul / SubAssign for Commitment", A+"pedersen.rs"), ("impl Add / From for Encryption and keys", A+"elgamal.rs"), ("impl From / Index for Ephemeral, Nonces", A+"nonces.rs"), ("Rerandomization::apply_to_tag and Mul", A+"amacs.rs"), ("impl From / Index for PhoneNumber and commitments", S+"phone_number.rs")], ["results of the operators and conversions"])

prop("C27", "The published C header describes the C library",
 "A C program that includes the published header (credential.h, as shipped with the ffi crate and with the Swift wrapper) and nothing else compiles and links, in any number of source files and however often each includes it. Calls made through its declarations, each argument given where the header names it, do what the library does, results are where its buf_t says, "
 "and every length constant is the size of what the library makes and takes.",
 ["inputs", "call_sequences"], "every assignment of the 12 protocol steps to C (through the header) and Rust; every mix of two worlds' arguments for every function; the argument fault menus; every constant",
 "No test includes the header at all; declarations that disagree with the library still link.",
 ["ffi/src/include/credential.h", "swift/Credential/credential.h", "ffi/src/c.rs"], [("declarations and LENGTH_ constants", "ffi/src/include/credential.h"), ("buf_t and extern fns", "ffi/src/c.rs")], ["results of the calls, lengths"])

prop("C28", "Different strings are different messages",
 "A string used as a message of the algebraic MAC becomes one scalar that depends on the whole string, whatever its length: the same string always gives the same message, two different strings never do, and so a tag made for one string is accepted for that string and for no other.",
 ["inputs"], "all strings of two characters below 256, every single character, all two-letter strings up to length 14, every length to 330 with every place changed, long strings, all pairs of a menu of tagged strings",
 "No test makes a message from a string; a conversion that ignores case, an end, or what follows a NUL or a block agrees with any few examples.",
 [A+"amacs.rs"], [("impl From<String> for Message", A+"amacs.rs"), ("SecretKey::mac / verify", A+"amacs.rs")], ["Message scalars, results of verify"])

prop("C29", "Objects are equal exactly when their contents are",
 "Two objects of a type that can be compared are equal exactly when all their parts are, and so exactly when their encodings are: a roster entry, phone number, credential, presentation, proof, key or user equals itself, its clone and what its own encoding decodes to, and nothing that differs in any scalar, point or optional part, on either side of the comparison.",
 ["inputs"], "every pair of honest objects, and of an honest object and one differing from it in any single bit of a scalar, in one point, or in the order of two parts; every pair of objects put together from small menus of parts, lists of different lengths included; all 26 comparable types",
 "Tests compare an object with its own decoding only, which an equality that is always true passes.",
 [A+"amacs.rs", A+"credential.rs", A+"elgamal.rs", A+"parameters.rs", A+"pedersen.rs", A+"proofs.rs", A+"user.rs", S+"credential.rs", S+"phone_number.rs", S+"user.rs"],
 [("PartialEq of every type", A+"credential.rs"), ("CommittedPhoneNumber, PhoneNumber", S+"phone_number.rs")], ["== and !="])

prop("C30", "The JavaScript module hands everything over intact and keeps nothing",
 "A call of any of the nine functions of the shipped JavaScript module (credential.js) reaches the compiled function of that name with every value and byte array in its place and unchanged, and its result or its exception reaches the caller unchanged. A value held by the compiled code keeps its handle to itself until it is released, also across calls; "
 "a released handle is used again; and every buffer that is allocated for a call is freed exactly once, with its own length, however the call ends and even where memory grows meanwhile. The TypeScript declarations name exactly these functions with these parameters.",
 ["inputs", "call_sequences", "faults"], "every function with every kind of value and byte array in every place; memory growing at every subset of allocations; every sequence of operations of the compiled code up to 3 (4) in a call, over 2 (3) calls sharing what is held; the whole protocol and every mix-up in front of js.rs",
 "No test loads the module; a handle given out twice, a stale view of grown memory or a buffer left behind shows only after several values or an exception.",
 ["wasm/src/credential.js", "wasm/src/credential.d.ts", "wasm/src/js.rs"], [("getUint8Memory, passArray8ToWasm, addHeapObject, dropRef, the exports", "wasm/src/credential.js"), ("declarations", "wasm/src/credential.d.ts")], ["what the compiled function is called with, the caller's result or exception, handles and buffers alive"])

prop("C31", "What is drawn at random is drawn from the whole range",
 "Every key, nonce, opening, tag, key commitment and presentation the library draws depends on the random source given with the full entropy of a scalar: at least 252 bits of what the source returns each change it to a value of its own, no bit of a drawn scalar is fixed, no two scalars drawn together have a fixed difference, and the same bytes from the source give the same value (proofs aside, which also use the system's entropy).",
 ["random draws"], "all 14 functions that draw, some in several sizes, on 4 (40) tapes of random bytes and on every tape that differs from one of these in any one bit that is used",
 "Tests draw once and check that what was drawn works; a nonce of 64 or 128 bits, or one byte of a key that is always zero, works as well.",
 [A+"amacs.rs", A+"nonces.rs", A+"elgamal.rs", A+"issuer.rs", A+"user.rs", S+"phone_number.rs", S+"user.rs"],
 [("SecretKey::new, mac, Rerandomization::new", A+"amacs.rs"), ("Ephemeral::new, Nonces::new", A+"nonces.rs"), ("SecretKey::generate", A+"elgamal.rs"), ("Issuer::issue", A+"issuer.rs"), ("User::show", A+"user.rs"), ("RosterEntryCommitment::create", S+"phone_number.rs")], ["scalars and points drawn"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python so that statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": observe, "hook_needed": None}})

M="src/core/matter/mod.rs"; MT="src/core/matter/tables.rs"; I="src/core/indexer/mod.rs"; IT="src/core/indexer/tables.rs"
C="src/core/counter/mod.rs"; CT="src/core/counter/tables.rs"; U="src/core/util.rs"

p("C01","Primitive text and binary forms round-trip without loss",
 "For every code in the CESR matter code table and every raw value of that code's length (any length, for the variable-length codes), the primitive built from them serialises to text and to binary; both forms parse back to the same code, size and raw bytes; the binary form is exactly the Base64URL decoding of the text form; and the text length equals the declared full size (a multiple of four). Raw material shorter than the code requires is refused and never padded, and variable-length material is given the code of its own lead size, promoted to the large table exactly when it no longer fits the small one.",
 ["inputs"],"all 49 matter codes x all raw byte strings of admissible length x all three serialisation and parsing routes",
 "Unit tests encode a handful of codes with one raw value each; a wrong table entry, pad computation or lead handling for an untested code or length is invisible to them.",
 [M,MT,U],[("size table",MT+" sizage"),("infil/binfil/exfil/bexfil",M),("Base64 integer helpers",U)],
 ["Matter::new_with_*","Matter::qb64/qb64b/qb2/raw/code/size/full_size"])
p("C02","Only canonical encodings of known codes parse",
 "Whatever text or bytes are offered, a primitive is parsed only when the leading full-size portion is the canonical encoding of the value returned, i.e. serialising the parsed value gives back exactly the consumed characters or bytes, and anything after that portion has no influence. Unknown or reserved codes, short material, characters outside the Base64URL alphabet (padding included), non-zero pad bits and non-zero lead bytes are refused, and the text, UTF-8-bytes (for input that is UTF-8) and binary routes agree on which values exist.",
 ["inputs"],"all strings / byte strings: canonical encodings of every code, every truncation and extension, every single-character mutation, arbitrary text",
 "Tests try a few invalid inputs; the claim is about all inputs that are not canonical, and a parser that accepts a second spelling of the same signature or digest passes every existing test.",
 [M,MT,U],[("pad and lead checks",M+" exfil, bexfil"),("hardage/bardage/sizage",MT)],
 ["Matter::new_with_qb64/qb64b/qb2"])
p("C03","Primitives are self-framing and compose across text and binary",
 "A concatenation of any primitives, indexed signatures and counters, in text or in binary, can be taken apart again from the front using only what each parsed item reports about itself (its kind, known to the caller or told by its first character, then its full size), giving back the same items in order with nothing left over. Converting a whole stream between text and binary is the same as converting its items one by one.",
 ["inputs","histories"],"all finite sequences of encodable items, all interleavings of append, convert and pop, both domains",
 "Tests parse one primitive at a time from a buffer of exactly its size; composability is a property of sequences and of the size each parsed item reports.",
 [M,I,C,MT,IT,CT],[("full_size",M),("full_size",I),("full_size",C)],
 ["Matter/Indexer/Counter parsing and full_size on buffers with trailing material"],
 [("buffer","remaining stream in text or binary domain","caller"),("items","sequence of primitives encoded so far","caller")])
p("C04","Untrusted input yields an error, never a panic",
 "Every public operation that takes untrusted material (text, binary, UTF-8 bytes, JSON, version strings, thresholds, paths, timestamps, numbers, codes, indices) returns either a value or an error for every input. No input makes the library panic, overflow, slice out of range or abort, and neither do the accessors and serialisers of any value it did return. (How many keys to derive and how long a seed to stretch are the caller's own choice, not untrusted material; indexing a JSON value by an absent label is outside too.)",
 ["inputs"],"all byte strings and JSON documents handed to any public constructor or function, and every accessor of every value so obtained",
 "The tests hand over well-formed values plus a few expected errors; panics sit on boundary and malformed inputs (multi-byte characters at a slice boundary, truncated material, absent labels, zero sizes, integer limits).",
 ["src/core","src/data.rs"],[("Result-returning constructors","src/core/*"),("length checks before slicing",M)],
 ["every public constructor and accessor"])
p("C05","Indexed signature codes, indices and forms round-trip within range",
 "For every code of a real indexed signature, index and other-index within the range its code allows, the indexed signature serialises to text and binary of the table's size and parses back to the same code, raw, index and other-index; the binary form is the Base64URL decoding of the text. Out-of-range or inconsistent indices (an other-index on a current-only code, differing indices where the code holds one index) are refused, and non-canonical or truncated material does not parse.",
 ["inputs"],"all 16 indexed-signature codes x all index/ondex pairs at and around every limit x raw values x all routes; all mutations of the encodings",
 "Tests use a few indices on a few codes; limits (63/64, 4095/4096, 262143) and the pairing rules per code are only sampled.",
 [I,IT,"src/core/siger.rs"],[("sizage table",IT),("index range and pairing checks",I)],
 ["Indexer::new_with_*","Siger::new_with_*","qb64/qb2/index/ondex/raw/full_size"])
p("C06","Counters and semantic versions encode exactly",
 "For every counter code and every count within its soft size, text and binary forms have the table's size, agree with each other and parse back to the same code and count; larger counts, unknown codes and truncated or non-alphabet material are refused. Version triples with parts 0 to 63 map to exactly three characters, one per part, missing parts count as zero and anything else is refused.",
 ["inputs"],"all 15 counter codes x all counts at and around every limit (63/64, 4095/4096, 64^3, 64^5) x routes; all mutations; all version triples and malformed version strings",
 "Tests check a few counts per code; digit truncation and range errors appear only at specific counts.",
 [C,CT,U],[("sizage/hardage/bardage",CT),("u32_to_b64",U)],
 ["Counter::new*","Counter::qb64/qb2/code/count/count_as_b64/full_size","Counter::sem_ver_*"])
p("C07","Typed primitives refuse material of another kind on every route",
 "A typed primitive (verification key, signing seed, digest, self-addressing identifier, signature, indexed signature, salt, sequence number, number, date-time, text, path, identifier prefix) can only come into existence with a code of its own kind. This holds identically for construction from raw, from text, from UTF-8 bytes and from binary, whatever else was passed alongside.",
 ["inputs","configurations"],"every typed primitive x every matter/indexer code x every construction route",
 "Tests exercise one or two wrong codes on one route for some types; the guarantee is over the full product.",
 ["src/core/verfer.rs","src/core/signer.rs","src/core/diger.rs","src/core/saider.rs","src/core/cigar.rs","src/core/siger.rs","src/core/salter.rs","src/core/seqner.rs","src/core/number.rs","src/core/dater.rs","src/core/bexter.rs","src/core/pather.rs","src/core/prefixer.rs"],
 [("per-type validate_code","src/core/*.rs")],["X::new_with_raw/qb64/qb64b/qb2 for every type X"])
p("C08","Digests are the named algorithm's and verify only the digested bytes",
 "A digest made for a code is the digest of exactly the given bytes under the algorithm and length that code names, for all nine digest codes. Verification accepts a message if and only if it is the digested one; comparing two digests accepts when they are identical or both digest the given message (even under different algorithms), and otherwise refuses.",
 ["inputs"],"all nine digest codes x messages of all lengths (block boundaries included) x all pairs for comparison",
 "Tests digest one short message per algorithm; swapped algorithms, truncation at block boundaries or a permissive compare are not observable on it.",
 ["src/core/diger.rs","src/crypto/hash.rs"],[("hash::digest dispatch","src/crypto/hash.rs"),("verify/compare","src/core/diger.rs")],
 ["Diger::new_with_ser/verify/compare"])
p("C09","Signatures verify exactly for the signed message, key and suite",
 "For each supported suite (Ed25519, secp256k1, secp256r1) and every seed, the public key is the suite's public key of that seed, labelled transferable or non-transferable as requested; a signature over a message verifies under that key for that message, and under no other key, suite or message and with no altered signature (the mirrored ECDSA signature, which the secp256r1 standard admits, excepted). Signatures are standard for the suite over exactly the message bytes, so an independent verifier accepts them.",
 ["inputs"],"three suites x seeds x messages (empty to several KB) x alterations of each of key, message, signature",
 "Tests sign and verify one message per suite; they do not cross keys, suites and alterations, nor compare with an independent verifier.",
 ["src/core/signer.rs","src/core/verfer.rs","src/core/cigar.rs","src/crypto/sign.rs"],
 [("code dispatch","src/crypto/sign.rs"),("Signer::derive_verfer","src/core/signer.rs")],
 ["Signer::new*/sign_unindexed/verfer","Verfer::verify"])
p("C10","Indexed signing picks the code that carries the requested indices",
 "Signing for a position yields an indexed signature whose code belongs to the signer's suite and states the request exactly: current-list-only codes when asked for, codes for both lists otherwise; the other-index defaults to the index; the small code exactly when both indices are equal and fit one character; the big code otherwise. Requested indices survive serialisation, unrepresentable ones are refused, and the signature verifies under the signer's key.",
 ["inputs"],"three suites x only-flag x all index/ondex combinations at and around every limit",
 "Tests sample a few indices; the selection is a decision table over four inputs with boundaries at 63/64 and 4095/4096.",
 ["src/core/signer.rs",I],[("Signer::sign_indexed","src/core/signer.rs")],["Signer::sign_indexed","Siger accessors and qb64"])
p("C11","Signing thresholds are satisfied exactly when enough weight signed",
 "A numeric threshold N is satisfied exactly when at least N (and N>0) distinct positions signed; a weighted threshold exactly when in every clause the exact rational sum of the weights of the distinct signed positions reaches one, clauses covering consecutive position ranges. Repeating an index never helps, adding signers never turns satisfied into unsatisfied, and positions outside the list never satisfy anything.",
 ["inputs","histories"],"all numeric thresholds and weighted clause lists x all index multisets, including repeats, out-of-range indices and sums that are off from one by the smallest amount",
 "Tests check a few index lists on a few thresholds; multiplicity, clause boundaries, rational exactness and out-of-range indices are not covered.",
 ["src/core/tholder.rs"],[("satisfy_numeric/satisfy_weighted","src/core/tholder.rs")],["Tholder::satisfy"],
 [("signed","set of positions collected so far","caller")])
p("C12","Threshold forms are equivalent and ill-formed thresholds refused",
 "A threshold given as integer or hex, as JSON text, as nested lists of weights, or as its encoded number or weight-expression primitive denotes the same threshold: every form it re-exports reconstructs a threshold of the same size, kind, clauses and satisfaction. Weights outside [0,1], clauses that cannot reach one, malformed fractions, negative or non-integer numbers and other shapes are refused in every form.",
 ["inputs"],"all well-formed numeric and weighted thresholds in all input forms; mutations of the forms",
 "Tests check some example expressions; the equivalence of forms and the refusal of ill-formed ones is over all expressions.",
 ["src/core/tholder.rs","src/core/number.rs","src/core/bexter.rs"],[("process_*","src/core/tholder.rs")],
 ["Tholder::new_with_*","thold/sith/limen/num/size/weighted/to_json"])
p("C13","A self-addressing identifier binds exactly its document",
 "Computing the identifier of a document and writing it into the identifier field (for any digest code, label and document) yields a document that verifies; the identifier is the digest of the document's JSON with that field blanked to the identifier's length and its version string stating its true size. Any other change to any field, to field order, to the identifier itself or to its code makes verification fail, and documents without that field or not objects are refused.",
 ["inputs","histories"],"documents (nested objects, arrays, all scalar kinds, any field order) x nine digest codes x labels x ignore lists x single edits",
 "Tests saidify fixed documents; binding is over all documents and all single edits.",
 ["src/core/saider.rs","src/core/common.rs","src/data.rs"],[("Saider::derive/verify","src/core/saider.rs"),("sizeify","src/core/common.rs")],
 ["Saider::saidify/new/verify"],[("sad","document being edited","caller")])
p("C14","Version strings and framed events state the true size",
 "A version string encodes protocol, version, serialisation kind and size reversibly, and malformed or unsupported ones are refused. Serialising an event or credential writes a version string whose size equals the exact byte length of the serialisation; reading one from a longer buffer consumes exactly that many bytes and yields the same content, while short, mislabelled or wrongly sized material is refused. An event or credential refilled from its edited content, other content or a buffer is as if made from that.",
 ["inputs"],"all identifiers, versions, sizes up to the field limit; events with any content; buffers with any trailing or truncated bytes",
 "Tests use fixed events of one size; framing concerns every size, especially where adding characters changes the size field, multi-byte text and trailing bytes.",
 ["src/core/common.rs","src/core/sadder.rs","src/core/serder.rs","src/core/creder.rs"],
 [("versify/deversify/sniff/sizeify","src/core/common.rs"),("Sadder::inhale/exhale","src/core/sadder.rs")],
 ["common::*","Serder::new*, Creder::new*, raw/ked/size/ident/version"])
p("C15","JSON values survive parsing, editing and printing",
 "Every JSON value within the supported range (64-bit signed integers, doubles, nesting up to the parser's limit) keeps its content through the library's own value type: parse then print gives compact JSON denoting the same value with object fields in their original order, printing then parsing is the identity, and inserting, replacing, removing and indexing an existing label or position behave as on an insertion-ordered map. Printed text is valid JSON for every string content.",
 ["inputs","histories"],"all JSON values (nesting, unicode, control characters, numbers, booleans, null) and all edit sequences on them",
 "Tests print a few literals; escaping, order after edits, and numeric fidelity need arbitrary values and edit histories.",
 ["src/data.rs"],[("Value conversions and to_json","src/data.rs")],["Value::from, to_json, Index, insert, remove"],
 [("doc","the value under edit","caller")])
p("C16","An identifier prefix is bound to its inception event",
 "Deriving a prefix from an inception event gives, for a basic code, exactly its single signing key, and for a self-addressing code the digest of the event with prefix (and identifier) blanked; the derived prefix verifies against that event; a self-addressing prefix verifies against no event differing in any other field (prefix and identifier themselves and the stated size aside), and a basic prefix only against events whose one key it is. Events ineligible for the code (not an inception, wrong number or kind of keys, next keys or witnesses or anchors on a non-transferable identifier, mismatched prefix when prefixed) are refused.",
 ["inputs"],"all inception and delegated-inception events over small field domains x codes x single edits",
 "Tests use one event per code; eligibility is a decision over several fields and binding is over all edits.",
 ["src/core/prefixer.rs"],[("derive_*/verify_*","src/core/prefixer.rs")],["Prefixer::new/new_with_ked/verify"])
p("C17","Paths address the part of a document they name",
 "A path built from components (non-empty Base64URL text without the separator), from its text, or from its encoded form is the same path; resolving it in a document reaches exactly the element obtained by following its components (labels, or positions within arrays and field order), and a path naming nothing is refused. Prefixing a root, or stripping leading components gives paths whose composition resolves to the same element, and the tail of a path in a credential is the text of the section (or the identifier) it reaches.",
 ["inputs"],"all documents x all paths (valid, dangling, out of range) x all component forms",
 "Tests resolve about ten paths in one document; mixed positional and label components and failure cases are over all pairs.",
 ["src/core/pather.rs"],[("resolve/tail/strip/root","src/core/pather.rs")],["Pather::new*, path/bext/resolve/tail/strip/starts_with"])
p("C18","Numbers and sequence numbers keep their value",
 "Every unsigned value up to 128 bits is carried by the smallest number code that fits it and comes back unchanged from decimal, hex, raw, text, UTF-8 bytes and binary; values that do not fit are refused. Sequence numbers always use the fixed 24-character form and return the same value from every route.",
 ["inputs"],"all values at and around every code limit x all routes x requested codes",
 "Tests try a few values; wrong byte order, truncation or promotion shows only around specific limits.",
 ["src/core/number.rs","src/core/seqner.rs"],[("Number::new","src/core/number.rs"),("Seqner::new","src/core/seqner.rs")],
 ["Number::*/num/numh/positive/inceptive","Seqner::*/sn/snh"])
p("C19","Date-times keep the instant's text",
 "Every 32-character ISO-8601 timestamp with microseconds and numeric offset is encoded to the date-time primitive and comes back character for character from text, bytes and binary, and different timestamps have different encodings. Text that is not a valid timestamp of that form is refused.",
 ["inputs"],"all well-formed timestamps (fields, offsets, signs) and mutations",
 "Tests use two timestamps; the character translation must be a bijection on all of them.",
 ["src/core/dater.rs"],[("iso_8601_to_b64","src/core/dater.rs")],["Dater::new*, dts/dtsb/qb64/qb2"])
p("C20","Base64 text primitives return the text they were given",
 "Any Base64URL text that does not begin with 'A' is packed into a text primitive whose size class follows from its length and is returned character for character from every serialised form. Text with any other character is refused.",
 ["inputs"],"all Base64URL strings of every length residue and every first character, up to and beyond the small-size limit",
 "Tests cover lengths 1 to 4; the lead and pad arithmetic depends on length modulo 4 and on size limits.",
 ["src/core/bexter.rs",M],[("bext/rawify","src/core/bexter.rs")],["Bexter::new*, bext"])
p("C21","Key derivation from a salt is deterministic and path-separated",
 "The seed stretched from a salt depends only on salt, path, tier and temporary flag and on nothing done earlier; it is Argon2id with the tier's published costs. A request for several signers yields one per position, equal to the single signers at path plus position, so overlapping windows agree, distinct paths give distinct keys, and transferability and suite are as requested.",
 ["inputs","histories"],"salts x paths x tiers x window start/count x codes, in any order of calls",
 "Tests derive two fixed signers; determinism across call orders and windows is a property of histories.",
 ["src/core/salter.rs","src/crypto/salt.rs"],[("Salter::stretch/signer/signers","src/core/salter.rs")],["Salter::*"],
 [("memo","signers already derived, by (salt,path,tier)","caller")])
p("C22","Event accessors report what the event says",
 "Every accessor of a key event or credential (keys, next digests, witnesses, thresholds, sequence number, first-seen number, identifier, whether it is an establishment event; issuer, subject, schema, status, chain) returns exactly the value of the corresponding field of the event; when the field is missing, accessors of lists and of optional values say so (empty, none) and the others fail, and malformed fields are never reported as something else. Keys and digests returned are the parsed forms of the listed texts, in order.",
 ["inputs"],"all event types x presence, absence and malformation of each field",
 "Tests read well-formed events only.",
 ["src/core/serder.rs","src/core/creder.rs","src/core/sadder.rs"],[("accessors","src/core/serder.rs"),("accessors","src/core/creder.rs")],
 ["Serder::*, Creder::*"])
p("C23","A key event log built on the library admits only authorised events",
 "A validator that uses only the library's checks (prefix, identifier, prior link, sequence number, thresholds, signatures, pre-rotation digests) accepts an event exactly when it is the inception of its prefix or continues the log by one (same prefix, next number, the last event's identifier, something still committed to), signatures that verify over that exact event reach the threshold of the keys then in force, and, for a rotation, signatures by keys among the new ones that open the prior commitment reach the prior commitment's threshold. Positions are counted, each once. No history of tampered, forged, replayed, reordered, under-signed, duplicate-signed or wrongly rotated events is accepted, a refused event changes nothing, and reading the accepted messages again as one stream gives the same key state.",
 ["histories","inputs"],"all histories of inception, interaction and rotation events with honest and adversarial variants, over small key sets and thresholds",
 "No test runs a log; the guarantee is over histories and over combinations of primitives.",
 ["src/core/serder.rs","src/core/prefixer.rs","src/core/saider.rs","src/core/tholder.rs","src/core/verfer.rs","src/core/siger.rs","src/core/diger.rs"],
 [("composition of verification primitives","src/core")],["Serder, Prefixer, Saider, Tholder, Siger, Verfer, Diger in one validator"],
 [("kel","accepted events","caller"),("keystate","keys, next digests, thresholds, sn, last identifier","caller")])
p("C24","WebAssembly bindings return what the core library returns",
 "Every binding constructor, accessor and method gives the same result as the core call it stands for with the same arguments, including optional arguments left out, 128-bit numbers and JSON values crossing the boundary (arguments and results that are JavaScript arrays aside). A binding never swaps, drops or truncates an argument or result.",
 ["inputs"],"all bound types x routes x argument combinations x boundary numbers",
 "The bindings have no tests at all.",
 ["wasm/src/primitives","wasm/src/util.rs"],[("wrapper delegation","wasm/src/primitives/*.rs"),("U128 and Value wrappers","wasm/src/util.rs")],
 ["cesride-wasm exported types, executed natively"])
p("C25","A result depends on the arguments alone",
 "Every operation that makes no use of fresh randomness gives, for the same arguments, the same result: whatever was called before it in the same process, in whatever order, with whatever similar arguments, how often, and whatever is being called alongside it on other threads. Values that are not shared between threads by the caller never influence one another, and an operation that failed or refused its arguments leaves nothing behind.",
 ["inputs","histories","schedules"],"all rounds of like calls, differing in one or several arguments, in every order, repeated and made by several threads at once",
 "A test makes each call once, in a fresh state and mostly by itself; a cache, scratch buffer or static shared by two calls shows only for particular neighbours, orders or interleavings.",
 ["src/core","src/crypto","src/data.rs"],[("pure constructors, accessors and verifications","src/core"),("hash and signature dispatch","src/crypto")],
 ["every public constructor, accessor, verification and derivation"])
p("C26","What is drawn afresh is never drawn again",
 "A signing key made without a seed and a salter made without a salt are different from every other ever made: in whatever order, number and mixture they are made, by one thread or several at once, by this process or another. All of their bits vary, no part of one occurs in another, and none is made of less randomness than its length. Two signatures by any keys have the part that depends on the per-signature secret in common only when key, message and signature are the same, so no key can be computed from signatures.",
 ["histories","schedules"],"all sequences of draws and signings of every suite by threads and processes",
 "A test draws once or twice; a pool that starts over, a generator seeded alike in every thread or process, or a nonce used twice shows only over many draws or over pairs of signatures.",
 ["src/crypto/csprng.rs","src/crypto/sign.rs","src/core/signer.rs","src/core/salter.rs"],[("fill_bytes","src/crypto/csprng.rs"),("generate/sign","src/crypto/sign.rs")],
 ["Signer::new_with_defaults, Salter::new_with_defaults, sign_unindexed, sign_indexed"],
 [("drawn","everything drawn and every signature made","caller")])
p("C27","Witnessed and delegated events are admitted only with their backing",
 "A validator that follows several identifiers and uses only the library's checks admits an event that its own keys authorise exactly when, besides, enough different witnesses of the list then in force (the inception's list, less those a rotation lets go, plus those it takes on) have signed that very event, whether the receipt travels as a signature with the witness's position or as the witness's key with a signature, and, for a delegated inception or rotation, when an event already in the delegator's log, pointed at by number and identifier, carries the seal of that very event. Lists that name a witness twice, let go a stranger, take on a member or ask for more than there are, are refused. Receipts and seals mean the same in whatever order they travel, one witness counts once, and the accepted messages read again as one stream give the same states.",
 ["histories","inputs"],"all histories of witnessed and delegated identifiers followed by one validator, with receipts and seals complete, missing, repeated, misplaced, over another event or damaged",
 "No test combines events with receipts, witness lists over rotations, or seals in another log; the guarantee is over histories of several identifiers.",
 ["src/core/serder.rs","src/core/siger.rs","src/core/cigar.rs","src/core/counter/mod.rs","src/core/seqner.rs","src/core/saider.rs","src/core/number.rs","src/core/verfer.rs"],
 [("witness verifiers, receipts, seal source couples","src/core")],["Serder.werfers, Siger, Cigar, Seqner, Saider, Counter, Number in one validator"],
 [("logs","accepted events of each identifier","caller"),("wits","witnesses in force and how many must sign","caller")])
p("C28","Credentials are accepted only as issued, signed and standing",
 "A validator of credentials that uses only the library's checks accepts a presented credential exactly when its identifier and those of its subject and edge sections are the digests of what they identify, its schema is one the validator holds, its registry belongs to its issuer and says it was issued and not revoked, every credential it rests on was accepted, stands, has the schema stated and was issued to this issuer (if to anyone), and one group of signatures over the whole or over its identifier, named by root and path, by the keys the issuer's inception lists, reaches the issuer's threshold. Registry events count only in order and signed by the registry's owner; what was revoked never stands again, nor does anything resting on it. Subject sections shown later for their identifier are taken exactly when they are what it identifies, and the accepted messages read again as one stream give the same conclusions.",
 ["histories","inputs"],"all histories of several issuers and registries: credentials issued, presented with signatures over any parts, chained, disclosed and revoked, honestly or with one thing wrong or damaged",
 "No test issues, signs and verifies a credential, follows a path to the signed part, or chains two; the guarantee is over histories of several parties.",
 ["src/core/creder.rs","src/core/pather.rs","src/core/saider.rs","src/core/serder.rs","src/core/prefixer.rs","src/core/siger.rs","src/core/counter/mod.rs","src/core/tholder.rs"],
 [("credential accessors, identifier sections, paths, path signature groups","src/core")],["Creder, Pather, Saider, Prefixer, Seqner, Siger, Counter, Tholder in one validator"],
 [("registries","status of each credential","caller"),("accepted","credentials and what they rest on","caller")])
p("C29","Material still arriving is told from material that is wrong",
 "Given a buffer that holds only the beginning of a primitive, indexed signature or counter, cut anywhere, every parser of that kind or type, on every route (text, text as bytes, binary), fails with one of the errors that say that something is missing (EmptyMaterial, Shortage, TooSmall); given a buffer that holds as much as its code and soft part state, or no known code, it never fails with one of these, whatever else is wrong and whatever follows. So a reader that waits on these errors, takes what parses and gives up on any other error reads a stream of items delivered in pieces of any sizes exactly as if it had come at once: each item as soon as it is complete, nothing given up that could still become an item, and nothing waited for that no further delivery can complete.",
 ["inputs","schedules"],"all material of every kind, whole, cut or damaged, and all ways to cut a stream of it into deliveries",
 "Tests look at single cut texts and only ask whether there is an error; which error, at every cut of every code on every route, and what a reader makes of all schedules of deliveries, is not sampled by any.",
 ["src/core/matter/mod.rs","src/core/indexer/mod.rs","src/core/counter/mod.rs","src/core/util.rs","src/error.rs","src/core/diger.rs"],
 [("exfil, bexfil and their size checks","src/core/matter/mod.rs, src/core/indexer/mod.rs, src/core/counter/mod.rs"),("nab_sextets","src/core/util.rs"),("typed constructors pass the parser's error on","src/core")],
 ["new_with_qb64, new_with_qb64b, new_with_qb2 of Matter, Indexer, Counter and every typed primitive"],
 [("buffer","what was delivered and not yet taken","caller")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

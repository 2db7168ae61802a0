#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


U, CH, B = "ucan/src/ucan.rs", "ucan/src/chain.rs", "ucan/src/builder.rs"
SEM, CAV, DAT, PRF = ("ucan/src/capability/semantics.rs", "ucan/src/capability/caveats.rs",
                      "ucan/src/capability/data.rs", "ucan/src/capability/proof.rs")
DID, KEY, STO, SER = "ucan/src/crypto/did.rs", "ucan/src/crypto/key.rs", "ucan/src/store.rs", "ucan/src/serde.rs"
IPR, ISG, IUC = "ucan/src/ipld/principle.rs", "ucan/src/ipld/signature.rs", "ucan/src/ipld/ucan.rs"
KS = ["ucan-key-support/src/ed25519.rs", "ucan-key-support/src/p256.rs", "ucan-key-support/src/rsa.rs"]

p("C01", "Validation succeeds only with the issuer's own signature",
  "Validating a token, or only checking its signature, succeeds only if the key that the caller's DID parser resolves from that token's own issuer DID accepted that token's own signature over exactly that token's signed bytes. If the DID cannot be resolved or the key rejects the signature, the call returns an error; if the key accepts it, checking the signature succeeds.",
  ["inputs", "programs"], "every token, every set of registered key types, every outcome of DID resolution and of signature verification",
  "Tests validate a handful of genuine tokens; none feeds a token whose signature, issuer or signed bytes disagree, so a path that skips or weakens the check is not reached.",
  [U], [("signature check is the only way to a successful validation", U + ": validate / check_signature")],
  observe=["result of Ucan::validate", "result of Ucan::check_signature"])
p("C02", "A token validates only inside its time bounds",
  "A token is accepted at time t only if its not-before time is absent or at most t and its expiry is absent or at least t. The time is the one the caller supplied, for both bounds, and the wall clock only when the caller supplied none. Inside its bounds a token is refused only for its signature.",
  ["inputs", "schedules"], "every combination of present/absent and earlier/equal/later bounds, supplied and unsupplied time",
  "Tests use three fixed offsets around the real clock; boundaries, absent bounds and a supplied time against not-before are not sampled.",
  [U, "ucan/src/time.rs"], [("expiry and not-before comparisons", U + ": is_expired / is_too_early / validate")],
  observe=["Ucan::validate", "Ucan::is_expired", "Ucan::is_too_early"])
p("C03", "Parsing takes each token part from its own segment",
  "A token string is accepted only if it has exactly three dot-separated segments, of which the first and second are unpadded base64url DAG-JSON for the header and payload and the third is the unpadded base64url signature, each segment holding one JSON document and nothing after it; every text of that form is accepted. The parsed token's header, payload and signature come from those segments respectively, its signed bytes are exactly the text up to the second dot, and every failure to decode is an error.",
  ["inputs"], "every string",
  "Tests only parse strings the library itself has just produced.",
  [U, SER], [("segment splitting and decoding", U + ": from_str"), ("DAG-JSON decoding", SER)],
  observe=["Ucan::from_str / TryFrom", "accessors of the parsed token"])
p("C04", "Encoding and CIDs reproduce exactly what was signed",
  "Encoding a token yields its signed bytes verbatim, a dot, and its signature in unpadded base64url, so a re-encoded token still verifies whatever JSON spelling its author used. The CID of a token is version 1, uses the raw codec, and hashes exactly that encoding with the hash function the caller asked for. Encoding fails only if the signed bytes are not text, and the CID cannot be had only if encoding fails.",
  ["inputs"], "every token, however its JSON was spelled, and every hash function",
  "Tests round-trip only tokens built by this library, whose JSON happens to be canonical already.",
  [U], [("encode", U + ": encode"), ("CID computation", U + ": to_cid")], observe=["Ucan::encode", "Ucan::to_cid"])
p("C05", "Every token of an accepted proof chain has been validated",
  "A proof chain is produced for a token only if that token itself validated, using the time and the DID parser the caller passed, and only if the chain of each of its proofs was produced under that same time, DID parser and store. This holds whether the chain starts from a token, a token string or a CID.",
  ["inputs", "histories"], "every token graph of any depth, every entry point",
  "Tests build chains two or three deep whose members are all valid; no test places an invalid token deep in a chain.",
  [CH], [("validation before use and recursion", CH + ": from_ucan / from_cid / try_from_token_string")], observe=["ProofChain constructors"])
p("C06", "Chain links require audience = issuer and an enclosing lifetime",
  "In an accepted chain every proof's audience equals the issuer of the token citing it, and every proof's lifetime encompasses that token's: it starts no later and ends no earlier, where an absent bound is unbounded. The lifetime comparisons offered on tokens follow the same rule for every combination of present and absent bounds.",
  ["inputs"], "every pair of adjacent tokens; all orderings of their four optional bounds",
  "One test breaks a link by audience and one pair of lifetimes is compared; the truth table over absent bounds is not covered.",
  [CH, U], [("link validation", CH + ": validate_link_to"), ("lifetime comparison", U + ": lifetime_*")], observe=["ProofChain constructors", "Ucan::lifetime_encompasses"])
p("C07", "Every cited proof is resolved, in order, none skipped",
  "A chain's proofs are exactly the proofs the token cites, in the order cited: each citation is parsed as a CID, fetched from the caller's store under that CID and turned into a chain. A citation that cannot be parsed, fetched or chained makes the whole construction fail.",
  ["inputs", "fault_sequences"], "every list of citations, every store content and store failure",
  "Tests use stores that contain everything, with at most two citations.",
  [CH], [("proof loop", CH + ": from_ucan")], observe=["ProofChain::proofs"])
p("C08", "Redelegation covers exactly the proofs the token selects",
  "A proof is redelegated only through a claimed capability with ability ucan/DELEGATE on resource prf:<n>, which selects exactly the n-th cited proof, or prf:*, which selects all of them. Selecting a proof that is not cited makes chain construction fail, and no other capability redelegates anything.",
  ["inputs"], "every capability list and number of proofs",
  "Tests redelegate single proofs by index; prf:*, out-of-range indices and other abilities are never exercised.",
  [CH, PRF, SEM], [("redelegation selection", CH + ": from_ucan"), ("prf: resource semantics", PRF)], observe=["ProofChain::reduce_capabilities"])
p("C09", "A capability enables another only if all three parts allow it",
  "One capability enables another exactly when its resource contains the other's resource, its ability is at least the other's ability, and its caveat enables the other's caveat. If either caveat is not an object, it does not.",
  ["inputs"], "every pair of capabilities under every semantics",
  "Tests compare a few e-mail capabilities with equal or empty caveats.",
  [SEM], [("enables", SEM + ": CapabilityView::enables")], observe=["CapabilityView::enables"])
p("C10", "Resource containment never crosses kinds or DIDs",
  "A resource contains another only if both are plain, both are my:, or both are as: with the same DID. Within a kind, the wildcard contains everything, a scoped resource contains another scoped one exactly when its scope does, and a scoped resource never contains the wildcard. A proof selection contains itself, prf:* contains every proof selection, and nothing else does.",
  ["inputs"], "every pair of resources under every scope type",
  "Tests use plain and my: resources of one scope; as: and wildcard combinations are not compared.",
  [SEM, PRF], [("contains", SEM + ": Resource::contains / ResourceUri::contains"), ("proof selection scope", PRF)], observe=["Resource::contains", "ResourceUri::contains"])
p("C11", "A caveat enables only equal or more constrained caveats",
  "A caveat enables another exactly when it is empty, or every one of its fields is present in the other with an equal value. A caveat can only be made from a JSON object, and holds that object unchanged.",
  ["inputs"], "every pair of caveat objects",
  "The documentation example samples five one- or two-field caveats.",
  [CAV], [("caveat relation", CAV + ": Caveat::enables / TryFrom")], observe=["Caveat::enables", "Caveat::try_from"])
p("C12", "Reduction reports what the token grants, for its own lifetime",
  "Reducing a chain reports every capability the token claims that the semantics understands and every capability reported by a redelegated proof, and nothing else; one is left out only if another reported one enables it and has all of its originators. Capabilities the semantics does not understand are passed over without affecting the rest. Every reported capability carries the token's own not-before and expiry.",
  ["inputs", "histories"], "every chain, every semantics, every mix of understood and foreign capabilities",
  "Tests reduce small chains in which every capability is understood and no capability covers another.",
  [CH], [("reduction", CH + ": reduce_capabilities")], observe=["ProofChain::reduce_capabilities"])
p("C13", "An originator is credited only for what it granted",
  "An identity is reported as originator of a capability only if it is an originator of a capability that enables it in one of the token's proofs (or in a redelegated proof that reports it), or it is the token's issuer and no proof that is not redelegated provides an enabling capability. All originators of every enabling capability from the non-redelegated proofs are reported, and the set of originators is never empty.",
  ["inputs", "histories"], "every chain and every way in which capabilities of one token overlap",
  "Tests claim capabilities that do not overlap, so crediting one capability with the originators of a narrower one is not reached.",
  [CH], [("originator tracking and merging", CH + ": reduce_capabilities")], observe=["CapabilityInfo::originators"])
p("C14", "A capability set is always well formed",
  "However a capability set is obtained - from a flat list, from JSON, from a map or by decoding a token - it has at least one ability for every resource and only objects as caveats; input that violates this is rejected with an error, and other input of the right shape is accepted.",
  ["inputs", "programs"], "every construction route and every input",
  "Tests reject malformed JSON only through one of the four construction routes.",
  [DAT], [("checked conversions", DAT + ": TryFrom impls, Deserialize")], observe=["Capabilities::try_from", "token decoding"])
p("C15", "Capability sets neither lose, invent nor alter capabilities",
  "Flattening a capability set yields exactly one capability for each resource, ability and caveat it holds, with those three unchanged, and none for an ability without caveats. Building a set from a flat list or from JSON keeps every resource, ability and caveat given, associated as given, the caveats of an ability in the order given.",
  ["inputs"], "every capability set, flat list and JSON object",
  "Tests convert one fixed example each way.",
  [DAT], [("flattening", DAT + ": Capabilities::iter"), ("construction", DAT + ": TryFrom impls")], observe=["Capabilities::iter", "Capabilities::try_from"])
p("C16", "Capability text is parsed into the resource it names",
  "A my: resource parses to the issuer's own resource, as:<did:key>:<resource> to that DID's resource, and any other URI to a plain resource, each with a path of * meaning the wildcard and otherwise the scope the semantics gives it; ability and caveat are those given, an absent caveat meaning an empty object. If any part is not understood, no capability results.",
  ["inputs"], "every resource, ability and caveat under every semantics using the provided parsing",
  "Tests parse plain and my: resources only; an as: resource is never parsed.",
  [SEM], [("default parsing", SEM + ": CapabilitySemantics::parse*")], observe=["CapabilitySemantics::parse"])
p("C17", "A DID resolves only to the key it encodes",
  "A key is returned only for a did:key DID in base58btc, and is the one built by the constructor registered for the first two decoded bytes from exactly the remaining bytes, or the key previously built that way for the identical DID. Undecodable or too short identifiers, unregistered key types and constructor failures are errors and are never remembered as keys. The key-type prefixes the library publishes are the multicodec codes of the key types they are named after.",
  ["inputs", "histories"], "every DID string, registered set of key types and sequence of lookups",
  "Tests resolve a few well-formed DIDs, each once or twice.",
  [DID], [("parse and cache", DID + ": DidParser::parse")], state=[("key cache", "keys already built, by DID", DID)], observe=["DidParser::parse"])
p("C18", "Key implementations verify and sign with their own key only",
  "For each supported key type verification succeeds only if the underlying algorithm accepted exactly the given signature over exactly the given payload under that key, and signing signs exactly the given payload with that key's private half or fails if there is none. The algorithm name, the DID prefix and public-key encoding, and the constructor from DID bytes agree per key type, and failure to encode the public key is an error; keys behind boxes and reference-counted pointers behave as the key they hold.",
  ["inputs", "programs"], "every payload, signature and key, for each key type and wrapper",
  "Tests sign and verify one fresh key per type; rejection, absent private keys and encoding failures are not tested.",
  KS + [KEY, DID], [("KeyMaterial implementations", ", ".join(KS)), ("forwarding wrappers", KEY)], observe=["KeyMaterial::{verify,sign,get_did,get_jwt_algorithm_name}"])
p("C19", "The builder produces exactly the token it was asked for",
  "Building fails without an issuer or an audience; otherwise the version is this library's UCAN version, and audience, capabilities, facts, proofs, not-before and nonce choice are exactly those given, with empty facts and proofs omitted and a fresh random nonce present exactly when requested. The expiry is the explicit one if given, otherwise the current time plus the lifetime without wrapping, otherwise absent.",
  ["inputs", "histories"], "every sequence of builder calls",
  "Tests make one call sequence with most options and check a few fields.",
  [B], [("builder", B + ": UcanBuilder"), ("payload", B + ": Signable::ucan_payload")], observe=["UcanBuilder::build", "Signable::ucan_payload", "accessors of the signed token"])
p("C20", "Signing covers exactly the token that is returned",
  "A signed token's header has the type JWT and names the issuer key's algorithm, its payload names the issuer key's DID, and its signature is the issuer key's signature over base64url(header).base64url(payload) of that very header and payload, which are also the token's signed bytes. Any failure of the key, or to produce or encode the payload, is returned as an error.",
  ["inputs", "fault_sequences"], "every builder state and every failure of the key implementation",
  "Tests sign with a key that never fails.",
  [B, SER], [("signing", B + ": Signable::sign"), ("JWT base64", SER)], observe=["Signable::sign"])
p("C21", "Witnessing and delegating cite the right proof",
  "Adding a proof appends the CID of exactly that token, computed with the requested hash function or the documented default, to the cited proofs. Delegating from a token also adds the capability ucan/DELEGATE on prf:<n>, where n is the index at which that same token was just cited.",
  ["inputs", "histories"], "every sequence of builder calls and hash functions",
  "Tests delegate from at most two tokens.",
  [B], [("proof citation", B + ": witnessed_by / delegating_from")], observe=["Signable::proofs", "Signable::capabilities"])
p("C22", "IPLD conversion preserves every field of a token",
  "Converting a token to its IPLD form and an IPLD form to a token carry every field over to its counterpart: version, issuer, audience, expiry, not-before, nonce, capabilities, facts, proofs in order, algorithm and signature; a token made from an IPLD form has the type JWT. Any field that has no counterpart makes the conversion fail, and the converted token's signed bytes are the encoding of its own header and payload.",
  ["inputs"], "every token and every IPLD form",
  "One test round-trips one token and compares one string.",
  [IUC], [("conversions", IUC + ": TryFrom impls")], observe=["UcanIpld::try_from", "Ucan::try_from(&UcanIpld)"])
p("C23", "Signature algorithm codes and framing are faithful",
  "Every signature algorithm has the numeric code the UCAN-IPLD specification gives it and that code converts back to it, distinct algorithms have distinct codes, and each JWT algorithm maps to the varsig algorithm of the same name and back. A varsig envelope is the algorithm code, the signature length and the signature, in that order, and decoding returns exactly the algorithm and that many signature bytes or fails.",
  ["inputs"], "all algorithms, all 64-bit codes, all byte strings",
  "One algorithm and one signature are round-tripped.",
  [ISG, "ucan/src/crypto/signature.rs"], [("tables and envelope", ISG)], observe=["VarsigPrefix conversions", "Signature::{decode,try_from}"])
p("C24", "A principal is displayed as the DID it was made from",
  "A did:key DID is represented by its base58-decoded bytes and any other DID by the generic DID marker followed by its text after did:, and each is displayed as the DID it was made from. Text that is not a DID, is not valid base58, or would be displayed as a different DID is rejected.",
  ["inputs"], "every DID string and every byte string",
  "Two well-formed DIDs are round-tripped.",
  [IPR], [("parsing and display", IPR)], observe=["Principle::from_str", "Principle Display", "Principle deserialization"])
p("C25", "The stores return a token only under its own CID",
  "Writing to the in-memory store files exactly the encoded block under the version-1, raw-codec, Blake3-256 CID of that block and returns that CID; reading decodes the block filed under exactly the CID asked for and reports nothing if there is none. Asking for a token fails if the CID's codec is not raw, if nothing is filed under it, if what is filed is not UTF-8, or if the store fails.",
  ["inputs", "histories", "fault_sequences"], "every block, CID, sequence of reads and writes, and store failure",
  "Tests write and read back a few tokens.",
  [STO], [("MemoryStore", STO), ("token layer", STO + ": UcanJwtStore")], state=[("block map", "blocks by CID", STO)], observe=["UcanStore::{read,write}", "UcanJwtStore::{require_token,read_token,write_token}"])
p("C26", "Untrusted input never panics",
  "Parsing, encoding, validating or converting a token, resolving a DID, building and reducing a proof chain, parsing capabilities, and decoding or displaying IPLD signatures and principals never panic, whatever the input; every failure is an error or an absent result.",
  ["inputs"], "every input reachable by parsing or deserialization",
  "Tests feed well-formed input; truncated, over-long and non-UTF-8 input is not sampled.",
  [U, CH, SEM, PRF, CAV, DAT, DID, STO, SER, IPR, ISG, IUC], [("bounds and error handling on every path", "all library code")], observe=["all public parsing and validation entry points"])
p("C27", "Tokens and proof chains cannot be altered after creation",
  "No public interface hands out a way to change a token's header, payload, signed bytes or signature, a chain's token, proofs or redelegations, a parser's key cache, a store's blocks other than by writing, or a validated capability set, once created.",
  ["programs"], "every program that uses the libraries through safe code",
  "A test shows what some program can do, not what no program can do.",
  [U, CH, DAT, DID, STO, CAV], [("private fields and shared-reference accessors", "type definitions")], observe=["public signatures and field visibility"])
p("C28", "Accessors report the field they are named after",
  "Every accessor of a token, a proof chain and a capability returns exactly the part it is named after, unmodified: algorithm, issuer, audience, proofs, expiry, not-before, nonce, capabilities, facts, version, signed bytes, signature, the chain's token and proofs, and the capability's resource, ability and caveat. A copy of any of them has the same parts.",
  ["inputs"], "every token, chain and capability",
  "Tests call some of the accessors on one token each.",
  [U, CH, SEM], [("accessors", U + ", " + CH + ", " + SEM)], observe=["accessor results"])
p("C29", "Tokens are encoded canonically",
  "Header and payload JSON is always produced by the canonical DAG-JSON encoder from the value as a whole, then unpadded base64url, and no serialized type contains a sequence whose order is left to a hash table; so equal tokens have equal encodings. Field names in the encoding are those of the UCAN specification and optional fields other than the expiry are omitted when absent.",
  ["inputs", "programs"], "every header and payload value",
  "Tests compare one pair of equal tokens.",
  [SER, U], [("single encoder", SER), ("ordered containers", U + ", " + DAT)], observe=["Ucan::encode", "Signable::sign"])
p("C33", "Decoding takes every field from its own key",
  "Decoding the map form of a header, a payload or a UCAN-IPLD sets each field from the value under its own specified key and from nothing else. A required key that is missing, a key given twice, or a value that does not decode is an error; optional fields are absent only if their key is, and unknown keys are ignored. A UCAN-IPLD is encoded under the same keys, each holding its own field.",
  ["inputs"], "every order, repetition, omission and addition of keys",
  "Tests decode only what this library encoded: all keys once, in canonical order, none unknown.",
  [U, IUC], [("field decoding", U + ": UcanHeader, UcanPayload; " + IUC + ": UcanIpld")], observe=["Ucan::from_str", "UcanIpld deserialization"])
p("C34", "Capabilities keep their meaning when written as text",
  "A capability view becomes text whose resource is the path, or my: or as:<did>: followed by it, where the wildcard is * and a scope is its own text; ability and caveat are carried over. A capability converts to and from a triple without exchanging or changing its parts. A proof selection is written prf:* or prf:<n>, and * or a number parses to exactly that selection; ucan/DELEGATE and nothing else is the proof ability.",
  ["inputs"], "every capability, scope and proof selection",
  "Tests write plain resources of one kind; my:, as: and wildcard forms are never written and read back.",
  [SEM, DAT, PRF], [("text forms", SEM + ": Display impls; " + PRF), ("conversions", SEM + ", " + DAT + ": From impls")], observe=["Capability::from(CapabilityView)", "Display / TryFrom of ProofSelection and ProofAction"])
p("C35", "Every operation ends on finite tokens",
  "Every loop in the libraries runs over something finite, or takes an element from a work list in each round and adds none; every recursion goes from a token to one it cites, or from a value to a strict part of it. So every operation ends whenever the citations among the stored tokens contain no cycle and the caller's own code (stores, keys, semantics) ends.",
  ["inputs", "histories"], "every input and every store content without a citation cycle",
  "Tests use a few short, well-formed inputs; non-termination shows only on particular ones.",
  [CH, U, DAT, DID, B, IPR, ISG], [("loops and recursion", "all library code")], observe=["all public operations return"])
p("C36", "Equal means equal in every part",
  "Comparing two values of a type these libraries define answers equal exactly when every part of them is equal: tokens, headers, payloads (including absent versus present optional fields), capability sets, capabilities, capability views, resources of each kind, caveats, proof selections, principles, signatures, UCAN-IPLD and what reduction reports. It never fails, and comparing for inequality answers the opposite.",
  ["inputs"], "every pair of values, however little they differ",
  "Tests compare values that are equal in every part or differ plainly; a part that is left out of a comparison shows only on values that differ in nothing else.",
  [U, CH, SEM, CAV, DAT, PRF, IPR, ISG, IUC], [("derived and written comparisons", "PartialEq of the types in " + ", ".join([U, CH, SEM, CAV, DAT, PRF, IPR, ISG, IUC]))], observe=["== and != on the public types"])
p("C37", "Copies are faithful",
  "Copying a value of a type these libraries define yields one with exactly the same parts: keys keep both halves, tokens, headers, payloads, capabilities, capability views, resources, caveats and principles all their fields, builders everything asked of them so far, and a copy of a memory store is the same store, so that what is written through one is read through the other. Copying never fails.",
  ["inputs"], "every value of every type that can be copied",
  "Copies are made deep inside other operations and tests compare few of the parts; a part lost in a copy shows only on values that have it.",
  [KS[0], STO, U, B, SEM, CAV, DAT, IPR], [("derived and written Clone impls", "all types of both libraries")], observe=["clone() of the public types"])
p("C38", "Answers depend only on what the caller passes in",
  "What an operation answers is decided by its arguments alone, the store and DID parser passed to it included. No operation looks at files, environment variables, the command line or the network, starts threads or processes, writes to standard output, or remembers anything between calls: no static changes, nothing is kept per thread, and no token, chain, capability or other value (a store aside) can change behind a shared reference. Only validation, the expiry and too-early questions, chain construction and building a token may read the clock, and only making a nonce or a signature may draw random numbers.",
  ["inputs", "histories", "schedules", "configurations"], "every call, in every environment and after every earlier history of calls",
  "Tests run in one environment, each with fresh values; an answer that depends on a variable, a file or an earlier call is the same in all of them.",
  [U, CH, B, STO, DID, "ucan/src/time.rs"] + KS, [("use of clock and randomness", "ucan/src/time.rs: now; " + B + ": ucan_payload"), ("absence of other effects and of shared state", "all library code")], observe=["all public operations"])
p("C39", "Tokens, chains, keys and stores can be used across threads",
  "Outside browsers, every public type can be moved to and shared between threads (as far as its type parameters can), and every operation that has to be awaited - validating, checking and making signatures, building chains, reading and writing stores, signing tokens - can be awaited on an executor that moves tasks between threads, for every key, store and semantics that meet the stated bounds.",
  ["programs", "schedules"], "every program that uses the libraries from several threads",
  "Tests await on the thread they run on; that a value is tied to its thread shows only in the programs that would no longer compile.",
  [U, CH, B, STO, KEY, DID] + KS, [("Send and Sync bounds", KEY + ": KeyMaterial; " + STO + ": UcanStore"), ("state held across awaits", "all async functions")], observe=["types and futures of the public API"])
p("C40", "The private half of a key never leaves it",
  "Outside browsers, the private half of a key material is used for signing and nothing else: no operation formats it, logs it, serializes it, converts it to bytes or hands it to other code; beyond signatures (and copies of the key itself), what an operation gives out may depend at most on whether there is a private half.",
  ["inputs"], "every operation on every key that has a private half",
  "Tests look at results that are expected; nothing looks for key material in messages, logs, identifiers or debug output.",
  KS, [("use of the optional private half", ", ".join(k + ": sign" for k in KS))], observe=["all operations of Ed25519KeyMaterial, P256KeyMaterial, RsaKeyMaterial"])
p("C41", "No input reaches memory-unsafe code of these libraries",
  "Outside browsers, the libraries consist of safe code only: there is no unsafe block, function, implementation, foreign item or mutable static of their own, so that no token, key, DID or store content, however malformed, makes them read or write memory they should not, or break the promises of str and of the standard collections.",
  ["inputs", "schedules"], "every input, and every use from several threads",
  "Undefined behaviour need not show in a test that reaches it, and out-of-range accesses show only on inputs that are out of range.",
  [U, CH, B, SEM, CAV, DAT, PRF, DID, STO, IPR, ISG, IUC] + KS, [("absence of unsafe code", "all library code")], observe=["all public operations"])
p("C42", "Shared stores neither deadlock nor lose updates",
  "What several tasks or threads share through clones of a store is guarded by locks that every operation waits for and releases before it returns, is never asked for again while held, is not held across an await, is taken in one order if there are several, and is neither given out nor kept. Guarded data is never replaced as a whole by something made from an earlier look at it, so that concurrent writes are not lost. It is assumed that a caller's codecs do not use the store while encoding or decoding.",
  ["schedules"], "every interleaving of operations on clones of one store",
  "Tests use a store from one task; a lock held too long or a write lost needs an unlucky interleaving.",
  [STO, U, CH, B], [("the lock", STO + ": MemoryStore")], observe=["MemoryStore as UcanStore"])
p("C43", "A sound proof chain is never refused",
  "Constructing a chain from a token fails only if the token does not validate, a proof it cites cannot be parsed as a CID, fetched or chained, a proof's audience is not the token's issuer or its lifetime does not enclose the token's, or a capability ucan/DELEGATE on prf:<n> selects a proof that is not cited. Constructing one from a token string or a CID fails only if the token cannot be fetched or parsed or its chain cannot be constructed.",
  ["inputs", "histories"], "every token graph, every number and order of proofs and capabilities",
  "Tests construct a few short chains; what is refused beyond the rules shows only on chains nobody thought of.",
  [CH], [("chain construction", CH + ": ProofChain::from_ucan"), ("redelegation", CH + ": ProofChain::from_ucan")], observe=["ProofChain::{from_ucan,try_from_token_string,from_cid}"])
p("C32", "Browser keys behave like native keys",
  "In the browser build, the WebCrypto-backed RSA key is an RS256 key: verification succeeds exactly when the browser confirms the signature over exactly the payload for this key's public half under RSASSA-PKCS1-v1_5; signing returns the browser's signature over exactly the payload with this key's private half; its DID is the RSA did:key of the public key the browser exports. A generated key has a private half that cannot be extracted, SHA-256, exponent 65537 and the size asked for, or 2048 bits. What the browser refuses is an error, never a panic.",
  ["inputs", "configurations"], "every payload, signature and key in a browser build",
  "No test runs it here: the module is compiled for wasm32 only, and its own tests need a browser.",
  ["ucan-key-support/src/web_crypto.rs"], [("SubtleCrypto calls", "ucan-key-support/src/web_crypto.rs")], observe=["WebCryptoRsaKeyMaterial as KeyMaterial", "WebCryptoRsaKeyMaterial::generate"])
p("C30", "Forged tokens do not verify",
  "Nobody without an issuer's private key can produce a token that validates for that issuer.",
  ["inputs"], "every adversary", "It is a statement about computational hardness.", [KS[0]], [("signature algorithms", "external crates")])
p("C31", "Chain construction and reduction use bounded time and stack",
  "Constructing and reducing a chain uses stack and time bounded by the size of the token at hand, for every store and token.",
  ["inputs"], "every proof graph", "Tests use three-deep chains.", [CH], [("recursion over acyclic hash links", CH)])
if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")

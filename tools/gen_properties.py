#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the file stays valid JSON lines."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or [], "hook_needed": hook}})
def m(name, where): return {"name": name, "where": where}
def s(name, meaning, where): return {"name": name, "meaning": meaning, "where": where}
VF = ["src/verify.cc", "jwt_verify_lib/verify.h", "src/jwt.cc"]
LRU = ["simple_lru_cache/simple_lru_cache_inl.h"]

p("V01", "Only genuinely signed tokens are accepted",
  "Verification succeeds only for a token whose exact header and payload text was signed, with the algorithm the token names, by the holder of a key in the verifier's key set. A token that was altered, spliced, truncated, extended, re-signed with another key or algorithm, stripped of its signature or forged anywhere between issuer and verifier is never accepted. The only alterations tolerated are other encodings of the same signature (its base64url spelling, and the mirrored form of an elliptic-curve signature).",
  ["inputs", "histories", "fault_sequences"],
  "for all key sets, issued tokens, adversarial or accidental corruptions of them in transit (bit flips, drops, duplications, splices, replays) and orders of delivery",
  "The unit tests try a handful of fixed tokens with the first/last character changed; the guarantee is over every corruption, key mix and delivery history.",
  VF, [m("per key type signature verification", "src/verify.cc: verifySignature{RSA,RSAPSS,EC,Oct,Ed25519}"), m("section split and base64url decode", "src/jwt.cc: parseFromString")],
  observe=["Status of verifyJwt / verifyJwtWithoutTimeChecking"])
p("V02", "Every genuine token is accepted",
  "A token signed with a supported algorithm (RS, PS, ES, HS 256/384/512 or EdDSA) by a key that is in the key set and eligible by key id and algorithm, presented inside its validity window to an addressed audience, is accepted. This holds whatever other keys are in the set, in whatever number and order, in whatever supported format the keys were loaded, and whatever was verified before.",
  ["inputs", "histories", "configurations"],
  "for all issuers, algorithms, key sets (mixed types, duplicates of key ids, keys without id or algorithm, unusable neighbours), key rotations and verification histories",
  "Tests verify single fixed tokens against small homogeneous key sets; interference between keys of different types, positions and rotations is never exercised.",
  VF + ["src/jwks.cc"], [m("loop over all keys, continue after a mismatch", "src/verify.cc: verifyJwtWithoutTimeChecking")])
p("V03", "Key id and key algorithm restrict which keys may verify",
  "A key is used for a token only if the two key ids are equal or at least one of them is absent or empty, and the key's stated algorithm is absent or equal to the token's, compared exactly. A token that only ineligible keys could verify is refused. The verdict is the key-id/algorithm mismatch error exactly when no key in the set is eligible, and otherwise success or a signature verification error.",
  ["inputs", "histories", "configurations"],
  "for all assignments of key ids and algorithms to keys and tokens, including rotations that reuse ids",
  "Tests use one or two key ids and one algorithm at a time.",
  VF, [m("kid and alg filters", "src/verify.cc: verifyJwtWithoutTimeChecking")])
p("V04", "Validity window is exact at every time and tolerance",
  "Given a time and a tolerance, a token is refused as not yet valid exactly when time plus tolerance is before its not-before time, and otherwise refused as expired exactly when it has a non-zero expiry and time is after expiry plus tolerance; the default tolerance is 60 seconds. The comparison is exact for all 64-bit values: no combination of time, tolerance and claims wraps around. As a verifier's clock advances, a token's time verdict goes from not yet valid to valid to expired and never back.",
  ["inputs", "histories"],
  "for all node clocks (skewed, stepped, extreme), tolerances and nbf/exp claims",
  "Tests probe about ten instants around one fixed token; boundaries, wrap-around and clock histories are not covered.",
  ["src/jwt.cc", "src/verify.cc", "jwt_verify_lib/jwt.h"], [m("verifyTimeConstraint", "src/jwt.cc")])
p("V05", "Wall-clock verification judges at the moment of the call",
  "A verification call that takes no explicit time gives the verdict for the system wall clock as it is during that call, to the second, with the default tolerance. It does so at every call, however the clock has drifted, jumped forwards or backwards since earlier calls, and a clock set before 1970 counts as time zero.",
  ["histories", "fault_sequences", "schedules"],
  "for all sequences of verification calls interleaved with clock advances, steps and skews",
  "Tests cannot control the wall clock: no test of the overloads that read it checks more than a long-expired or never-expiring token.",
  ["src/verify.cc", "jwt_verify_lib/verify.h"], [m("absl::Now() in the overloads without a time", "src/verify.cc: verifyJwt")])
p("V06", "Tokens are accepted only by an audience they are addressed to",
  "When the verifier has a non-empty audience list, a token is refused as not allowed exactly when none of its audiences equals one of the configured ones, after removing from each a leading http:// or https:// and one trailing slash; an empty list allows every token. The comparison is otherwise exact and case-sensitive, covers single-string and list audiences at every position, and a token without audience never matches a non-empty list unless it and the configuration both contain the empty audience.",
  ["inputs", "histories", "configurations"],
  "for all audience configurations and tokens, including tokens misrouted to another service and audience configurations changing over time",
  "Tests cover a dozen fixed audience pairs.",
  ["src/check_audience.cc", "src/verify.cc", "src/struct_utils.cc"], [m("sanitizeAudience and set lookup", "src/check_audience.cc")])
p("V07", "Verification fails closed when memory or crypto calls fail",
  "If a memory allocation or a cryptographic library call fails at any point during parsing or verification, the call ends in a failing verdict or an out-of-memory exception, or in the correct verdict; it never accepts a token that would have been refused without the failure. It never crashes, hangs or reads uninitialised data because of the failure.",
  ["fault_sequences", "inputs"],
  "for all positions of failing allocations and failing crypto calls, single or repeated, inside each verification",
  "No test injects a failure; the error paths of the crypto calls are dead code in the suite.",
  VF, [m("return-value checks around every crypto call", "src/verify.cc")])
p("V08", "A verification leaves no residue",
  "A parse-and-verify call leaves no error in the calling thread's crypto error queue, leaks no memory, and changes nothing a later call can notice, whatever its verdict and whatever allocation or crypto call failed inside it. The verdict for a given token, key set and time is therefore the same however often and after whatever other calls it is asked for.",
  ["histories", "fault_sequences"],
  "for all sequences of accepted, refused and failed calls on the same thread and key set",
  "Tests never look at the error queue or at memory and never repeat a call after a failing one.",
  VF, [m("ERR_clear_error on failure paths, scoped owners", "src/verify.cc")], observe=["ERR_peek_error", "live allocation counts", "repeated verdicts"])
p("V09", "Concurrent verifications do not interfere",
  "Any number of threads may parse, copy and verify tokens and check audiences at the same time, sharing the same key set, audience list and token objects for reading, while other threads load new key sets. Each call gives the verdict it would give alone, and no call writes memory that another thread may be accessing without synchronisation.",
  ["schedules"],
  "for all interleavings of up to four threads at the granularity of single memory accesses and lock operations",
  "The test suite is single-threaded.",
  ["src/verify.cc", "src/jwt.cc", "src/jwks.cc", "src/check_audience.cc", "src/struct_utils.cc", "src/status.cc", "jwt_verify_lib/jwks.h"],
  [m("const key sets, no mutable globals except guarded constants", "src/jwt.cc: isImplemented; src/verify.cc")])
p("V10", "A reused or copied token object equals a fresh one",
  "Parsing a token text into an object that held another token, and copying or assigning between token objects (also to itself), gives exactly the status, claims, audiences, key id, algorithm, times and signature that parsing the same text into a new object gives. Nothing of an earlier token survives, also when an earlier or the present parse failed part-way.",
  ["histories", "fault_sequences"],
  "for all sequences of parse, copy and assign over a pool of token objects, including failing parses and allocation failures in between",
  "Tests parse each object once and copy only into new objects.",
  ["src/jwt.cc", "jwt_verify_lib/jwt.h", "src/struct_utils.cc"], [m("parseFromString, copy constructor, operator=", "src/jwt.cc")],
  state=[s("claim fields", "public parsed fields of the token", "jwt_verify_lib/jwt.h: struct Jwt")])
p("V11", "Hostile bytes never break the verifier",
  "Any byte string delivered as a token or as a key document, including corrupted, truncated, duplicated or spliced forms of valid ones, is processed in bounded time to a status, without crash, undefined behaviour or out-of-bounds access. A token whose parse did not succeed never verifies successfully, and a key document whose load did not succeed verifies nothing.",
  ["inputs", "fault_sequences"],
  "for all corruptions in transit of tokens and key documents",
  "Tests feed a few dozen malformed literals; the fuzz target is not run by them.",
  ["src/jwt.cc", "src/jwks.cc", "src/struct_utils.cc", "src/verify.cc"], [m("status returns on every malformed field", "src/jwt.cc, src/jwks.cc")])
p("V12", "The claims of an accepted token are the ones that were signed",
  "When a token is accepted, the algorithm, key id, issuer, subject, audiences, token id and issued-at, not-before and expiry times that the token object shows, and its header and payload documents, are exactly those the issuer signed. Times are exact for every integer a JSON number can carry exactly, and fractions are rounded down; a claim that is absent shows as empty or zero, never as a value from another token or field.",
  ["inputs", "histories", "fault_sequences"],
  "for all claim sets issued, all deliveries (duplicated, reordered, re-encoded signature) and all reuse of token objects in between",
  "Tests compare the fields of a few fixed small tokens, each parsed once into a new object.",
  ["src/jwt.cc", "src/struct_utils.cc", "jwt_verify_lib/jwt.h", "jwt_verify_lib/struct_utils.h"],
  [m("claim extraction", "src/jwt.cc: parseFromString; src/struct_utils.cc: GetString, GetUInt64, GetStringList")],
  observe=["fields of Jwt after a successful verification, against the issuer's record"])
p("K01", "A key set holds exactly the usable published keys",
  "Loading a key document yields, in document order, exactly its usable keys, each with the published key id, type, algorithm and key material; an unusable entry never removes, alters or reorders another. The load succeeds exactly when at least one key is usable (for certificate maps, in any order: exactly when all are), and a key set whose load failed holds no key.",
  ["inputs", "histories", "configurations"],
  "for all key documents mixing usable and unusable entries of every type and format, and every iteration order of certificate maps",
  "Tests load small documents with at most one bad entry; the iteration order of certificate maps changes from process to process, so a test sees one of many.",
  ["src/jwks.cc", "jwt_verify_lib/jwks.h"], [m("createFromJwksCore skips bad keys; createFromX509", "src/jwks.cc")])
p("K02", "Adding a key to a key set is all or nothing",
  "Adding a PEM key with an id and algorithm to an existing key set either reports success and appends exactly that key after the existing ones, or reports a failure and leaves the set as it was, including when memory or crypto calls fail during the addition. Existing keys keep verifying throughout any sequence of additions.",
  ["histories", "fault_sequences"],
  "for all sequences of additions of good and bad keys, with failures injected at any point",
  "Tests add one good and one bad key.",
  ["src/jwks.cc"], [m("addKeyFromPem via temporary key set", "src/jwks.cc: addKeyFromPem, createFromPem")])
p("K03", "Key loading under failures never yields a wrong key",
  "If memory allocations or cryptographic library calls fail while a key document is loaded, every key in the resulting set is still complete and identical to a published one, in document order; keys may only be missing. The load neither crashes nor leaks, and loading the same document again after the failures stop yields the full set.",
  ["fault_sequences"],
  "for all positions of failing allocations and crypto calls, single or repeated, inside each load",
  "No test injects a failure.",
  ["src/jwks.cc"], [m("status checks after every crypto call; scoped owners", "src/jwks.cc: KeyGetter, extract*")])
p("C01", "Cache lookups return the current value of the key",
  "A cache lookup returns the value most recently inserted under the key if it has not since been removed, evicted or expired, and nothing otherwise; a value that was replaced or removed is never returned again even while still in use. Still-in-use queries and iteration agree with the same contents.",
  ["histories", "schedules", "configurations"],
  "for all interleavings of operations by several clients on one cache under caller-provided locking",
  "Tests run fixed single-client sequences.",
  LRU, [m("main table and deferred table", "simple_lru_cache_inl.h: lookupWithOptions, insertPinned, remove")])
p("C02", "Cached values in use are never destroyed, all others exactly once",
  "A value handed to or looked up from the cache is never destroyed while any user still has to release it, even if it is removed, replaced, evicted or expired meanwhile. Each inserted value is destroyed exactly once: at once if it leaves the cache unused, otherwise at its last release, and at the latest when the cache is cleared.",
  ["histories", "schedules"],
  "for all interleavings of pins, releases (in any order), removals, replacements, evictions, expiries and clears",
  "Tests follow few pin/release patterns, never with mixed lookup options or several holders across expiry.",
  LRU, [m("pin counts and deferred deletion list", "simple_lru_cache_inl.h: releaseWithOptions, remove(Elem*), discard")])
p("C03", "Cache stays within capacity, evicting in the documented order",
  "After every operation the cache is within its size limit unless everything it holds is in use, and it evicts no entry while it is within its limit. Eviction takes unused entries in least-recently-used order (in age-based mode, oldest inserted first), where lookups that ask not to update the eviction order do not change it.",
  ["histories", "schedules", "configurations"],
  "for all interleavings of operations, sizes, limit changes, size updates, custom limits and per-lookup options",
  "Tests insert in order and check a few evictions; overlapping users with different options are never combined.",
  LRU, [m("circular LRU list and garbageCollect", "simple_lru_cache_inl.h")])
p("C04", "Idle entries expire exactly by elapsed time since last use",
  "With a maximum idle time set, an unused entry is gone at the next lookup or explicit expiry once more than that time has elapsed since its last release or insertion, and never earlier; an entry in use does not expire. Elapsed time is unaffected by steps of the wall clock, and last-use times and ages reported are consistent with it.",
  ["histories", "fault_sequences", "schedules"],
  "for all interleavings of operations with clock advances, stalls and wall-clock steps in both directions",
  "Tests sleep a tenth of a second a few times; they cannot step the clock or reach long times.",
  LRU, [m("discardIdle over the time-ordered list; SimpleCycleTimer", "simple_lru_cache_inl.h")])
p("C05", "Age-based entries expire exactly by time since insertion",
  "In age-based mode an entry is gone at the next lookup or explicit expiry once more than the configured time has elapsed since its insertion, whether or not it was used or is in use meanwhile, and never earlier; one in use stays valid for its holders until released. Elapsed time is unaffected by steps of the wall clock.",
  ["histories", "fault_sequences", "schedules"],
  "for all interleavings of operations with clock advances, stalls and wall-clock steps in both directions",
  "As for idle expiry: real sleeps, no clock steps.",
  LRU, [m("strict age list incl. pinned entries", "simple_lru_cache_inl.h: discardIdle, insertPinned")])
p("C06", "Cache accounting always matches its contents",
  "After every operation the reported total size, entry count, in-use size, and count and size of removed-but-in-use entries equal the sums over what was inserted, resized, released and destroyed so far, and the summary, debug output and iteration show the same entries. After clearing, everything is zero.",
  ["histories", "schedules"],
  "for all histories, including size updates of in-use and removed entries and several removed values under one key",
  "Tests check sizes after fixed sequences.",
  LRU, [m("units_, pinned_units_, countDeferredEntries", "simple_lru_cache_inl.h")])
p("C07", "A cache operation that runs out of memory changes nothing it should not",
  "If an allocation fails while an entry is inserted or removed, the cache stays consistent: every other entry is untouched, sizes and counts are right, no value is leaked or destroyed twice, and a value whose insertion failed still belongs to the caller. The key's earlier value is either still there or properly removed.",
  ["fault_sequences", "histories"],
  "for all positions of failing allocations inside insertions and removals, in all cache states",
  "No test injects a failure.",
  LRU, [m("order of allocation and bookkeeping", "simple_lru_cache_inl.h: insertPinned, remove")])
p("N01", "Each malformed field is reported with its own status",
  "Every malformed token or key document is reported with the documented status of the first defect found in the documented field order.",
  ["inputs"], "for all malformed inputs", "Tests sample one input per status.",
  ["src/jwt.cc", "src/jwks.cc", "jwt_verify_lib/status.h"], [m("status returns", "src/jwt.cc, src/jwks.cc")])
p("N02", "Every status has its own descriptive text",
  "The text for each status is non-empty, distinct and stable.",
  ["inputs"], "for all status values", "Few are tested.", ["src/status.cc"], [m("getStatusString", "src/status.cc")])
p("N03", "MAC comparison takes time independent of the secret",
  "The time taken to refuse a wrong HMAC signature does not depend on how many of its bytes are right.",
  ["inputs"], "for all HMAC signatures", "Tests do not measure time.", ["src/verify.cc"], [m("CRYPTO_memcmp", "src/verify.cc: verifySignatureOct")])
p("N04", "Nested claim access finds the value at the named path",
  "Looking up a claim by dotted path returns exactly the value at that path with the requested type, or says that it is missing, of another type or out of range.",
  ["inputs"], "for all claim structures and paths", "Tests sample a few paths.", ["src/struct_utils.cc", "jwt_verify_lib/struct_utils.h"], [m("StructUtils::GetValue", "src/struct_utils.cc")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))

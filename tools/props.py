#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = "protocol/"
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": [P+f for f in files],
         "mechanism": [{"name": n, "where": P+w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": P+w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}

SESS = ["session/cipher.go", "session/session.go", "session/state.go", "session/record.go"]
GRP = ["session/group_cipher.go", "session/group_session.go", "session/group_record.go", "session/group_state.go"]
OUT = [
p("C01", "Pairwise messages arrive exactly, in any order",
  "Every message one device encrypts for another decrypts, the first time it is delivered, to exactly the bytes that were encrypted (any length, empty included). This holds however the sends and receives of both sides interleave, whichever messages are reordered, delayed or lost, and across session replacements, within the protocol's documented retention limits.",
  ["histories", "inputs"], "all interleavings of sends, deliveries in any order, losses, and new sessions by either side, up to a depth, from fresh, established and long-lived sessions; all plaintext lengths of a grid",
  "The tests run a few scripted conversations and one shuffled batch; they do not enumerate interleavings of two directions, ratchet turns and replaced sessions.",
  SESS + ["ratchet/keys.go", "message/signal.go", "message/prekey.go", "crypto/aes/aes.go"],
  [("double ratchet step and skipped message keys", "session/cipher.go"), ("previous session states", "session/record.go")],
  [("receiver chains", "chain key and skipped keys per remote ratchet key", "session/state.go")],
  ["DecryptMessage result"]),
p("C02", "A pairwise message is accepted at most once",
  "Once a message has been decrypted, delivering it again, unchanged or with the parts of its envelope that are not authenticated altered or re-wrapped, is answered with an error, releases no plaintext and leaves the receiver's stored state as it was. This holds at every later point of the conversation, whatever else was sent, received or re-established in between. (A session set up without a one-time pre-key is recognised as repeated only while it is one of the forty archived ones.)",
  ["histories", "inputs"], "every reachable state of the bounded conversation, every message consumed so far, every replay variant",
  "The tests replay one message right after it was received; they do not replay every message at every later state or in altered envelopes.",
  SESS + ["message/prekey.go", "perrors/errors.go"],
  [("message keys are removed on use and the chain advances", "session/cipher.go"), ("session lookup by base key", "session/record.go")],
  [], ["DecryptMessage result", "store contents"]),
p("C03", "Forged or altered pairwise messages have no effect",
  "A message that was altered, truncated, spliced, reflected to its sender, redirected to another party, or made without the keys of the session is answered with an error, changes nothing in the receiver's stores, and does not prevent the genuine message from being decrypted afterwards. If only parts of the envelope that do not affect authentication were altered, the only plaintext that may ever be returned is the genuine one.",
  ["inputs", "histories"], "every single-bit flip, every truncation, splices of fields and tags between messages, field re-encodings and low-order keys, for every message at every reachable state of bounded conversations",
  "The tests flip bits of one message in one state and check only that an error is returned.",
  SESS + ["message/mac.go", "message/signal.go", "message/prekey.go"],
  [("MAC over both identities and the serialized message", "message/mac.go"), ("state is changed on a copy until authenticated", "session/cipher.go")],
  [], ["DecryptMessage result", "store contents"]),
p("C04", "Sessions are established, replaced and converge",
  "Processing an authentic pre-key bundle lets the initiator send at once; its messages carry the session set-up until, and only until, it decrypts a message of that session, and any one of them establishes the session at the receiver. The session used for sending is always the one most recently set up by the device itself or in which it most recently decrypted a message, so that after simultaneous or repeated initiation by both sides one message in each direction brings both to the same session with ordinary messages.",
  ["histories"], "all histories of bundle processing, sending and delivery by both sides up to a depth, each followed by a round trip",
  "The tests script a handful of simultaneous-initiation scenarios.",
  SESS + ["message/prekey.go"],
  [("promotion of the session which decrypted", "session/record.go"), ("pending pre-key data until acknowledged", "session/state.go")],
  [], ["message type", "current session base key"]),
p("C05", "One-time pre-keys are used exactly once",
  "A one-time pre-key is removed exactly when the first message of the session that names it has been decrypted: never by a message that fails, never by a later message of the same session, and no other pre-key is touched. A pre-key message that would set up a new session while naming a one-time or signed pre-key that does not exist (or no longer exists) is answered with an error and changes nothing.",
  ["histories", "inputs"], "all histories of two initiators sharing and not sharing bundles, reordered and replayed set-up messages, failing messages, and pre-key identifiers over the boundary values",
  "The tests check the deletion once, on the success path.",
  ["session/session.go", "session/cipher.go", "prekey/store_inmem.go"],
  [("deletion after the session is stored", "session/cipher.go"), ("pre-key lookup", "session/session.go")],
  [], ["pre-key store contents and calls"]),
p("C06", "Only authentic pre-key bundles start a session",
  "A pre-key bundle is accepted if and only if its identity key is trusted for the address, the signature on its signed pre-key is a valid signature of exactly that key by exactly that identity key, and all key agreements are defined. A bundle that is not accepted is answered with an error, never a crash, and leaves every store as it was.",
  ["inputs", "histories"], "every single-bit alteration of signature, signed pre-key and identity key; swapped, absent, wrong-length and low-order components; in fresh and established states",
  "The tests flip bits of the signature only, in one state, and look only at the error.",
  ["session/session.go", "curve/djb_public.go", "curve/curve25519/curve25519.go"],
  [("trust and signature check precede any change", "session/session.go")],
  [], ["ProcessPreKeyBundle result", "store contents"]),
p("C07", "Identity keys are pinned and enforced",
  "The identity key first used successfully with an address is remembered, and from then on a bundle, an incoming message or an outgoing message that involves a different identity key for that address is refused with an error, releasing neither plaintext nor ciphertext and changing nothing, until the application stores the new key itself. Messages that fail to decrypt never cause an identity key to be remembered, and every operation asks the store about the right address, key and direction.",
  ["histories", "inputs"], "all histories of two identities behind one address: bundles, sends, deliveries of messages under either identity, forged set-up messages, application changes of the pinned key, up to a depth",
  "The tests script one identity change.",
  ["session/session.go", "session/cipher.go", "identity/store_inmem.go"],
  [("trust checks on every path", "session/cipher.go"), ("first-use pinning", "identity/store_inmem.go")],
  [], ["operation results", "identity store calls and contents"]),
p("C08", "A failing store or random source never corrupts a session",
  "If any call to a store or to the random source fails during an operation, at whatever point, the operation returns an error and no plaintext or ciphertext, and does not panic (a random read for trying a session that the message turns out not to belong to does not count). Apart from remembering the identity key the operation has verified, nothing is persisted before the step that persists the session itself, so that repeating a failed operation, or restarting from the persisted state after a crash between any two store calls, either completes it or shows that it had already taken effect, and the conversation continues to work.",
  ["fault_sequences", "crash_points"], "every store or random call of every operation at every reachable state of bounded conversations fails, before or after taking effect, or the process stops there; short reads of the random source included",
  "The tests use stores that never fail.",
  ["session/cipher.go", "session/session.go", "session/group_cipher.go", "session/group_session.go"],
  [("work on a loaded copy, store once at the end", "session/cipher.go")],
  [], ["operation results", "store contents and calls"]),
p("C09", "No message key is ever used twice for sending",
  "No two messages a device ever sends carry the same ratchet key and counter (pairwise) or the same chain and iteration (group), counters increase by exactly one from zero within a chain, and the key a message is encrypted under is never used for another message. This includes operations that fail part way and are repeated, and devices restarted from their persisted state.",
  ["histories", "fault_sequences"], "all histories of sends, deliveries, new sessions, failing stores and restarts up to a depth, for pairwise and group sessions",
  "The tests never compare the headers of messages, nor fail or restart a sender.",
  ["session/cipher.go", "session/group_cipher.go", "session/state.go", "ratchet/keys.go", "senderkey/keys.go"],
  [("the advanced chain is stored before the message is released", "session/cipher.go")],
  [], ["message headers"]),
p("C10", "Group messages reach every member exactly",
  "Every group message decrypts, the first time it is delivered to a member who had processed a distribution of its chain made at or before that message, to exactly the bytes that were encrypted, whatever the order, delay or loss of other messages and distributions. Members who have no such distribution get an error and nothing else.",
  ["histories", "inputs"], "all interleavings of group sends, distributions at any iteration, re-sent distributions, new chains and reordered deliveries to several members, up to a depth; a grid of plaintext lengths",
  "The tests script a few in-order and one shuffled run with one or two receivers.",
  GRP + ["senderkey/keys.go", "message/senderkey.go"],
  [("sender chain and skipped message keys", "session/group_cipher.go")],
  [], ["DecryptMessage result"]),
p("C11", "A group message is accepted at most once per member",
  "Once a member has decrypted a group message, delivering it again is answered with an error and changes nothing, at every later point. Processing the same or an older distribution of a chain again never rewinds it: it makes no consumed message acceptable and no pending message unreadable.",
  ["histories"], "every reachable state of the bounded group conversation, every consumed message and every distribution ever made",
  "The tests replay one message once.",
  GRP, [("message keys removed on use", "session/group_state.go"), ("existing state wins for a known chain", "session/group_record.go")],
  [], ["DecryptMessage result", "store contents"]),
p("C12", "Only the group sender can produce group messages",
  "A group message is accepted only if it carries a valid signature, by the signing key of its chain as distributed by the sender it is attributed to, over its exact bytes. Any alteration, truncation, signature by another key (including another member who knows the chain key), or attribution to another sender, group or chain is answered with an error, changes nothing, and does not prevent the genuine message from being decrypted.",
  ["inputs", "histories"], "every single-bit flip and truncation, re-signing by members and outsiders, splices, re-attribution, for every message at every reachable state of bounded group conversations",
  "The tests corrupt one message in one state.",
  ["session/group_cipher.go", "message/senderkey.go", "curve/curve25519/curve25519.go"],
  [("signature verified before any state is used", "session/group_cipher.go")],
  [], ["DecryptMessage result", "store contents"]),
p("C13", "Retention limits are exact",
  "A receiver accepts a message that skips up to 25,000 positions ahead in its chain and refuses one further ahead without side effects (a session with oneself is exempt); it can still read the 2,000 most recently skipped messages of a chain, messages of the 5 most recent incoming chains, and messages of the current and the 40 most recently archived sessions (5 most recent chains of a group sender), and nothing older. Stored state therefore stays bounded in every history.",
  ["inputs", "histories"], "every boundary value minus one, exact and plus one of each limit, alone and combined, with every skipped or archived position probed",
  "The tests cover the jump limit once on each side and the number of archived states not at all.",
  ["session/cipher.go", "session/state.go", "session/record.go", "session/group_cipher.go", "session/group_state.go", "session/group_record.go"],
  [("eviction of the oldest entry", "session/state.go")],
  [], ["DecryptMessage result", "size of stored state"]),
p("C14", "Untrusted and stored bytes never crash the library",
  "Every decoder of messages, keys, identifiers, fingerprints and stored sessions, and every operation on what was decoded, returns a value or an error for every byte string; none panics, hangs or exhausts memory.",
  ["inputs"], "all short byte strings, every truncation, byte alteration and length-field alteration of valid encodings, all combinations of absent, empty, short, long, duplicated and boundary field values, followed by every operation that accepts the result in fresh and established states",
  "The tests decode only bytes the library produced itself.",
  ["message/signal.go", "message/prekey.go", "message/senderkey.go", "message/plaintext.go", "session/record.go", "curve/public.go", "curve/private.go", "fingerprint/scannable.go", "distribution/id.go", "curve/curve25519/curve25519.go"],
  [("length and field checks", "message/signal.go")],
  [], ["decoder result"]),
p("C15", "Messages survive encoding unchanged",
  "For every message, decoding its encoding yields a message with the same type, version, identifiers (an absent optional identifier stays absent and differs from zero), counters, keys and content, whose encoding and authentication are those of the original. Different field values never produce the same encoding. Bytes of another protocol version or message format, or whose keys or identifiers cannot be ones, are refused.",
  ["inputs"], "the full cross product of boundary values of every field of all five message kinds and of all 5 kinds of key and identifier, every first byte, every wrong length of every key",
  "The tests round-trip one instance of each message.",
  ["message/signal.go", "message/prekey.go", "message/senderkey.go", "message/plaintext.go", "curve/public.go", "distribution/id.go", "identity/keys.go"],
  [("field mapping in constructors and decoders", "message/prekey.go")],
  [], ["accessors", "encodings"]),
p("C16", "Curve keys, agreement and signatures are correct",
  "Keys derived from any 32 bytes, shared secrets for any pair of keys, and signatures agree with the X25519 and XEd25519 specifications: both sides compute the same secret, low-order public keys are refused, each signature verifies for exactly the key and exactly the concatenation of message parts it was made for, and nothing else verifies. Equality, encoding and copies of keys are consistent with their bytes.",
  ["inputs"], "all edge-case keys (clamping bits, low-order and non-canonical points, both signs) crossed with messages of all lengths of a grid and all splits of them; every single-bit alteration of signature, key and message; compared with an independent implementation",
  "The tests use one vector per function and random keys.",
  ["curve/curve25519/curve25519.go", "curve/curve25519/util.go", "curve/djb_private.go", "curve/djb_public.go", "curve/pair.go", "curve/public.go", "curve/private.go"],
  [("XEdDSA conversion of Montgomery keys", "curve/curve25519/util.go")],
  [], ["results of key operations"]),
p("C17", "Content encryption is an exact inverse pair",
  "For every 16-, 24- or 32-byte key, 16-byte initialisation vector and plaintext of any length, decryption of the encryption returns the plaintext, and the ciphertext equals AES-CBC with PKCS #7 padding. Every ciphertext that is not the encryption of some plaintext (wrong length, any malformed padding) and every key or vector of another length is answered with an error.",
  ["inputs"], "all plaintext lengths of a grid; all final blocks by padding length and position of the first wrong padding byte and its value; all key and vector lengths 0 to 64",
  "The tests check a few vectors and one malformed padding.",
  ["crypto/aes/aes.go"], [("PKCS #7 padding and its verification", "crypto/aes/aes.go")],
  [], ["CBCEncrypt and CBCDecrypt results"]),
p("C18", "Safety numbers and QR codes identify the pair exactly",
  "Two users who hold the same identities compute the same 60-digit safety number and accept each other's QR code, and the values equal the published algorithm for every permitted iteration count. Any difference in an identity key, user identifier, iteration count or version leads to a different number or a refused code; malformed codes and iteration counts outside 2 to 1,000,000 are answered with an error.",
  ["inputs"], "all pairs of a grid of identities and identifiers in both roles, all iteration counts at the boundaries, every single-bit alteration of key, identifier and code, compared with an independent implementation",
  "The tests use one pair of identities.",
  ["fingerprint/fingerprint.go", "fingerprint/displayable.go", "fingerprint/scannable.go", "fingerprint/encode.go"],
  [("iterated hash and digit encoding", "fingerprint/encode.go")],
  [], ["String, Bytes and Compare results"]),
p("C19", "Pairwise traffic follows the Signal protocol",
  "A device using this library interoperates in both roles with an independent implementation of X3DH and the Double Ratchet as specified for Signal (version 3): every message either side produces, in any order of exchange, is decrypted by the other to the plaintext, and every header field (version, identifiers, ratchet key, counter, previous counter) has the specified value.",
  ["histories", "inputs"], "all interleavings of sends and reordered deliveries between the library and the reference implementation up to a depth, in both roles, with and without one-time pre-keys",
  "The tests only let the library talk to itself, which cannot notice a change made on both sides.",
  SESS + ["ratchet/keys.go", "ratchet/ratchet.go", "message/mac.go"],
  [("key derivation labels and order", "ratchet/keys.go")],
  [], ["wire bytes"]),
p("C20", "Conversations are isolated from one another",
  "An operation for one address (name and device), or one group sender and distribution, reads and changes only the stored state of exactly that address or sender and distribution, even when names, devices or identifiers are similar. A message of an established session is accepted only from the address of that session, and a group message only for the sender and distribution it was encrypted for. (A message that sets up a session proves an identity key, not an address.)",
  ["histories", "inputs"], "all interleavings of operations of several conversations with confusable addresses up to a depth; every message offered in every other conversation at every state",
  "The tests use one conversation per store.",
  ["session/store_inmem.go", "session/cipher.go", "session/group_cipher.go", "address/address.go", "distribution/id.go", "identity/store_inmem.go"],
  [("stores keyed by the whole address", "session/store_inmem.go")],
  [], ["store calls and contents"]),
p("C21", "Independent conversations may run concurrently",
  "When the stores are safe for concurrent use, operations of different conversations may run at the same time: under every interleaving of their store and random calls, each has the same result, messages and stored state as when run alone, and there is no data race inside the library.",
  ["schedules"], "all interleavings of the store and random calls of up to three concurrent operations of every kind; plus the same pairs running freely under the race detector",
  "The tests are single-threaded.",
  ["session/cipher.go", "session/session.go", "session/group_cipher.go", "session/group_session.go"],
  [("no shared mutable state between sessions", "session/session.go")],
  [], ["operation results", "store contents"]),
p("C22", "Caller data is never modified and results are independent",
  "No operation writes to a buffer, key, message or identifier the caller passed in, nor to memory beyond the length of a passed slice. Values the library returned earlier (plaintexts, messages, keys) do not change through later operations, and changing a buffer that was passed to an operation afterwards does not change what was stored, nor does writing to the bytes returned for a curve, identity or pre-key key change that key.",
  ["inputs", "histories"], "every operation with buffers of every capacity and alignment of a grid, guarded by canaries, and every later operation of bounded histories",
  "The tests never look at the spare capacity of a buffer or at earlier results.",
  ["crypto/aes/aes.go", "session/cipher.go", "session/state.go", "curve/djb_public.go", "curve/curve25519/curve25519.go", "session/group_state.go", "session/store_inmem.go"],
  [("copies at the API boundary", "curve/djb_public.go")],
  [], ["caller buffers"]),
p("C23", "The bundled stores behave like maps",
  "The in-memory stores return exactly what was last stored under exactly that key, report absent entries as absent without an error, remove only what was deleted, and report an identity as replaced exactly when a different key was stored for the address before; the identity store trusts exactly the stored key, or any key if none is stored. Changing a record that was loaded has no effect until it is stored.",
  ["histories"], "all sequences of store operations over a small universe of confusable keys and values up to a depth, against a map",
  "The tests use the stores only through conversations.",
  ["session/store_inmem.go", "prekey/store_inmem.go", "identity/store_inmem.go", "protocol/store_inmem.go"],
  [("maps keyed by value types", "session/store_inmem.go")],
  [], ["store results"]),
p("C24", "Consumed keys are erased from stored state",
  "Long-term identity and signed pre-keys aside: after a message has been decrypted, neither its message key nor any key from which it can be derived is contained in the receiver's stored state; after it has been sent, the same holds for the sender, and a used one-time pre-key and replaced ratchet private keys are gone too. This holds for pairwise and group messages at every point of every history.",
  ["histories"], "every reachable state of bounded conversations: the stored bytes are searched for every key of every consumed message, computed by a reference implementation, and the stored state is used to try to read recorded traffic",
  "The tests never inspect stored state.",
  ["session/cipher.go", "session/state.go", "session/group_cipher.go", "session/group_state.go", "session/record.go"],
  [("one-way chains advanced past consumed keys", "session/cipher.go")],
  [], ["stored state bytes"]),
p("C25", "Sessions survive being saved and restored",
  "At any point of a conversation a device may serialise its current session and continue from the deserialised copy, any number of times: everything that was readable and sendable before is so afterwards, with the same results as without the interruption, and everything that was refused still is.",
  ["crash_points", "histories"], "all histories of bounded conversations with a save and restore of either side at every point",
  "The tests never serialise a session.",
  ["session/record.go", "session/state.go"],
  [("complete state in the serialised structure", "session/state.go")],
  [], ["operation results"]),
p("C26", "Secrets never appear in logs or errors",
  "Neither log output nor any error text contains plaintext, private keys, shared secrets, root, chain or message keys, in raw, hexadecimal, base64 or decimal form, for any operation, successful or failing.",
  ["histories", "inputs"], "the whole log output and every error of all operations in all histories of bounded conversations, with all failures the other checks provoke",
  "The tests do not read the log.",
  ["session/cipher.go", "session/session.go", "session/group_session.go", "session/group_cipher.go", "message/signal.go", "perrors/errors.go"],
  [("logging of addresses, identifiers and counters only", "session/cipher.go")],
  [], ["log output", "error texts"]),
p("C27", "Group traffic follows the sender-key protocol",
  "A group sender or member using this library interoperates with an independent implementation of the sender-key protocol: every distribution and message either side produces, at any iteration and in any order, is accepted by the other and decrypts to the plaintext, and every header field has the specified value.",
  ["histories", "inputs"], "all interleavings of distributions, sends and reordered deliveries between the library and the reference implementation up to a depth, in both roles",
  "The tests only let the library talk to itself.",
  GRP + ["senderkey/keys.go", "message/senderkey.go"],
  [("key derivation labels", "senderkey/keys.go")],
  [], ["wire bytes"]),
p("C28", "Alternate-identity signatures bind exactly two identities",
  "A signature made by an identity for an alternate identity verifies for exactly that pair of identities in exactly that order, and nothing else verifies: not any altered signature, not a signature for another key, and not a signature the identity made for any other purpose, such as its signed pre-key.",
  ["inputs"], "all ordered pairs of a set of identities, all single-bit alterations of signature and keys, all other signatures of the protocol",
  "The tests use one pair and one swapped pair.",
  ["identity/keys.go", "curve/curve25519/curve25519.go"],
  [("domain-separating prefix", "identity/keys.go")],
  [], ["VerifyAlternateIdentity result"]),
p("C29", "Archived sessions stop sending but still receive",
  "After the application archives the current session, sending is refused with an error until a new session is set up or a message is decrypted in an archived one, which makes that session current again. Messages of archived sessions that were not consumed remain readable, consumed ones stay refused, and archiving when there is no current session changes nothing.",
  ["histories"], "all histories of archiving, sending, deliveries and new sessions up to a depth, against a model",
  "The tests never archive explicitly.",
  ["session/record.go", "session/cipher.go"],
  [("archive list and promotion", "session/record.go")],
  [], ["operation results", "current session"]),
p("C30", "Conversations heal after their state is stolen",
  "Each session set-up, and each change of direction of a conversation, uses new keys made from fresh randomness of the source the device was given. Whoever copied all stored state of one device at any point, and sees all later traffic, cannot read messages sent after that device has made a new ratchet key and the other device has answered it.",
  ["histories"], "every reachable state of bounded conversations as the point of theft, every continuation up to a depth, with the stolen copy used to read all later traffic",
  "The tests do not model an attacker, and never compare ratchet keys or the use of the random source.",
  ["session/cipher.go", "ratchet/keys.go", "curve/pair.go"],
  [("fresh ratchet key pair on each new incoming chain", "session/cipher.go")],
  [], ["message headers", "decryption attempts with stolen state"]),
p("C31", "Errors say what happened",
  "The application can tell refusals apart. Every operation refused because the identity key involved is not trusted for the address fails with an error that perrors.IsErrUntrustedIdentity recognises; a message that was decrypted before fails, while its session and chain are retained, with perrors.ErrDuplicateMessage; sending without a current session, or receiving an ordinary message when there is no session at all, fails with perrors.ErrSessionNotFound of that address; an error of a store is returned so that errors.Is recognises it, and so is one of the random source (except during decryption). A refusal for another reason is never reported as an untrusted identity, nor is that of a readable message never decrypted before, or of an altered copy of one, reported as a duplicate.",
  ["histories", "faults"], "every reachable state of bounded pairwise and group conversations, under several trust policies, with every message offered again, altered, and from an untrusted identity, and every store and random call failing once",
  "The tests check that errors occur, hardly ever which ones, and never over histories.",
  ["perrors/errors.go", "session/session.go", "session/cipher.go", "session/group_cipher.go", "session/record.go"],
  [("typed and sentinel errors", "perrors/errors.go")],
  [], ["returned errors"]),
p("C32", "The caller's context governs every store call",
  "Every call that an operation makes to a store is given the context of that operation or one derived from it: it carries its values and its deadline, and ends when, and not before, the operation's context ends. This holds for every operation in every state, accepted or refused, and when a session object is used again with another context. If the context ends while the operation runs and the stores then refuse their calls with its error, the operation returns no plaintext or ciphertext but an error for which errors.Is recognises that of the context, persists nothing before the session, and succeeds when repeated with a live context. Otherwise results do not depend on the context.",
  ["histories", "faults"], "every operation in every reachable state of bounded pairwise and group conversations, with its context ending before each of its store calls, by cancellation and by deadline",
  "The tests use context.Background() throughout.",
  ["session/session.go", "session/cipher.go", "session/group_cipher.go", "session/group_session.go"],
  [("contexts passed to the stores", "session/cipher.go")],
  [], ["contexts received by the stores", "returned errors"]),
p("C33", "Session and group records report the conversation truthfully",
  "What the session record of an address reports equals the history of the conversation at every point: whether there is a current session and which one, the archived sessions from the oldest to the newest, whether it has the session of a given version and base key, both identity keys, the unacknowledged set-up with its identifiers, and the root, chain, message and ratchet keys specified for that history; likewise the chains and message keys of a group record. The operations on records and states (set, promote, promote an archived session by its index, archive, save and restore; add, look up and remove states, chains and message keys) have exactly the effect of the same operations on lists bounded by the retention limits, from which the oldest entry is dropped: message keys are removed when they are taken and nothing else is, an index, chain or key that does not exist changes nothing, and the states returned for archived sessions are copies.",
  ["histories"], "every reachable state of bounded conversations against models of sessions and keys, and every sequence of record and state operations to a depth, from empty ones and from ones filled up to their limits",
  "The tests look at a few records after a fixed exchange; most record operations are never called by them.",
  ["session/record.go", "session/state.go", "session/group_record.go", "session/group_state.go"],
  [("record and state containers", "session/record.go")],
  [], ["record and state accessors"]),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for o in OUT:
        f.write(json.dumps(o) + "\n")
print(len(OUT), "properties")

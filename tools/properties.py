#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py > properties.jsonl)."""
import json

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

# ------------------------------------------------------------------ codec
prop("C01", "BER framing: tags and lengths are exact and invertible",
 "Encoding any tag and payload yields exactly the BER identifier octets, the shortest definite length, and the payload; decoding that encoding, alone or followed by other bytes, gives back the same tag, payload and leftover bytes. Every truncation, every unexpected tag, and trailing bytes that the caller did not ask to keep are reported as a parse error.",
 ["inputs"], "all tag classes, tag numbers (including multi-byte), constructed bits, payload lengths (including multi-byte lengths), trailing bytes, truncation points, and sub-views of a larger buffer",
 "test/ber.py fixes about twenty hand-written encodings; a slip at a length or tag-number boundary, or in a sub-view, passes all of them.",
 ["snmp/ber.py", "snmp/utils.py"],
 [("Tag.encode / Tag.decode", "snmp/ber.py"), ("encode_length / decode_length", "snmp/ber.py"), ("decode / encode", "snmp/ber.py")],
 ["snmp.ber.encode", "snmp.ber.decode", "snmp.ber.Tag"])

prop("C02", "SMI values survive encode/decode and use the canonical wire form",
 "Every value of every SNMP data type (integers, counters, gauges, time ticks, octet strings, IP addresses, opaque data, null, object identifiers and the three v2 exception markers) encodes to the one canonical BER form that RFC 2578/3416 assigns to it, and decoding that form with the same type yields an equal value of that type. Distinct values never share an encoding (object identifiers of fewer than two arcs, which have no encoding of their own, are sent with the missing arcs as zero).",
 ["inputs"], "all in-range values of all thirteen types, with emphasis on powers of two, sign boundaries and long object identifiers",
 "test/smi.py and test/asn1.py check a few literals per type; neither covers, for example, object identifiers whose second arc is not 3, 6 or 0.",
 ["snmp/asn1.py", "snmp/smi.py", "snmp/pdu.py"],
 [("INTEGER.serialize/deserialize", "snmp/asn1.py"), ("OBJECT_IDENTIFIER.serialize/deserialize", "snmp/asn1.py"), ("IpAddress", "snmp/smi.py")],
 ["X.encode()", "X.decode()"])

prop("C03", "Range limits are enforced on construction and on decoding",
 "A bounded type can be constructed with a value exactly when the value is in the range the SMI gives it (32/64-bit signed or unsigned, at most 65535 octets, a valid IPv4 address, at most 128 sub-identifiers of at most 32 bits, first arc at most 2 and second at most 39); otherwise construction raises ValueError. Decoding a well-formed encoding of an out-of-range value raises a parse error, and never yields a wrapped or truncated value.",
 ["inputs"], "values inside, on and outside each bound, given to the constructor or on the wire (including over-long integer encodings)",
 "The tests probe single points next to some bounds, not all types, not both directions, and not over-long wire encodings.",
 ["snmp/smi.py", "snmp/asn1.py"],
 [("BoundedInteger.inRange/construct", "snmp/smi.py"), ("OctetString.check", "snmp/smi.py"), ("OID.__init__", "snmp/smi.py"), ("OBJECT_IDENTIFIER.__init__/construct", "snmp/asn1.py")],
 ["constructors", "X.decode()"])

prop("C04", "Decoding arbitrary bytes never fails with anything but a parse error",
 "Decoding any byte string as any SNMP data type, variable binding, PDU or message either yields the value that those bytes denote under BER, or raises the library's incoming-message error (a parse error, or an unknown-version error); no other exception ever escapes. Input whose identifier, length or contents are inconsistent (truncated, over-running its container, trailing bytes, unterminated sub-identifiers, wrong field types, unknown value types, invalid error-status, negative bulk counts) is never accepted.",
 ["inputs"], "arbitrary byte strings and structured mutations of valid encodings at any nesting depth",
 "The tests list a handful of malformed strings per type; a remote peer can send any byte string, and an unexpected exception type or a wrong value would go unnoticed.",
 ["snmp/ber.py", "snmp/asn1.py", "snmp/smi.py", "snmp/pdu.py", "snmp/message/core.py", "snmp/message/v3.py", "snmp/message/version.py", "snmp/security/usm/parameters.py"],
 [("decode", "snmp/ber.py"), ("deserialize methods", "snmp/*"), ("Message.decode", "snmp/message/core.py"), ("SNMPv3Message.decode", "snmp/message/v3.py")],
 ["X.decode()"])

prop("C05", "PDUs and messages round-trip and have the RFC wire layout",
 "Encoding any PDU, community message or v3 message (header, security parameters, scoped PDU) produces exactly the field sequence RFC 1157/1901/3412/3414/3416 prescribe, and decoding it restores every field, including each variable binding in order, request and message ids, flags, engine ids, context and error/bulk fields. A decoder that is told which versions or PDU types are acceptable rejects all others.",
 ["inputs"], "all nine PDU kinds, 0..n variable bindings of all value types, all header fields over their legal ranges, all flag combinations, plain and encrypted payloads",
 "Tests decode and encode a few fixed messages; field swaps that matter only for particular combinations of values, flags or lengths are not sampled.",
 ["snmp/pdu.py", "snmp/message/core.py", "snmp/message/v3.py", "snmp/message/version.py", "snmp/security/usm/parameters.py"],
 [("PDU/BulkPDU serialize+deserialize", "snmp/pdu.py"), ("Message", "snmp/message/core.py"), ("SNMPv3Message, HeaderData, MessageFlags, ScopedPDU", "snmp/message/v3.py"), ("UsmSecurityParameters", "snmp/security/usm/parameters.py")],
 ["encode()/decode() of PDU and message classes"])

prop("C06", "Object identifiers obey the algebra of integer sequences",
 "Object identifiers behave as immutable sequences of integers: parsing the dotted text form (with or without a leading dot) inverts formatting, equality and hashing agree with the sequence, ordering is lexicographic, indexing and slicing match the sequence, extending appends, and prefix testing is true exactly for sequence prefixes. Text that is not a dotted list of valid sub-identifiers is rejected with ValueError.",
 ["inputs"], "pairs and triples of object identifiers sharing prefixes of any length, and arbitrary text",
 "The tests try a few fixed identifiers; ordering and prefix laws are relations over all pairs.",
 ["snmp/asn1.py", "snmp/smi.py"],
 [("OBJECT_IDENTIFIER", "snmp/asn1.py"), ("OID", "snmp/smi.py")],
 ["OID.parse", "str", "==", "<", "hash", "extend", "startswith"])

prop("C07", "Table index encoding and decoding are inverse",
 "Appending any list of index values to an object identifier and decoding the index with the same types, prefix and implied flag returns equal values, and the appended sub-identifiers are those RFC 2578 section 7.7 prescribes. Decoding an index that does not start with the prefix, is incomplete, has leftovers, or contains sub-identifiers invalid for the field type raises the library's documented index errors and nothing else.",
 ["inputs"], "lists of integer, string, address and identifier index values with and without the implied flag, and arbitrary identifiers decoded with arbitrary index types",
 "The tests cover a few fixed index layouts and error cases; the inverse law over mixed field types and malformed indices is not sampled.",
 ["snmp/asn1.py", "snmp/smi.py"],
 [("withIndex / decodeIndex / getIndex", "snmp/asn1.py, snmp/smi.py"), ("asOID / fromOID", "snmp/asn1.py")],
 ["OID.withIndex", "OID.decodeIndex", "OID.getIndex"])

prop("C08", "A zero-copy byte view equals the corresponding bytes slice",
 "A view created over a byte string with any start and stop, or over another view, nested to any depth, is indistinguishable from the equivalent bytes slice: same length, truth value, equality, iteration, indexing (including negative and out-of-range), slicing, splitting, and advancing. Replacing the view's bytes yields the underlying string with exactly that range substituted.",
 ["inputs"], "all buffers, nested (start, stop) pairs including negative, reversed and out-of-range values, and all index/slice expressions with any step",
 "test/utils.py fixes particular offsets; the equivalence must hold for every nesting and offset because all decoding rests on it.",
 ["snmp/utils.py"],
 [("subbytes", "snmp/utils.py"), ("subbytes.translate", "snmp/utils.py")],
 ["snmp.utils.subbytes"])

prop("C09", "Identifier generation never repeats within a full cycle",
 "For any bit width and signedness, the number generator produces every n-bit integer exactly once before repeating, with zero last. Request ids and message ids drawn from it are therefore non-zero, in range for the wire format, and distinct while earlier ones are outstanding.",
 ["inputs", "histories"], "all widths, both signednesses, every random starting step, and long runs for the 31/32-bit widths",
 "The tests use three small widths and one random step each.",
 ["snmp/utils.py", "snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/v3.py"],
 [("NumberGenerator", "snmp/utils.py")],
 ["snmp.utils.NumberGenerator"])

prop("C10", "The printed representation of a value evaluates back to it",
 "For every data value, variable binding, variable binding list, PDU, scoped PDU and message (with its header, flags and USM parameters), evaluating its representation gives an equal object of the same type, and its text form can be produced without error and is an outline: a heading, then each field and each variable binding on a line of its own, in order, one level deeper than the object it belongs to. Equality is reflexive, symmetric, and distinguishes values that differ in type or in any field.",
 ["inputs"], "all data types, variable bindings, PDUs and messages, including those produced by decoding",
 "Tests check eval(repr(x)) for a handful of objects.",
 ["snmp/asn1.py", "snmp/smi.py", "snmp/pdu.py", "snmp/message/core.py", "snmp/message/v3.py", "snmp/security/usm/parameters.py", "snmp/utils.py"],
 [("__repr__ / __str__ / __eq__", "snmp/asn1.py, snmp/smi.py, snmp/pdu.py")],
 ["repr", "str", "=="])

# ------------------------------------------------------------------ security
prop("S01", "Key derivation and message digests follow RFC 3414/7860",
 "For each of the six authentication protocols, the key derived from any password, its localization to any engine id, and the digest of any message under any key equal the values RFC 3414 appendix A and RFC 7860 define, with the prescribed digest length. Localized authentication and privacy keys given to users are derived the same way, including when only one shared secret is supplied.",
 ["inputs"], "all passwords (any length relative to 2^20 and 64), engine ids and messages, six protocols",
 "Tests check the RFC vectors for two passwords; password lengths that do not divide 2^20, other engine ids and other protocols are not sampled.",
 ["snmp/security/usm/auth.py", "snmp/security/usm/__init__.py", "snmp/security/usm/credentials.py"],
 [("computeKey / localize / sign", "snmp/security/usm/auth.py, snmp/security/usm/__init__.py"), ("Credentials.localize", "snmp/security/usm/credentials.py")],
 ["AuthProtocol classes", "signed outgoing messages"])

prop("S02", "Encryption is reversible, interoperable and never reuses a salt",
 "For AES-128 and DES, on every available cryptographic backend, decrypting what was encrypted under the same key, engine boots and engine time returns the plaintext (DES may append padding up to the block size), and the ciphertext is exactly what RFC 3414/3826 define for the emitted 8-byte salt. No two encryptions under one key use the same salt, and ciphertext or salt of an invalid length is rejected with the library's decryption error.",
 ["inputs", "histories", "configurations"], "all keys, plaintext lengths, boots/time values, sequences of encryptions, malformed ciphertext and salts, both backends",
 "Tests check one fixed vector per algorithm; whole-range lengths, salt sequences and cross-backend agreement are not sampled (one backend test even fails at baseline).",
 ["snmp/security/usm/priv/pycryptodome/aes.py", "snmp/security/usm/priv/pycryptodome/des.py", "snmp/security/usm/priv/openssl/aes.py", "snmp/security/usm/priv/openssl/des.py", "snmp/security/usm/priv/openssl/__init__.py", "snmp/security/usm/priv/__init__.py"],
 [("encrypt/decrypt", "snmp/security/usm/priv/*"), ("salt counter", "snmp/security/usm/priv/*")],
 ["encrypt", "decrypt"])

prop("S03", "Outgoing v3 messages get exactly the protection that was requested",
 "A message prepared at a security level carries precisely that level's flags, and an independent RFC 3414 implementation holding the user's passwords accepts it: the digest verifies over the whole message, the ciphertext decrypts to the original scoped PDU, and the engine id, user name, boots and time are the ones for the target engine. At the encrypted level no scoped-PDU content appears in clear, and asking for a level the user's credentials cannot provide, or naming an unknown user at an authenticated level, raises an error rather than sending with less protection.",
 ["inputs", "configurations"], "all users, protocol combinations, security levels, engines, PDUs and clock states",
 "Tests check a few fixed messages; field position errors that depend on lengths (e.g. digest at different offsets) or on configuration are not sampled.",
 ["snmp/security/usm/implementation.py", "snmp/security/usm/parameters.py", "snmp/security/usm/credentials.py", "snmp/security/usm/users.py"],
 [("prepareOutgoing", "snmp/security/usm/implementation.py"), ("signatureIndex/replace", "snmp/security/usm/parameters.py")],
 ["UserBasedSecurityModule.prepareOutgoing"])

prop("S04", "No altered or unauthenticated message passes as authenticated",
 "An incoming message is delivered at an authenticated level only if its digest is the correct one for the claimed user and engine over the exact bytes received, and at the encrypted level only with the plaintext the sender encrypted; any change to any byte of an authenticated message makes it be rejected or delivered without authentication. A message rejected as not authentic changes no clock or user state, so a valid message is accepted before it exactly when it is accepted after it.",
 ["inputs", "histories"], "all valid messages at all levels and all single or multiple byte mutations, truncations, field substitutions and flag downgrades, interleaved with valid traffic",
 "Tests flip a few fields of one or two fixed messages.",
 ["snmp/security/usm/implementation.py", "snmp/security/usm/parameters.py", "snmp/security/usm/timekeeper.py", "snmp/security/usm/users.py"],
 [("processIncoming", "snmp/security/usm/implementation.py"), ("updateAndVerify", "snmp/security/usm/timekeeper.py")],
 ["UserBasedSecurityModule.processIncoming"])

prop("S05", "The clock model rejects replays outside the 150-second window",
 "For each engine the tracked boots and time follow RFC 3414 section 3.2(7): authentic messages with newer boots or time advance the clock, messages with older boots, with boots at the maximum, or more than 150 seconds behind are rejected, and unauthenticated hints never override an authenticated clock or move it. The boots and time put in outgoing messages equal the tracked values plus elapsed local time, always within the wire range.",
 ["histories"], "all sequences of hints, authentic updates, and elapsed time over several engines, including boundary values 150/151 seconds and 2^31-1",
 "The tests exercise about twenty fixed sequences; clock state depends on the entire history.",
 ["snmp/security/usm/timekeeper.py", "snmp/security/usm/implementation.py"],
 [("TimeKeeper", "snmp/security/usm/timekeeper.py"), ("EngineTimeRecord", "snmp/security/usm/timekeeper.py")],
 ["TimeKeeper.hint/getEngineTime/updateAndVerify", "processIncoming"])

prop("S06", "Users, namespaces and remote engines stay isolated",
 "After any sequence of adding users, registering and unregistering remote engines, the credentials used for an engine are exactly those configured for that user in that engine's namespace, the default user is the configured or first one of the namespace, and the default level is the highest the credentials support unless configured lower. Invalid combinations (duplicate user, unknown namespace or user, missing secrets, a default level above what the credentials allow, re-assigning an engine to another namespace) are rejected and leave the configuration unchanged.",
 ["histories", "configurations"], "all sequences of configuration operations over several users, namespaces and engines",
 "Tests cover single operations in fixed orders; cross-user and cross-namespace interference needs histories.",
 ["snmp/security/usm/users.py", "snmp/security/usm/credentials.py", "snmp/security/usm/implementation.py"],
 [("UserRegistry / NamespaceConfig", "snmp/security/usm/users.py"), ("Credentials", "snmp/security/usm/credentials.py")],
 ["UserBasedSecurityModule.addUser/getDefaultUser/registerRemoteEngine/unregisterRemoteEngine", "prepareOutgoing"])

# ------------------------------------------------------------------ messaging
prop("M01", "v1/v2c responses reach only the request that caused them",
 "An incoming community message is matched to a pending request only when it has that protocol version, the request id of that pending request, and that request's community; anything else is rejected with an error and disturbs nothing. Pending request ids are distinct and non-zero, a retransmission keeps its request id, and a request that is dropped or completed never matches again.",
 ["histories", "inputs"], "all sequences of sends, retransmissions, drops, and responses (valid, wrong id, wrong community, wrong version) over many pending requests",
 "Tests check one or two pending requests with fixed ids.",
 ["snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/core.py"],
 [("SNMPv1MessageProcessor", "snmp/message/v1.py"), ("SNMPv2cMessageProcessor", "snmp/message/v2c.py")],
 ["prepareOutgoingMessage / prepareDataElements"])

prop("M02", "v3 responses reach only the request that caused them",
 "An incoming v3 response is matched to a pending request only when its message id, security name, security level (at least the requested one, reports excepted), engine id and context (reports excepted) agree with that request; anything else is rejected with an error and leaves every pending request able to receive its real response. Message ids of pending requests are distinct, non-zero and within 31 bits, and each outgoing message states the configured maximum size and reportable flag for confirmed requests.",
 ["histories", "inputs"], "all sequences of sends at all levels and responses that agree or differ in each matched field, over many pending requests and users",
 "Tests check single fixed mismatches one at a time.",
 ["snmp/message/v3.py"],
 [("SNMPv3MessageProcessor", "snmp/message/v3.py"), ("CacheEntry", "snmp/message/v3.py")],
 ["SNMPv3MessageProcessor.prepareOutgoingMessage / prepareDataElements"])

prop("M03", "No datagram can stop the listener or affect unrelated requests",
 "Delivering any byte string from any source to the engine never raises out of the receive path, never stops the listening thread's loop, and never completes, fails or delays a pending request it does not answer; a valid response delivered afterwards is still handed to its request.",
 ["inputs", "histories"], "arbitrary datagrams, mutated responses, messages of all versions, interleaved with pending requests of all three versions",
 "There are no dispatcher tests at all; robustness must hold against every possible datagram.",
 ["snmp/dispatcher.py", "snmp/message/__init__.py", "snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/v3.py"],
 [("Dispatcher.hear", "snmp/dispatcher.py"), ("VersionOnlyMessage", "snmp/message/version.py")],
 ["Dispatcher.hear", "Engine/Manager requests"])

# ------------------------------------------------------------------ managers
prop("G01", "A v1/v2c request returns exactly its own response, whatever the network",
 "For any number of concurrent v1 or v2c requests and any loss, duplication, delay and reordering of datagrams, waiting on a request returns the variable bindings of the response to that very request, raises the error the response carries (with the offending binding), or raises a timeout; never the data of another request, of another agent, of a message with a different community or version, or of a late reply to a different request. A response that arrives before the deadline is always returned, even if the caller collects it afterwards or repeatedly.",
 ["schedules", "fault_sequences", "inputs"], "all workloads of get/getNext/getBulk/set over several managers and all schedules of delivery, loss, duplication, forgery and waiting order",
 "The repository has no manager tests at all.",
 ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/dispatcher.py", "snmp/engine.py"],
 [("Request / RequestHandle", "snmp/manager/v1.py, snmp/manager/v2c.py"), ("Dispatcher.sendPdu/hear", "snmp/dispatcher.py")],
 ["Manager.get/getNext/getBulk/set", "Request.wait"])

prop("G02", "Requests retransmit on schedule and always end by the deadline",
 "An unanswered request is retransmitted once per refresh period while it is being waited on (several missed periods are not made up for with a burst), each copy identical in content, and never after its timeout; waiting ends with a timeout error no earlier than the timeout and never blocks beyond it. An answered request is not transmitted again, and this holds for all three protocol versions.",
 ["schedules", "inputs"], "all timeouts, refresh periods, numbers of concurrent requests, clock advances between any two steps, and response arrival times",
 "There are no tests of timing; the exact-boundary and between-two-instructions cases cannot be reached with a real clock.",
 ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/manager/v3.py"],
 [("Request.wait / refresh / reallySend", "snmp/manager/*.py"), ("ComparableWeakRef heap", "snmp/utils.py")],
 ["Request.wait", "datagrams sent", "clock"])

prop("G03", "v3 requests complete against any conforming agent over a lossy network",
 "Against an RFC 3414 agent, whatever the loss, duplication, delay, and reordering, agent reboots and clock offsets, every v3 request that gets enough deliveries within its timeout completes with that request's own response, after discovering the engine id and synchronizing time as needed. Until the engine id is known only empty unauthenticated discovery messages are sent, and every request PDU is sent with the level, user and engine it was made for.",
 ["schedules", "fault_sequences", "configurations"], "all security levels and protocols, agent boots/time/engine ids, request mixes, delivery schedules, agent restarts",
 "There are no v3 manager tests; the state machine has six states and its transitions depend on message order.",
 ["snmp/manager/v3.py", "snmp/message/v3.py", "snmp/security/usm/implementation.py"],
 [("state machine", "snmp/manager/v3.py"), ("Request", "snmp/manager/v3.py")],
 ["Manager.get/...", "Request.wait", "datagrams sent"])

prop("G04", "Forged traffic cannot complete or abort an authenticated request",
 "An attacker who sees and injects arbitrary datagrams but does not hold the users' keys cannot make a request at an authenticated level return data or raise an immediate error: the request returns the genuine agent's response if that arrives in time, and otherwise fails only at its timeout. This includes forged reports, forged discovery replies after the engine is authenticated, replays of genuine earlier responses, downgraded copies, and responses to other requests. Once the manager was configured with the agent's engine ID, or has accepted an authenticated response from it, no forgery makes it address the first transmission of a later request to another engine.",
 ["fault_sequences", "schedules"], "all injections of forged, replayed, mutated and downgraded datagrams at any point of the exchange",
 "No test injects hostile traffic into the manager.",
 ["snmp/manager/v3.py", "snmp/message/v3.py", "snmp/security/usm/implementation.py"],
 [("RequireAuthentication state", "snmp/manager/v3.py"), ("CacheEntry matching", "snmp/message/v3.py"), ("processIncoming", "snmp/security/usm/implementation.py")],
 ["Request.wait"])

prop("G05", "Agent reports surface as the right error at the right time",
 "A report answering a v3 request becomes the matching exception type (unsupported security level, unknown user, wrong digest, decryption error, or the generic one for other reports): immediately when the report is authenticated, and only at the request's timeout when it is not. A report affects no request other than the one whose message it answers.",
 ["inputs", "schedules"], "all report types, authenticated and not, at all request levels and at any time, with several requests outstanding",
 "No test covers report handling in the manager.",
 ["snmp/manager/v3.py"],
 [("report handling", "snmp/manager/v3.py")],
 ["Request.wait"])

prop("G06", "Engines are bound to one namespace and released when unused",
 "While any manager is using a remote engine, that engine's id stays bound to the manager's user namespace and localized keys; when the last such manager goes away, the binding is released so the engine can be used under another namespace. A manager that finds its agent's engine id already bound to a different namespace does not use it, and no sequence of creating, using and dropping managers and requests leaks bindings or releases one that is still in use.",
 ["histories"], "all sequences of creating and discarding managers, requests and namespaces against one or several agents, including the same agent reached by several managers",
 "No test covers engine registration through managers; the reference counting spans three modules.",
 ["snmp/manager/v3.py", "snmp/security/usm/implementation.py", "snmp/security/usm/users.py"],
 [("registerRemoteEngine/unregisterRemoteEngine", "snmp/security/usm/implementation.py"), ("Manager.__del__ / state onReport", "snmp/manager/v3.py")],
 ["UserBasedSecurityModule", "Manager"])

prop("G07", "Requests carry exactly what the caller and the defaults specify",
 "For every version and operation, the datagram sent contains the operation's PDU type, the given variable bindings in order, bulk parameters, and the explicitly given community, user or security level, else the manager's default, else the engine's default; it goes to the manager's address from the manager's local address. Combinations that cannot be satisfied (unknown version or transport domain, unknown user, unsupported level, invalid values) raise an error at the caller and send nothing at reduced security.",
 ["inputs", "configurations"], "all operations, variable bindings, per-call overrides, manager defaults and engine defaults",
 "The repository has no engine or manager tests; default precedence has many combinations.",
 ["snmp/engine.py", "snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/manager/v3.py"],
 [("Engine.Manager", "snmp/engine.py"), ("get/getNext/getBulk/set", "snmp/manager/*.py")],
 ["Engine.Manager", "datagrams sent"])

# ------------------------------------------------------------------ transport
prop("G08", "Managers of one engine can be used from different threads",
 "When several threads, each with exclusive use of its own managers, use managers of one engine at the same time - while the listening thread runs and the thread that owns the engine adds users and managers - every request behaves as if its thread were alone: it is sent as specified, gets its own response, and blocks no longer than its timeout; no two pending requests share an identifier, no salt is used twice, no user or engine is lost, and no thread ever deadlocks.",
 ["schedules", "histories", "inputs"], "all interleavings of the callers' threads, the listening thread and the engine's thread",
 "The documentation allows one thread per manager; no test runs two threads, and a race needs one particular interleaving.",
 ["snmp/dispatcher.py", "snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/v3.py", "snmp/security/usm/implementation.py", "snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/manager/v3.py"],
 [("Dispatcher", "snmp/dispatcher.py"), ("SNMPv3MessageProcessor.cache", "snmp/message/v3.py"), ("UserBasedSecurityModule", "snmp/security/usm/implementation.py")],
 ["Engine", "Manager", "Request.wait"])

prop("G09", "Requests that have ended leave nothing behind",
 "Whatever became of them - answered once or several times, refused, reported, timed out, waited for, never waited for, or dropped at any moment - requests that have ended keep no identifier, pending entry, queue entry, engine registration or other object alive: what an engine and its managers hold on to is bounded by the requests that are outstanding, and does not grow with the number of requests made or of stray datagrams received from known engines.",
 ["histories", "fault_sequences"], "all workloads of v1, v2c and v3 requests and all network behaviours, repeated indefinitely",
 "A leak of one entry per timed-out or dropped request is invisible in any single exchange, and the repository has no manager tests.",
 ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/manager/v3.py", "snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/v3.py", "snmp/security/usm/implementation.py", "snmp/security/usm/users.py", "snmp/dispatcher.py"],
 [("Request.close / RequestMessage.close", "snmp/manager/*.py"), ("MessageProcessor.uncache", "snmp/message/*.py"), ("manager.refresh (queue)", "snmp/manager/*.py")],
 ["Engine", "Manager", "Request"])

prop("G10", "An interrupted wait ends at once and harms nothing else",
 "When a KeyboardInterrupt arrives while a caller is blocked waiting for a request (in the call itself or in wait()), the call ends at that moment with KeyboardInterrupt - or, for a v3 request about which an error report has already arrived, with that report's exception. No other request is affected: each still returns its own response if that arrives in time, is retransmitted on schedule, and ends by its deadline. A v1 or v2c request can be waited for again without losing its response; a v3 request that is waited for again returns its own response or fails no earlier and no later than its deadline. Later requests on the same manager succeed, and the engine ID is released once manager and requests are gone.",
 ["histories", "fault_sequences"], "all histories of requests on managers of all versions with interrupts at any moment of any wait",
 "No test interrupts a wait.",
 ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/manager/v3.py"],
 [("Request.wait", "snmp/manager/v3.py"), ("Request.wait", "snmp/manager/v1.py")],
 ["Request.wait", "Manager.get"])

prop("G11", "Discovery and synchronization are paid for once",
 "While an agent answers within a refresh period, every v3 request completes and costs one datagram, plus one if its manager does not know the agent's present engine id and one if the request is authenticated and no manager of the engine has yet exchanged an authentic message with the agent since its last boot - never more. A manager knows the id it was configured with, until an authenticated response from another engine replaces it; a manager that was not configured knows the id of the last response it got, or of the last authenticated one once there was any. This stays true after timeouts, dropped requests, reboots and replacements of the agent, when the network duplicates datagrams, and at any local time.",
 ["histories", "fault_sequences"], "all histories of requests, reboots, replacements and silent phases on managers with and without a configured engine id",
 "The repository has no manager tests; whether state survives from one request to the next only shows in the traffic of a history.",
 ["snmp/manager/v3.py", "snmp/security/usm/implementation.py", "snmp/security/usm/timekeeper.py", "snmp/message/v3.py"],
 [("State and its subclasses", "snmp/manager/v3.py"), ("SNMPv3UsmManager.onReport/processResponse", "snmp/manager/v3.py"), ("TimeKeeper", "snmp/security/usm/timekeeper.py")],
 ["Manager.get", "Request.wait", "datagrams sent"])

prop("T01", "Transport addresses normalize deterministically or are refused",
 "For IPv4 and IPv6, normalizing an address given as nothing, a host, a port-less or full (host, port) pair fills in the wildcard host and the usage's default port (161 listener, 162 trap listener, 0 sender), keeps explicit values, and is idempotent. Malformed hosts and out-of-range ports raise ValueError and wrong types raise TypeError, so a bad address is never silently changed to another one.",
 ["inputs"], "all address shapes, hosts, ports, usages for both families",
 "Tests cover a few literals.",
 ["snmp/transport/udp.py", "snmp/transport/__init__.py"],
 [("normalizeAddress", "snmp/transport/udp.py")],
 ["UdpIPv4Socket.normalizeAddress", "UdpIPv6Socket.normalizeAddress"])

prop("T02", "Every received datagram is delivered once, intact, to its listener",
 "With any number of registered sockets and any traffic, each datagram received on a socket is handed exactly once, unmodified, in order of arrival on that socket, with that socket as its transport and the true source address; replies sent through that transport reach the source. Stopping makes the listening call return promptly from any state, after which it can be started again without losing pending datagrams, on both multiplexer implementations.",
 ["schedules", "histories"], "all sequences of register, send, stop, and listen over several IPv4/IPv6 loopback sockets and datagram sizes up to the UDP limit",
 "Tests send one or two datagrams on one multiplexer.",
 ["snmp/transport/udp.py", "snmp/transport/posix/udp.py", "snmp/transport/generic/udp.py"],
 [("UdpMultiplexor.listen/stop/register", "snmp/transport/posix/udp.py, snmp/transport/generic/udp.py"), ("UdpSocket.receive/send", "snmp/transport/udp.py")],
 ["multiplexor.listen + TransportListener.hear"])

prop("T03", "Engines work end-to-end over real sockets and shut down cleanly",
 "Over real loopback sockets with a real listening thread, concurrent requests of all three versions to independent agents each return their own response, and leaving the engine's context stops its thread and closes its sockets no matter what was pending or received. Engines can be created and shut down repeatedly without leaking threads or file descriptors or affecting each other.",
 ["schedules", "histories"], "mixes of versions, managers, users and garbage traffic over repeated engine lifetimes",
 "No test runs the engine.",
 ["snmp/engine.py", "snmp/dispatcher.py", "snmp/transport/posix/udp.py"],
 [("Engine.shutdown", "snmp/engine.py"), ("Dispatcher.connectTransport/shutdown", "snmp/dispatcher.py")],
 ["Engine", "threading.enumerate", "open descriptors"])

if __name__ == "__main__":
    for p in P:
        print(json.dumps(p))

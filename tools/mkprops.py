#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place the statements are written)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

CL, TLS, HS, IT, UT = "src/client.rs", "src/tls.rs", "src/handshake.rs", "src/tls_item.rs", "src/util.rs"
EC, CP, PRF, CM = "src/cipher/ecdhe.rs", "src/cipher/chacha20_poly1305.rs", "src/cipher/prf.rs", "src/cipher/mod.rs"
CC, PO, SH, P2, WR = "src/crypto/chacha20.rs", "src/crypto/poly1305.rs", "src/crypto/sha2.rs", "src/crypto/p256.rs", "src/crypto/wrapping.rs"
AL, ER, SG = "src/alert.rs", "src/tls_result.rs", "src/signature.rs"

# ---------------------------------------------------------------- connection
p("C01", "No connection without a verified server Finished",
  "The application receives a usable connection object only if the last handshake message the server sent was a Finished whose 12 verify-data bytes all equal PRF(master secret, \"server finished\", SHA-256 of the handshake transcript), truncated to 12 bytes. If any bit of them differs, the handshake fails with a decrypt_error and no connection object exists.",
  ["histories", "inputs"], "every server behaviour and every value of the received verify data",
  "the handshake has one network-dependent test (not in the stable set); no test drives a server that sends a wrong, truncated or missing Finished",
  [CL, UT], [("constant-time comparison of verify data, then early error return", "client.rs TlsClient::handshake / TlsClient::new")],
  ["result of TlsClient::new / from_tcp"])
p("C02", "Server flight is accepted only in its prescribed order",
  "The handshake completes only if the server sends exactly ServerHello, Certificate, ServerKeyExchange, ServerHelloDone, then (after the client's flight) ChangeCipherSpec and Finished, in that order with nothing skipped, repeated, added or substituted. Any other handshake message, record type or alert in any of these positions makes the handshake fail.",
  ["histories", "inputs"], "every sequence of messages a server can send",
  "needs every out-of-order history; no stable test runs the handshake",
  [CL, TLS], [("expect! macro and read_change_cipher_spec", "client.rs handshake, tls.rs read_handshake/read_change_cipher_spec")],
  ["result of TlsClient::new"])
p("C03", "Negotiated parameters are exactly the offered ones",
  "The handshake goes past ServerHello only if the server selected protocol version TLS 1.2 (3,3), the single offered cipher suite and null compression. Any other version, suite or compression method fails with illegal_parameter before the client sends any key material.",
  ["inputs"], "every ServerHello", "no test feeds a ServerHello with a downgraded version, other suite or compression",
  [CL], [("three equality checks on the parsed ServerHello", "client.rs handshake")], ["result of TlsClient::new, fatal alert on the wire"])
p("C04", "Key schedule follows TLS 1.2 for this suite",
  "The 48-byte master secret is PRF(premaster, \"master secret\", client random + server random). The key block is PRF(master, \"key expansion\", server random + client random), split in order into client key (32 bytes), server key (32), client IV (12), server IV (12); the client pair protects what the client writes and the server pair opens what it reads, and the two randoms are those actually exchanged in ClientHello and ServerHello.",
  ["inputs"], "every premaster secret and every pair of randoms",
  "no stable test derives connection keys; only the PRF has a vector",
  [CL, PRF], [("two Prf instances and get_bytes calls in order", "client.rs handshake")], ["records on the wire"])
p("C05", "Finished messages cover the exact handshake transcript",
  "The client's Finished carries PRF(master secret, \"client finished\", SHA-256(T))[0..12] where T is the concatenation, in wire order and wire encoding, of ClientHello, ServerHello, Certificate, ServerKeyExchange, ServerHelloDone and ClientKeyExchange. The value the server's Finished is checked against uses the label \"server finished\" and the hash of T followed by the client's Finished.",
  ["inputs", "histories"], "every message content", "the transcript is never compared against anything in the tests",
  [CL, HS], [("re-serialisation of every message into one buffer", "client.rs handshake")], ["Finished record on the wire"])
p("C06", "Client flight: order, offer and key activation",
  "The client writes, in this order and nothing else: a ClientHello (version 3.3, empty session id, exactly the one supported cipher suite, null compression only, and the secp256r1, uncompressed-point and RSA/SHA-256 extensions), then after ServerHelloDone a ClientKeyExchange, a ChangeCipherSpec and a Finished. Everything up to and including the ChangeCipherSpec is sent before record protection is switched on, and the Finished and everything after it is protected.",
  ["histories", "inputs"], "every handshake run", "no stable test inspects what the client writes",
  [CL, HS, TLS], [("sequence of writer calls", "client.rs handshake"), ("new_client_hello", "handshake.rs")], ["bytes written to the transport"])
p("C07", "A failed handshake reports one matching fatal alert and an error",
  "Whenever the handshake fails for any reason other than a transport I/O failure, exactly one alert is written, at fatal level, with the description belonging to the error kind, and construction returns an error. After an I/O failure no alert is written and the I/O error is returned.",
  ["histories", "fault_sequences"], "every failing handshake", "no test observes alerts",
  [CL, AL], [("TlsClient::new error arm and send_tls_alert", "client.rs")], ["transport, result of TlsClient::new"])
p("C08", "Randomness is fresh, complete and from the supplied generator",
  "All 32 bytes of the client random and all 256 bits of the ephemeral private scalar come from the random generator handed to the connection, are drawn anew for every handshake, and no part of them is fixed, reused or derived from anything else. A scalar candidate is used only if it is below the curve's rejection bound, and is redrawn completely otherwise.",
  ["inputs", "histories"], "every generator output", "tests cannot distinguish a partially filled random from a full one; rejection of out-of-range scalars has probability 2^-32",
  [CL, EC], [("fill_bytes on a 32-byte array", "client.rs handshake"), ("get_random_x", "cipher/ecdhe.rs")])
p("C09", "ECDHE: server key validated, right point sent, right secret",
  "Key exchange succeeds only if the server's parameters name the curve secp256r1, are completely consumed by the decoder, and carry an uncompressed point that satisfies the curve equation; otherwise it fails (illegal_parameter for a bad curve or point, decode error for malformed data) without deriving a secret. On success the client sends the length-prefixed uncompressed encoding of x*G and the premaster secret is the 32-byte big-endian x coordinate of x*Y, for one and the same private scalar x and the server's point Y.",
  ["inputs"], "every ServerKeyExchange body and every private scalar", "no test calls key exchange with an invalid point or another curve",
  [EC, P2], [("compute_keys", "cipher/ecdhe.rs"), ("on-curve check", "p256.rs from_uncompressed_bytes")])
p("C10", "Application write sends all bytes in order or reports an error",
  "A successful write of a buffer of any length has handed every byte of it, once and in order, to the transport as protected application-data records, and reports the full length. If the record layer fails, the caller gets an error, never a success or a partial count.",
  ["inputs", "fault_sequences"], "every buffer and every transport failure position", "no stable test writes application data",
  [CL, TLS], [("write_all over write_data", "client.rs, tls.rs")])
p("C11", "Application read delivers each byte once, in order",
  "For every sequence of read-buffer sizes, the bytes returned by successive reads are exactly the concatenation of the application-data payloads the server sent, with no byte lost, duplicated, reordered or altered, and the returned count is the number of bytes stored. Bytes beyond the returned count are never claimed, and surplus bytes are kept for the next read.",
  ["inputs", "histories"], "every record segmentation and every sequence of buffer sizes", "no stable test reads application data",
  [CL], [("buffer carry-over in Read::read", "client.rs")], state=[("buf", "decrypted bytes not yet delivered", "client.rs TlsClient")])
p("C12", "Protocol failures while reading are reported, not shown as end of data",
  "If a record cannot be authenticated or decoded, or an alert other than close_notify, a handshake message or a ChangeCipherSpec arrives where application data is expected, the reader of application data gets an error and a fatal alert is sent to the peer; only an orderly close_notify, or the end or failure of the transport itself, is an end of data. Data already delivered into the caller's buffer in that call may be returned first.",
  ["inputs", "histories", "fault_sequences"], "every way an established connection can fail while reading", "no test reads from a failing peer after the handshake",
  [CL, TLS], [("error arm of Read::read", "client.rs"), ("read_application_data", "tls.rs")])
p("C13", "Closing sends exactly one close_notify alert",
  "Closing a connection writes exactly one alert record whose description is close_notify, protected like all other records, and reports a transport failure as an error. A close_notify received from the peer ends the application data stream instead of producing data.",
  ["inputs", "histories"], "every connection state", "close is never tested",
  [CL, TLS], [("close", "client.rs"), ("close_notify arm", "tls.rs read_application_data")])

# ---------------------------------------------------------------- record layer
p("R01", "A record nonce is never used twice for writing",
  "Over the life of a write key, each protected record uses the 12-byte nonce IV xor (four zero bytes followed by the 64-bit big-endian record number), the number starting at 0 when the key is set and growing by one per protected record, so no two records ever share a nonce. This also holds when a transport write fails part way and the caller carries on.",
  ["histories", "fault_sequences"], "every sequence of writes and transport failures", "tests write at most one protected record and never after a failure",
  [TLS], [("write_count and nonce construction", "tls.rs TlsWriter::write_record / set_encryptor")], state=[("write_count", "number of records written under the current key", "tls.rs TlsWriter")])
p("R02", "Inbound records are opened under strictly increasing sequence numbers",
  "Each inbound protected record is opened with the nonce IV xor (zeros, 64-bit big-endian record number), the number starting at 0 when the read key is set and growing by exactly one for every record accepted, whatever its type. A replayed, dropped or reordered record is therefore opened under the wrong number and rejected.",
  ["histories", "inputs"], "every sequence of inbound records", "tests never read two protected records",
  [TLS], [("read_count and nonce construction", "tls.rs TlsReader::read_record / set_decryptor")], state=[("read_count", "number of records read under the current key", "tls.rs TlsReader")])
p("R03", "Record header and number are authenticated",
  "In both directions the additional authenticated data of a protected record is the 64-bit big-endian record number, content type, the two version bytes and the 16-bit big-endian plaintext length, taken from the very header sent or received. No field is omitted, reordered or replaced by a constant on the reading side.",
  ["inputs"], "every record header and length", "the AEAD has one vector; the record layer's additional data is never checked",
  [TLS], [("ad vector", "tls.rs write_record / read_record")])
p("R04", "Outbound data is fragmented losslessly into well-formed records",
  "Data handed to the record layer is cut into consecutive fragments of 1 to 2^14 bytes covering every byte exactly once and in order, and each fragment is written as one record: content type, version 3.3, 16-bit big-endian length of what follows, and the (protected) fragment. No record exceeds 2^14 + 2048 bytes on the wire.",
  ["inputs"], "every data length and content type", "no test writes more than one byte through the record layer",
  [TLS], [("write_data chunking and write_record", "tls.rs")])
p("R05", "Inbound records are bounded and of known type",
  "A record with an unknown content type is rejected with unexpected_message, one announcing more than 2^14 + 2048 bytes, or whose plaintext exceeds 2^14 bytes, with record_overflow, and a protected record too short to contain its tag with bad_record_mac. In each case the error is returned instead of the record being delivered; a record of known type within the limits is read completely, exactly its announced length, and delivered unchanged.",
  ["inputs"], "every header and length", "tests probe one unknown type and one over-long length",
  [TLS], [("limits in read_record", "tls.rs TlsReader::read_record")])
p("R06", "No cleartext once keys are set, no application data before",
  "After the write key is installed every outbound record is protected with it and after the read key is installed every inbound record must open under it; there is no way back to cleartext. Application data is neither sent nor delivered before the respective key is installed.",
  ["histories"], "every sequence of record-layer calls", "needs all call orders; tests use one",
  [TLS], [("encryptor/decryptor options", "tls.rs")])
p("R07", "Malformed ChangeCipherSpec, alert and handshake records are rejected",
  "A ChangeCipherSpec record is accepted only if it is the single byte 1; an alert record only if it has at least the two bytes of a known level and known description, which are the ones reported; an empty handshake or alert record is rejected. All rejections are unexpected_message errors and application-data payloads are passed through unmodified.",
  ["inputs"], "every record payload", "tests try only zero-length payloads",
  [TLS], [("read_message match", "tls.rs TlsReader::read_message")])
p("R08", "Handshake messages are reassembled independently of record boundaries",
  "However the handshake byte stream is split over records, the reader delivers exactly the messages delimited by the 4-byte headers, in order, each as soon as complete and never earlier, and keeps left-over bytes for later messages without losing or duplicating any.",
  ["inputs", "histories"], "every segmentation of every message stream", "no test reassembles a fragmented or coalesced message",
  [HS, TLS], [("HandshakeBuffer", "handshake.rs")], state=[("buf", "handshake bytes not yet delivered", "handshake.rs HandshakeBuffer")])
p("R09", "A handshake message cannot span a key change",
  "While bytes of a partly received or not yet consumed handshake message are pending, a ChangeCipherSpec record is rejected with unexpected_message, so no handshake message is ever assembled from bytes received under different keys. Where ChangeCipherSpec is due, any other message is rejected.",
  ["histories"], "every interleaving of record types with partial handshake data", "no test interleaves record types",
  [TLS, HS], [("pending check in read_message", "tls.rs")])
p("R10", "Keys and IVs are installed at most once",
  "A writer's or reader's key and IV can each be installed only once; a second installation aborts instead of silently replacing the key or resetting the record number under a key already in use.",
  ["histories"], "every sequence of calls", "no test installs twice",
  [TLS], [("assert is_none in set_encryptor/set_decryptor/set_iv", "tls.rs")])

# ---------------------------------------------------------------- AEAD / PRF
p("A01", "Nothing is released from a record whose tag does not match",
  "Opening a protected record returns plaintext only if all 16 bytes of the received tag equal the tag computed over the received ciphertext and additional data; in every other case, including input shorter than a tag, it returns a bad_record_mac error and no plaintext.",
  ["inputs"], "every key, nonce, ciphertext, tag and additional data", "the only AEAD test opens one valid record; no forgery is tried",
  [CP], [("diff accumulation over MAC_LEN bytes", "cipher/chacha20_poly1305.rs decrypt")])
p("A02", "AEAD_CHACHA20_POLY1305 construction",
  "Sealing yields ChaCha20 (block counter from 1) of the plaintext followed by the Poly1305 tag, under the one-time key from block 0, of: additional data, zero padding to 16, ciphertext, zero padding to 16, and both lengths as 64-bit little-endian. Opening computes the same tag over the received ciphertext and decrypts with the same keystream, for every length of data and additional data.",
  ["inputs"], "every data length and content", "one vector with a 16-byte plaintext and 13-byte additional data",
  [CP], [("compute_mac, encrypt, decrypt", "cipher/chacha20_poly1305.rs")])
p("A03", "HMAC-SHA256 and the TLS 1.2 PRF for every key and output length",
  "HMAC-SHA256 follows RFC 2104 for keys of every length (keys longer than 64 bytes are hashed first). The PRF output is P_SHA256(secret, seed), and splitting it over several requests of any sizes gives the same byte stream as one request, each request returning exactly the number of bytes asked for.",
  ["inputs", "histories"], "every key length, seed and sequence of request sizes", "tests cover four HMAC vectors with short keys and a few request patterns",
  [PRF], [("hmac_sha256, Prf::get_bytes", "cipher/prf.rs")])
p("A04", "Secret data never decides branches, indices or divisions",
  "In the AEAD, stream cipher, authenticator, hash, PRF, verify-data comparison and elliptic-curve code, no branch, table index, division or early exit depends on the value of key material, plaintext, tag or scalar, except the final accept/reject of a completed comparison and the whole-candidate rejection of a fresh scalar. Control flow may depend only on lengths.",
  ["inputs"], "every secret value", "timing behaviour is invisible to functional tests",
  [CP, CC, PO, SH, PRF, P2, UT, WR], [("branch-free arithmetic and choose/compare", "crypto/*")])

# ---------------------------------------------------------------- primitives
p("K01", "SHA-256 is FIPS 180-4 for every message",
  "The hash function returns the FIPS 180-4 SHA-256 digest for messages of every length and content, including every position of the length relative to a block boundary.",
  ["inputs"], "every message", "a handful of vectors", [SH], [("sha256", "crypto/sha2.rs")])
p("K02", "ChaCha20 is RFC 7539 for every key, nonce and length",
  "The keystream is the RFC 7539 ChaCha20 block function of key, nonce and a block counter that starts at 0 and advances by one per block; encryption xors each 64-byte piece of the data with the next block and returns exactly as many bytes as it was given.",
  ["inputs"], "every key, nonce, data and length", "five keystream vectors", [CC], [("ChaCha20", "crypto/chacha20.rs")])
p("K03", "Poly1305 is exact for every message and key",
  "The authenticator returns ((sum over 16-byte blocks evaluated at the clamped r) mod 2^130-5) + s mod 2^128 for every message length and every key, including accumulator values at or above 2^130-5 and all carry patterns.",
  ["inputs"], "every message and key, all carry patterns", "a few vectors; carry corner cases have negligible probability",
  [PO], [("authenticate, compute_block, finalize", "crypto/poly1305.rs")])
p("K04", "P-256 field arithmetic is exact and fully reduced",
  "Addition, subtraction, doubling, halving, multiplication, squaring and inversion of field elements below p return the mathematically exact result modulo the P-256 prime, itself below p, for all operands including those that exercise rare carries. Equality comparison and conditional selection are exact for all operands.",
  ["inputs"], "all pairs of 256-bit operands", "random samples never hit the 2^-32 carry cases", [P2, WR], [("Int256 methods", "crypto/p256.rs int256")])
p("K05", "P-256 group law, including its exceptional cases",
  "Point addition and doubling compute the group law of the curve y^2 = x^3 - 3x + b for all representable points, including the point at infinity on either side, equal points and opposite points; conversion to affine form divides x by z^2 and y by z^3. The curve constants, base point and prime are those of NIST P-256.",
  ["inputs"], "all pairs of points", "tests add a few fixed multiples of the base point", [P2], [("Point256::add/double/normalize", "crypto/p256.rs")])
p("K06", "Scalar multiplication uses every bit of the scalar",
  "Multiplying a point by a 256-bit scalar returns the scalar's full multiple of the point: each of the 256 bits contributes with its own weight, exactly once.",
  ["inputs"], "all 2^256 scalars", "tests use small scalars or compare the routine with itself", [P2], [("mult_scalar", "crypto/p256.rs")])
p("K07", "Point and field-element encodings are canonical and validated",
  "Field elements are encoded as exactly 32 big-endian bytes and decoding inverts this. An encoded point is accepted only if it is 65 bytes starting with 4, both coordinates are below the prime and the curve equation holds; it then denotes exactly those coordinates, and encoding gives the same bytes back.",
  ["inputs"], "all byte strings", "tests decode valid points only", [P2], [("from_bytes, to_bytes, from_uncompressed_bytes, to_uncompressed_bytes", "crypto/p256.rs")])

# ---------------------------------------------------------------- wire formats
p("W01", "Encoder, decoder and size of every wire type agree",
  "For every protocol structure, the encoder writes the RFC field sequence in network byte order, the decoder reads the same sequence into the same fields, and the declared size equals the number of bytes the encoder writes; so decoding what was encoded gives the original value and re-encoding gives the received bytes (for structures whose values are all representable).",
  ["inputs"], "every value of every protocol structure", "one ClientHello is round-tripped",
  [IT, HS, AL, SG, EC, CM], [("tls_struct!/tls_enum!/tls_vec!/tls_array!/tls_option! and hand-written TlsItem impls", "tls_item.rs, handshake.rs, cipher/")])
p("W02", "Vector length limits are enforced in both directions",
  "Every variable-length protocol vector enforces its RFC minimum and maximum byte length whenever a value is constructed or decoded, rejects contents that do not fill the announced length exactly, and uses the length-prefix width implied by its maximum. Violations are decode_error.",
  ["inputs"], "every length of every vector type", "no test builds an out-of-bounds vector",
  [IT, HS, SG, EC], [("tls_vec! new / tls_read / tls_write", "tls_item.rs")])
p("W03", "Protocol code points are the registered ones and unknown ones are rejected",
  "Every enumerated protocol value (record types, handshake types, alert levels and descriptions, curves, point formats, signature and hash algorithms, compression methods, certificate types, extension types, curve types, the cipher suite) is encoded as and decoded from its IANA-registered number. A number that is not in the enumeration is reported as an error or as the explicit unknown value, never mapped to a known one.",
  ["inputs"], "every code point of every enumeration", "tests touch two or three code points",
  [TLS, HS, AL, SG, CM, EC], [("enum macros", "tls_item.rs tls_enum!, cipher/mod.rs cipher_suite!, tls.rs enum_from_primitive!")])
p("W04", "Messages are consumed exactly; trailing or missing bytes are errors",
  "A handshake message body that is longer or shorter than its structure requires is rejected with an error, including bytes left after an optional trailing extension block or after the key-exchange parameters; truncated input never yields a value.",
  ["inputs"], "every byte string", "no malformed message is tested", [HS, IT, EC], [("EOF probe after decode, option decoder", "handshake.rs tls_read, tls_item.rs tls_option!, cipher/ecdhe.rs compute_keys")])
p("W05", "Integer primitives use the stated byte order on every target",
  "Each big-endian (little-endian) integer read, write or array conversion maps between the integer and the byte sequence with the most (least) significant byte first, for every value, and reading inverts writing.",
  ["inputs"], "every integer value of every width", "only exercised indirectly", [UT], [("u64_be_array and friends, ReadExt/WriteExt", "util.rs")])
p("W06", "Exact reads deliver all requested bytes in order or fail",
  "Reading an exact number of bytes from a transport that returns data in arbitrary pieces fills the whole buffer with the next bytes of the stream in order, consumes no more than requested, and fails if the stream ends or errors first; it never succeeds with a partly filled buffer.",
  ["fault_sequences", "schedules", "inputs"], "every way the transport can split, end or fail", "in-memory readers return everything at once", [UT], [("fill_exact, read_exact", "util.rs")])
p("W07", "Handshake messages are framed by type and 24-bit length",
  "Every handshake message is written as its one-byte type, the exact 24-bit big-endian length of its body and the body; on reading, the type selects the decoder and the length in the header delimits the message.",
  ["inputs"], "every message", "one message type is round-tripped", [HS], [("tls_handshake! macro, HandshakeBuffer::get_message", "handshake.rs")])

# ---------------------------------------------------------------- errors / safety
p("E01", "Each error kind maps to its own alert and keeps its kind",
  "Every error kind produces the alert description of the same name (I/O failures map to internal_error and received alerts to close_notify), always at fatal level, and transport errors are reported as I/O failures. Errors raised with one kind reach the caller with that kind.",
  ["inputs"], "every error kind", "no test looks at alerts", [AL, ER, CL], [("AlertDescription::from_err, From<io::Error>", "alert.rs, tls_result.rs")])
p("E02", "No fallible operation's failure is ignored",
  "Whenever an operation on the transport, decoder, record layer or AEAD fails, the enclosing operation fails too, with three deliberate exceptions: the probe for end of message expects a failure, a failed alert transmission replaces the original error, and an application read treats transport end as end of data. No error is dropped, replaced by a default value or turned into success anywhere else.",
  ["fault_sequences"], "every failure of every fallible call", "tests inject almost no failures", [CL, TLS, HS, IT, UT, CM, EC], [("? propagation", "whole crate")])
p("S01", "No input from the network can make the client panic",
  "Whatever bytes the peer or the transport delivers, connection set-up, reading, writing and closing end with a value or an error and never with a panic: no out-of-range index, arithmetic overflow, failed assertion, unreachable or unimplemented code is reachable from them.",
  ["inputs", "histories", "fault_sequences"], "every byte sequence from the peer and every application buffer", "robustness is not fuzzed or tested",
  [TLS, CL, HS, IT, EC, P2, CP], [("explicit length checks and error returns", "whole crate")])
p("S02", "Unsafe code is confined to plain byte reinterpretation",
  "The only unsafe operations are conversions between an integer and a byte array of the same size; there is no raw-pointer access, no mutable global state and no foreign call, so no safe use of the library can violate memory safety.",
  ["programs"], "every program using the public API", "memory safety is a property of all callers", [UT], [("mem::transmute between integers and byte arrays", "util.rs")])
p("S03", "Secrets do not leak into errors, logs or public encodings",
  "Key material, premaster and master secrets, private scalars, keystream, IVs and decrypted data that failed authentication never flow into error descriptions, formatted output or bytes sent to the peer other than through the key derivation, cipher, point multiplication or MAC that the protocol prescribes.",
  ["inputs"], "every secret value", "tests do not look at error text", [CL, TLS, CP, PRF, EC], [("no formatting of secret values", "whole crate")])
# ---------------------------------------------------------------- not decided here
p("N01", "The server is authenticated by its certificate",
  "A connection is established only with a server that proved, by a valid certificate chain for the expected name and a valid signature over the key-exchange parameters, to own the key it used.",
  ["inputs", "histories"], "every server", "not implemented; README says so", [CL, EC], [("none: certificates and signatures are parsed and ignored", "client.rs, cipher/ecdhe.rs")])
p("N02", "Operations terminate and do not block forever",
  "Every read, write and handshake ends within a bounded time of the transport making progress, and a peer that keeps sending cannot keep a call busy forever.",
  ["schedules", "histories"], "every schedule of transport progress", "needs unbounded schedules", [CL, TLS], [("blocking loops", "client.rs read, tls.rs read_message")])
p("N03", "Actual execution time does not depend on secrets",
  "The measured running time of the compiled cryptographic code is independent of secret values on the machine it runs on.",
  ["inputs", "configurations"], "every secret, compiler and CPU", "needs measurement on hardware", ["src/crypto/"], [("branch-free source", "src/crypto/")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))

"""Which rules decide which property, and how that is described."""
RULES = {}
AI = "abstract interpretation of MIR with value numbering (every path, every input)"
TB = "Trusts rustc's MIR, the std models in husklint/models.py and the value-numbering identities. "


def also(id, rules, why):
    RULES[id]["rules"] = RULES[id]["rules"] + rules
    RULES[id]["how"] += " Runs also " + why


def R(id, rules, how, note, technique=AI, level="proof", assumes=()):
    RULES[id] = dict(rules=rules, level=level, how=how, technique=technique, note=TB + note, assumes=list(assumes))


R("W05", ["util.w05"],
  "Every integer reader, writer and array conversion is interpreted abstractly over its MIR with a symbolic integer or input; "
  "the resulting byte sequence is compared, in value-numbering normal form, with the big- or little-endian reference.",
  "All values of all widths; target little-endian as compiled here.")
R("W06", ["util.w06"],
  "The read loop is summarised by a fixpoint over an opaque transport whose read may return any number of bytes or an error; on every success path the "
  "buffer must be the slice [0,n) of the transport stream and n bytes consumed.",
  "All buffer lengths and all splits; assumes Read::read returns at most the buffer length.",
  technique="abstract interpretation with loop-invariant inference over an opaque reader")
R("R01", ["record.r01"],
  "write_record, set_encryptor and every store to the sequencing fields: the nonce term of each sealing on each path must normalise to iv xor (0000||be64(write_count)), "
  "write_count must be one larger afterwards on success and on every transport-failure path, and an effect analysis over all bodies finds stores elsewhere.",
  "All counter values, IVs, records and failure positions; assumes fewer than 2^62 records per key and the 12-byte IV the handshake installs.",
  technique=AI + "; effect analysis of field stores")
R("R02", ["record.r02"],
  "read_record and set_decryptor: nonce term of each opening, counter after acceptance, stores to the fields elsewhere.",
  "All headers, fragments and counter values below 2^62.", technique=AI + "; effect analysis of field stores")
R("R03", ["record.r03"],
  "The additional-data term of each sealing and opening is compared with number, type, version and plaintext length of the header written or read on the same path.",
  "All headers and lengths.")
R("R04", ["record.r04"],
  "write_record's bytes on the transport per path; write_data's fragment loop is summarised with a ghost sequence of everything handed to write_record, which must equal the input at exit.",
  "All lengths and content types, loop summarised by fixpoint (no bound).",
  technique="abstract interpretation with loop-invariant inference and ghost state")
R("R05", ["record.r05"],
  "All paths of read_record form a decision table; each outcome must be implied by or imply the header facts of its path.",
  "All headers; protected and clear.")
R("R06", ["reader.r06"],
  "write_record and read_record under an installed key: no path reaches the transport without a sealing or delivers without an opening, the key stays installed; effect analysis of all stores to "
  "the key fields; application data entry points under no key have no returning path that sends or delivers.",
  "All records and error positions.", technique=AI + "; effect analysis of field stores")
R("R07", ["reader.r07"],
  "read_message over an abstract record source (one case per content type): its path segments between loop header and exit form a decision table compared with the acceptance conditions of each record type.",
  "All record contents and histories of handshake records (loop summarised).")
R("R08", ["reader.r08"],
  "A ghost sequence of handshake bytes received but not delivered is carried through read_message's loop and must equal the buffer handed to get_message; get_message's paths are compared with the 4-byte-header framing.",
  "All splits of the stream over records, unbounded.", technique="abstract interpretation with loop-invariant inference and ghost state")
R("R09", ["reader.r09"],
  "On every path delivering ChangeCipherSpec the ghost sequence of pending handshake bytes must be empty.",
  "All histories of handshake records.", technique="abstract interpretation with loop-invariant inference and ghost state")
R("R10", ["reader.r10"],
  "Typestate: the setters are analysed on an object whose key and IV are already installed; a returning path must leave key, number and IV as they were.",
  "Debug assertions are treated as absent, so only checks that exist in every build count.", technique="typestate analysis over MIR")
HS = ("TlsClient::new is interpreted over all its paths with contracts for the record layer and message codecs: an event trace per path, with every outcome of every read, write and check. ")
R("C01", ["client.c01"], HS + "Every path that ends in Ok must have read a server Finished last and have passed a comparison of all of its verify data with the PRF term of the transcript; "
  "the comparison function is interpreted separately for exactness, and TlsClient is built nowhere else.",
  "All server behaviours; assumes HMAC-SHA256 and SHA-256 compute what A03 and K01 say.",
  technique=AI + "; typestate over the handshake event trace")
R("C02", ["client.c02"], HS + "On each path the sequence of reads must be a prefix of the prescribed order, and Ok only after the complete sequence; every substitution of another message variant must end in Err.",
  "All message variants in all positions.", technique=AI + "; typestate over the handshake event trace")
R("C03", ["client.c03"], HS + "The version, suite and compression facts known on each path after ServerHello are compared with the offer; paths where they differ must end in Err(illegal_parameter) with no client message after ClientHello.",
  "All ServerHello contents.", technique=AI + "; typestate over the handshake event trace")
R("C04", ["client.c04"], HS + "Secret, label, seed and offset of each PRF term reaching a key or IV setter or the master secret are compared with the RFC 5246 reference terms.",
  "All randoms and secrets; Prf::new and Prf::get_bytes are opaque here and decided by A03.")
R("C05", ["client.c05"], HS + "The hash input of both verify-data terms is compared, as a sequence of message encodings, with the messages sent and received on the path.",
  "All message contents and lengths; encodings are opaque here and decided by the W properties.")
R("C06", ["client.c06"], HS + "The sequence of writes and key activations is compared with the prescribed order, and the ClientHello value is encoded by interpretation and compared byte by byte.",
  "All paths; all 32 random bytes symbolic.", technique=AI + "; typestate over the handshake event trace")
R("C07", ["client.c07"], HS + "On every Err path the alerts written are counted, and level and description are compared with the error kind, for each kind the error may have there.",
  "All failure positions and kinds, including a failing alert transmission.", technique=AI + "; typestate over the handshake event trace")
R("C10", ["client.c10"], "write and write_all are interpreted with a contract for write_record and a ghost sequence of the bytes it accepted, loops summarised; Ok must mean the ghost equals the whole input.",
  "All lengths and all failure positions.", technique="abstract interpretation with loop-invariant inference and ghost state")
R("E01", ["client.e01"], "Alert::from_tls_err, TlsError::new, From<io::Error> and send_tls_alert are interpreted for a symbolic error; the result is compared per error kind.",
  "All kinds.")
R("C11", ["app.c11"], "read is interpreted on a connection with arbitrary surplus data and state, its loop summarised; a ghost sequence of the data received, tied to user buffer and surplus by a relational "
  "loop invariant, must equal bytes returned followed by bytes kept on every path.",
  "All buffer sizes, payload sizes and histories (by induction over calls).", technique="abstract interpretation with relational loop invariants and ghost state")
R("C12", ["app.c12"], "read is interpreted from the state TlsClient::new leaves, each failure kind followed through this call and the next; read_application_data is interpreted over every kind of message.",
  "All kinds and positions of failures.", technique=AI + "; typestate over two successive calls")
R("C13", ["app.c13"], "close and write_alert are interpreted with events for records written; the read after a received close_notify is composed with a second read.",
  "All outcomes of the transport.", technique=AI + "; typestate over two successive calls")
R("C08", ["kex.c08"], "Each draw from the generator is an event with fresh symbolic bits; every bit of the client random and of the scalar reaching point multiplication must be a distinct generator bit of the "
  "last draws, and the path condition must contain the bound test.",
  "All paths and any number of rejected candidates (loop summarised); that reduction leaves exactly the values below the prime unchanged is decided by K04.",
  technique=AI + "; provenance of every bit")
R("C09", ["kex.c09"], "compute_keys is interpreted over a symbolic server message with the point arithmetic as uninterpreted functions; the decoded curve, point and lengths on each accepting path and the terms returned are compared with the specification.",
  "All messages of all lengths; the functions themselves are decided by K05-K07.")
R("E02", ["errs.e02"], "Every function that calls a fallible operation is interpreted on its own with each such call replaced by succeed-or-fail with arbitrary effects; no path on which an operation failed may return success. "
  "The probe for the end of a handshake message is recognised by its inverted outcome; the application read is decided by C12.",
  "All functions and all combinations of failures.", technique=AI + "; per-function error-propagation (effect) analysis")
R("W01", ["wire.w01"], "For each of the protocol's types the codec functions are interpreted with those of the types inside replaced by uninterpreted encodings and decodings; the bytes written, the fields and "
  "items decoded, the consumption and the declared size are compared as terms with the RFC layout.",
  "All values, all lengths (loops summarised); a decoder must consume what the encoder produces, error paths need a cause.", technique=AI + "; compositional per type")
R("W02", ["wire.w02"], "The constructor of every vector type is interpreted for arbitrary items and the path conditions of success and failure compared with the RFC limits; decoders must pass through it and fill the announced length exactly.",
  "All lengths; limits and prefix widths of 16 vector types.")
R("W03", ["wire.w03"], "Discriminants, encoders, decoders and number conversions of every enumeration are interpreted over a symbolic number and compared with the IANA tables.",
  "All numbers of the field width.")
R("W04", ["wire.w04"], "Decoders of every structure are interpreted over streams and byte strings of arbitrary length; each accepting path must have consumed exactly the structure's bytes, each failure inside must fail the whole.",
  "All inputs; the key-exchange parameters by the analysis of C09.")
R("W07", ["wire.w07"], "The encoder of every handshake variant must write type, 24-bit length of the body and body; the decoder must select by type and consume the message; the framing of the buffer is decided with R08's analysis.",
  "All variants and body lengths.")

# ---- cryptographic primitives
R("K01", ["sym.k01"], "sha256 is interpreted over a message of symbolic bytes and length: the padding it builds, the initial value, the order and completeness of the blocks, and each block's compression (bit-exact normal forms, 64 rounds) against FIPS 180-4 written in the same algebra; the standard's constants are recomputed from the primes.",
  "All messages below 2^40 bytes; the compression is compared for all chaining values and blocks at once.")
R("K02", ["sym.k02"], "ChaCha20::new/next/encrypt are interpreted over symbolic key, nonce, counter and data: first and general block against the RFC's block function (bit-exact normal forms, 20 rounds), the counter's step, and the xor of data and keystream with its use of blocks.",
  "All keys, nonces, counters below 2^32-1 and data below 2^36 bytes.")
R("K03", ["poly.k03"], "authenticate is interpreted over a symbolic message, key and pad; its words become polynomials over the integers (floors as symbols, so that carry chains telescope). The block loop's step must equal (h+m)r mod 2^130-5 coefficient by coefficient; "
  "the result must be the accumulator reduced exactly once more, plus s, modulo 2^128, in every case of the limbs' inferred ranges; blocks in order and all of them. What does not match is confirmed on directed accumulator values before it is reported.",
  "All messages below 2^40 bytes, all keys; limb bounds inferred by interval iteration.", technique="abstract interpretation of MIR, comparison as integer polynomials, interval inference")
R("K04", ["field.k04"], "Each operation of Int256 is interpreted over symbolic limbs. For addition, subtraction, doubling and reduction the selections must be step functions of the exact result and, in every interval between steps, "
  "the limbs as a number must be the exact result less a multiple of the prime and below it; halving by cases on the parity; multiplication as the identity sum(word_k * weight_k) = A*B modulo the prime through the carry chains; inversion by following exponents; comparison by the set of differing bits.",
  "All operands below the prime (reduction: all 256-bit numbers, with carry below 2P).", technique="abstract interpretation of MIR, comparison as integer polynomials with floors")
R("K05", ["ec.k05"], "Point256::add and double are interpreted with the field operations of K04 as uninterpreted operations; the resulting coordinates are polynomials over the field. Both neutral, one neutral, different x, opposite points "
  "and equal points are substituted (affine coordinates scaled by arbitrary z) and, for every outcome of the constant-time comparisons possible there, the selected coordinates must equal the group law as polynomial identities with a third coordinate that is zero exactly for the neutral element. "
  "Conversion to and from affine form as fractions; every constant point of the crate must be the neutral element or the base point.",
  "All points; no point of the curve has y = 0 because its order is odd. Field operations by K04.", technique="abstract interpretation of MIR, polynomial identities over the prime field")
R("K06", ["ec.k06"], "mult_scalar is interpreted with point doubling, addition and selection (K05) as arithmetic on multiples of the operand; the multiple is a polynomial in the scalar's bits, which must telescope to the scalar itself.",
  "All scalars of 256 bits.", technique="abstract interpretation of MIR, comparison as integer polynomials with floors")
R("K07", ["ec.k07"], "Reading and writing of field elements and points is interpreted over symbolic bytes: as numbers the limbs must equal the big-endian bytes. In point decoding each comparison is classified by what it decides (range of x, range of y, curve equation as a polynomial); "
  "accepting paths must have passed all of them with length 65 and type 4, each refusing path must be explained by one.",
  "All byte strings.", technique="abstract interpretation of MIR, comparison as integer and field polynomials")
R("A03", ["sym.a03"], "HMAC: both key classes are compared with the RFC 2104 term over an uninterpreted SHA-256. PRF: abstraction invariant output-so-far ++ left-over ++ Stream(A) over Prf::new, every loop iteration and every return of get_bytes, for every generator state and request size; where the invariant does not close, three requests from a fresh generator with peeled loops are compared with P_SHA256.",
  "All keys, secrets, seeds, states and request sizes below 2^32 (2^40) bytes.")
R("A01", ["aead.a01"], "The opening object made by the AEAD's constructor is interpreted over symbolic key, nonce, record and additional data with stream cipher and authenticator as uninterpreted functions: on every path that returns data the path facts must imply the equality of each of the 16 tag bytes with the authenticator's output over the received ciphertext and additional data; every other path must carry bad_record_mac.",
  "All records and additional data below 2^20 bytes.")
R("A02", ["aead.a02"], "Sealing and opening are compared with the RFC construction as terms over the uninterpreted stream cipher and authenticator (counter position, one-time key, padding, lengths); rejecting paths must contradict a matching tag.",
  "All data and additional data below 2^20 bytes; stream cipher and authenticator themselves are K02 and K03.")
R("A04", ["timing.a04"], "The interpretations of AEAD, stream cipher, authenticator, hash, HMAC/PRF, field, point and scalar arithmetic, field-element encoding and verify-data comparison are run again and every "
  "undecided branch, array index, divisor and library comparison of sequences they meet is traced to its sources (through loop summaries); none may depend on a secret, except a comparison of the complete tag or verify data "
  "and the rejection of a whole scalar candidate.",
  "All paths of the functions listed. Source-level discipline: what the compiler makes of it is N03. Divisions by constants count as constant time; min/max and boolean operators without short circuit as branch-free.",
  technique="information-flow (taint) analysis over the abstract interpretation of MIR")

# ---- safety
R("S02", ["safety.s02"], "Every body and item of the crate's type-checked HIR is visited: each call of an unsafe function, raw-pointer dereference, union access, foreign or mutable static, unsafe impl and "
  "foreign block is collected with its resolved callee and type arguments; transmutes must map an integer type to the byte array of its size or back, nothing else is allowed.",
  "Whole crate, called or not; code that std macros expand to is std's own.", technique="custom lint over type-checked HIR (resolved callees and type arguments)")
R("S03", ["secrets.s03"], "All interpretations of the other rules are run again; every value that reaches the formatting machinery or a field of TlsError is traced to its sources through loop summaries, and must not depend on a key, IV, "
  "premaster or master secret, scalar, keystream, computed tag or unauthenticated plaintext. Every message the handshake hands to the record layer is traced likewise, stopping only at the prescribed functions "
  "(public point, Finished PRF, sealing). All reachable functions that format anything must have been followed.",
  "All paths. What records carry on the wire is decided by R06 and A02, the public point by C09.",
  technique="information-flow (taint) analysis over the abstract interpretation of MIR")
R("S01", ["safety.s01"], "The call graph from the client's public functions is closed over trait objects; every place in it that can panic (index and slice bounds, arithmetic overflow, unwrap, assertion, "
  "division, explicit panic, length-checked std calls) is visited by the interpretations of the other rules, each under the most general state of its caller's contract, and must be shown unreachable or safe on every path; "
  "a function no rule enters is interpreted for arbitrary arguments; key and IV setters are reached at most once per connection (event trace).",
  "Debug assertions are off, overflow checks on. Assumes fewer than 2^57 loop iterations and sums of sizes of objects in memory below 2^62; allocation failure and stack depth are not considered.",
  technique=AI + "; panic-reachability over the call graph", assumes=["values in memory encode to less than 2^40 bytes each, 2^62 in sum", "fewer than 2^62 records per key"])

# ---- a property whose statement rests on a part that has its own property includes that part's rules
also("C01", ["sym.a03"], "A03's rules (the PRF).")
also("C02", ["reader.r07", "reader.r08", "reader.r09"], "the rules of R07-R09 (what the reader lets through in each position).")
also("C04", ["sym.a03"], "A03's rules (the PRF).")
also("C05", ["wire.w01", "wire.w07", "sym.a03"], "the rules of W01 and W07 (the transcript is made of re-encoded messages) and A03 (the PRF).")
also("C09", ["ec.k06", "ec.k07", "wire.w02"], "the rules of K06, K07 and W02 (multiplication, point validation, point length).")
also("C10", ["record.r04"], "R04's rules (what becomes of the bytes handed down).")
also("C11", ["reader.r07"], "R07's rules (payloads passed through).")
also("C12", ["record.r05", "reader.r07"], "the rules of R05 and R07 (which records are refused).")
also("R03", ["aead.a02"], "A02's rules (additional data under the tag).")
also("W04", ["wire.w02", "util.w06"], "the rules of W02 and W06 (vectors and exact reads).")
also("K06", ["ec.k05"], "K05's rules (addition and doubling).")

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as data here so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

NOHS = "The 24 unit tests never run a handshake or a TlsClient; they use fixed vectors and an in-memory cursor that never splits, delays or fails an operation."

p("C01", "Handshake with a compliant server completes and both ends agree on keys",
  "Connecting to any server that follows TLS 1.2 with ECDHE-RSA-ChaCha20-Poly1305-SHA256 on P-256 succeeds, whatever legal hello fields, extensions, certificate chain sizes and key shares it sends, however its handshake messages are packed into records, and however the transport splits, delays or interrupts the bytes. When it succeeds, the server has accepted the client's Finished message and data flows correctly in both directions under the agreed keys. A server that takes liberties which leave the conversation's meaning alone (hello extensions nobody offered, another signature algorithm, an empty certificate list) may be refused, but only before the client sends its key share; once that is sent, connecting to such a server completes like any other.",
  ["inputs", "schedules", "configurations"],
  "every compliant server (session id, extensions, chain of 1 byte to >64 KiB, ephemeral key including edge-case points and shared secrets), every entropy outcome, every split of messages into records and of records into transport reads/writes, every delay",
  NOHS + " The field/curve arithmetic is only sampled on nine constants and scalar multiplication is not tested at all.",
  ["src/client.rs", "src/handshake.rs", "src/tls.rs", "src/tls_item.rs", "src/cipher/ecdhe.rs", "src/cipher/prf.rs", "src/cipher/chacha20_poly1305.rs", "src/crypto/p256.rs", "src/crypto/sha2.rs", "src/crypto/chacha20.rs", "src/crypto/poly1305.rs", "src/util.rs"],
  [("handshake driver", "src/client.rs TlsClient::handshake"), ("message reassembly", "src/handshake.rs HandshakeBuffer"), ("key agreement", "src/cipher/ecdhe.rs compute_keys"), ("key schedule", "src/cipher/prf.rs Prf")],
  ["result of TlsClient::new", "server model's view: Finished verified, keys, echoed data"])

p("C02", "Any tampering with the handshake is detected",
  "If connecting succeeds, then every handshake message the client received and sent is byte-for-byte what the server sent and received, and the server proved knowledge of the session keys with a correct Finished value over that same conversation. No modification, injection, removal, replay or reordering of handshake bytes by a network attacker, and no wrong Finished value from the server, can end in a successful connection.",
  ["fault_sequences", "inputs"],
  "every attacker edit (bit flips, dropped/duplicated/swapped/replayed records, rewritten lengths and trailing bytes, edited fields) at every position of either direction, and every Finished value that differs from the correct one in any non-empty set of bits",
  NOHS + " No test checks the Finished verification, the transcript hash or crypto_compare.",
  ["src/client.rs", "src/handshake.rs", "src/tls_item.rs", "src/util.rs", "src/cipher/prf.rs"],
  [("transcript hash", "src/client.rs handshake msgs/verify_hash"), ("server Finished comparison", "src/client.rs, src/util.rs crypto_compare"), ("strict parsing of messages that are re-serialised into the transcript", "src/tls_item.rs, src/handshake.rs")],
  ["result of TlsClient::new", "handshake bytes delivered to and emitted by each side"])

p("C03", "Server messages are accepted only in protocol order",
  "Connecting succeeds only if the server's messages arrive exactly in the order hello, certificate, key exchange, hello done, cipher change, Finished, with Finished protected under the new keys; any missing, repeated, reordered, unexpected or malformed message, early or late cipher change, early application data or alert makes it fail. No handshake byte that arrived before the cipher change may count as part of a message after it, and the client sends its key share only after a complete, correctly ordered first flight.",
  ["histories", "inputs"],
  "every deviation from the server message sequence (drop, duplicate, swap, insert any message type, move or corrupt the cipher change, split a message across the cipher change), sent by a server that otherwise holds the right keys",
  NOHS + " No test exercises a message sequence longer than one record.",
  ["src/client.rs", "src/tls.rs", "src/handshake.rs"],
  [("expect! macro", "src/client.rs handshake"), ("cipher change handling", "src/tls.rs read_message/read_change_cipher_spec"), ("decryptor activation", "src/tls.rs set_decryptor")],
  ["result of TlsClient::new", "bytes the client emitted"],
  state=[dict(name="handshake_buffer", meaning="bytes of not yet complete handshake messages", where="src/tls.rs TlsReader")])

p("C04", "Only parameters the client offered and valid key shares are accepted",
  "The client never proceeds with a protocol version, cipher suite, compression method, curve type or named curve other than the ones it offered, nor with a server public key that is not a canonically encoded point of the offered curve. In every such case connecting fails before any key share is sent.",
  ["inputs", "fault_sequences"],
  "every deviating value of each negotiated parameter and every invalid public key (wrong length or format byte, off-curve, coordinate not below the field prime, infinity encodings), sent by a server that otherwise behaves so that the handshake would complete",
  NOHS + " The negotiation checks and from_uncompressed_bytes have no test.",
  ["src/client.rs", "src/cipher/ecdhe.rs", "src/cipher/mod.rs", "src/crypto/p256.rs", "src/handshake.rs"],
  [("hello checks", "src/client.rs handshake"), ("curve parameters", "src/cipher/ecdhe.rs compute_keys"), ("point validation", "src/crypto/p256.rs NPoint256::from_uncompressed_bytes")],
  ["result of TlsClient::new", "presence of a ClientKeyExchange on the wire"])

p("C05", "Written data reaches the peer exactly once, in order, unaltered",
  "The bytes the peer decrypts are exactly the concatenation of the successful writes in order, for writes of any size and any number of records, whatever short writes, interruptions, back-pressure and delays the transport shows. If the transport fails during a write, that write reports an error and whatever the peer accepts, even after later write attempts, is a prefix of the bytes the application tried to write.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "every sequence of writes (0 bytes to several records; more than 2^16 records on one connection), interleaved with reads, under every pattern of partial, interrupted, blocked and failing transport writes",
  NOHS + " One test writes one 16584-byte buffer with a null cipher into a Vec.",
  ["src/client.rs", "src/tls.rs", "src/cipher/chacha20_poly1305.rs", "src/crypto/chacha20.rs", "src/crypto/poly1305.rs", "src/util.rs"],
  [("write path", "src/client.rs Write impl"), ("fragmentation and sequence numbers", "src/tls.rs write_data/write_record")],
  ["results of write/write_all", "server model's decrypted stream"],
  state=[dict(name="write_count", meaning="record sequence number of the write direction", where="src/tls.rs TlsWriter")])

p("C06", "Received data is delivered exactly once, in order, unaltered, without stalling",
  "The bytes returned by successive reads are exactly what the peer sent, in order, with nothing lost, duplicated or altered, for every way the peer cuts its data into records (including empty and maximum-size ones) and every sequence of read buffer sizes, whatever short reads, interruptions and delays the transport shows. A read for k bytes returns once the peer has sent k undelivered bytes or closed; it never waits for more, and reports end of stream only if the peer closed.",
  ["inputs", "schedules", "histories"],
  "every partition of the peer's stream into records (0..2^14 bytes; more than 2^16 records on one connection), every sequence of read sizes, every transport split/delay/interruption, interleaved with writes",
  NOHS + " The Read implementation of TlsClient (leftover buffer, multi-record fills) has no test.",
  ["src/client.rs", "src/tls.rs", "src/cipher/chacha20_poly1305.rs", "src/util.rs"],
  [("read loop and leftover buffer", "src/client.rs Read impl"), ("record reading and sequence numbers", "src/tls.rs read_record"), ("exact fills over short/interrupted reads", "src/util.rs ReadExt::fill_exact")],
  ["results and contents of read"],
  state=[dict(name="buf", meaning="decrypted bytes not yet returned", where="src/client.rs TlsClient"), dict(name="read_count", meaning="record sequence number of the read direction", where="src/tls.rs TlsReader")])

p("C07", "Tampered traffic is never delivered and kills the connection for good",
  "Whatever an active network attacker does to the encrypted stream (modify, drop, duplicate, reorder, replay, reflect, relabel or inject records or bytes), the application receives only a prefix of what the peer sent, ending before the first tampered record. The tampering surfaces as a read error, never as data, end of stream or a crash, and every later read fails too.",
  ["fault_sequences", "inputs", "histories"],
  "every attacker edit at every position of the server-to-client stream after the handshake, with the application continuing to read afterwards",
  NOHS + " Rejection of a wrong tag is not tested, nor is anything after a failure.",
  ["src/tls.rs", "src/client.rs", "src/cipher/chacha20_poly1305.rs"],
  [("AEAD tag check with sequence number in nonce and associated data", "src/tls.rs read_record, src/cipher/chacha20_poly1305.rs"), ("failure handling of reads", "src/client.rs Read impl")],
  ["results and contents of read"])

p("C08", "End of stream is reported only for an authenticated close",
  "A read reports clean end of stream only after the peer's authenticated close_notify; it then does so at once and forever, without waiting for more transport input, and data after the close is never delivered. If instead the transport ends or fails at any byte, or a fatal alert or forged close arrives, all complete preceding data is delivered first and then reads return an error, so truncation is distinguishable from a complete stream.",
  ["crash_points", "fault_sequences", "histories"],
  "every cut point of the encrypted stream (between and inside records), every alert, forged plaintext alerts, close_notify followed by silence, more data or transport close, with any read sizes",
  NOHS + " No test covers alerts, close_notify or end of input after the handshake.",
  ["src/client.rs", "src/tls.rs", "src/alert.rs"],
  [("close_notify mapping", "src/tls.rs read_application_data"), ("end of stream mapping", "src/client.rs Read impl")],
  ["results of read"])

p("C09", "No peer input can crash, hang or exhaust the client",
  "For every byte sequence a peer or attacker can send, before or after the handshake and with or without valid keys, every call either returns a value or an error; it never panics, never spins without consuming input, and never uses memory disproportionate to the bytes received.",
  ["inputs", "histories", "schedules"],
  "arbitrary and grammar-aware malformed records and messages of every type and size at every protocol state, including correctly encrypted ones, with arbitrary application calls in between",
  NOHS + " A handful of one-record inputs are tested for their error kind.",
  ["src/tls.rs", "src/handshake.rs", "src/tls_item.rs", "src/client.rs", "src/cipher/ecdhe.rs", "src/crypto/p256.rs", "src/alert.rs"],
  [("length checks", "src/tls.rs read_record"), ("message parser", "src/handshake.rs, src/tls_item.rs"), ("unexpected message handling after handshake", "src/tls.rs read_application_data")],
  ["panics, call counts and peak allocation of every API call"])

p("C10", "Everything after the cipher change is protected and no nonce is ever reused",
  "After its cipher change message the client emits nothing but records encrypted and authenticated under the session's client key, the first one with sequence number zero and each later one with a larger number. No two different records are ever emitted under the same key and nonce, whatever transport write errors occur and whatever the application writes or closes after them.",
  ["fault_sequences", "crash_points", "histories"],
  "every position of one or more transport write failures (error, zero-length write, timeout) including inside a record, followed by any further writes, reads or close",
  NOHS + " No test fails a transport write.",
  ["src/tls.rs", "src/client.rs", "src/cipher/chacha20_poly1305.rs"],
  [("sequence number and nonce", "src/tls.rs write_record"), ("encryptor activation", "src/client.rs handshake, src/tls.rs set_encryptor")],
  ["raw bytes accepted by the transport, decrypted by an observer holding the keys"],
  state=[dict(name="write_count", meaning="record sequence number, part of the nonce", where="src/tls.rs TlsWriter")])

p("C11", "Every detected protocol failure is answered by exactly one matching alert",
  "When the client rejects something the peer sent, during the handshake or while reading, it sends exactly one fatal alert whose description matches the kind of failure it reports, protected if its cipher is already active, and sends nothing afterwards. The failure kind itself matches the deviation: bad authentication code, oversize record, malformed message, unexpected message, unacceptable parameter or wrong Finished value are never reported as transport failures; a standard fatal alert from the peer (unless it stands in the place of the cipher change) is reported as an alert received; and a transport failure produces no alert.",
  ["inputs", "fault_sequences", "histories"],
  "every kind of peer misbehaviour at every protocol state, and every later application call",
  NOHS + " Three error kinds are tested on the raw reader; alerts are never sent in a test.",
  ["src/client.rs", "src/alert.rs", "src/tls.rs", "src/tls_result.rs", "src/handshake.rs", "src/cipher/ecdhe.rs"],
  [("alert sending", "src/client.rs send_tls_alert"), ("kind to description mapping", "src/alert.rs AlertDescription::from_err"), ("error kinds", "src/tls_result.rs")],
  ["error kind returned by TlsClient::new", "alert records on the wire"])

p("C12", "Each connection uses fresh, full-strength key material",
  "Every connection's client random and ephemeral key are derived afresh from the operating system's entropy, every bit of the entropy they consume influences them, and the key share sent is always a valid point of the curve. If the entropy source fails, connecting does not succeed and no key share is sent.",
  ["inputs", "histories", "fault_sequences"],
  "every outcome and every single-bit change of the entropy stream (including all-zero and out-of-range scalars), failure of the entropy source at any draw, and any number of connections in one process",
  NOHS + " No test draws randomness or multiplies a point by a scalar.",
  ["src/client.rs", "src/cipher/ecdhe.rs", "src/crypto/p256.rs"],
  [("random and scalar sampling", "src/client.rs handshake, src/cipher/ecdhe.rs get_random_x"), ("scalar multiplication", "src/crypto/p256.rs mult_scalar")],
  ["client random and key share on the wire as a function of the simulated entropy stream"])

p("C13", "Nothing is left stuck in a buffering transport",
  "Over a transport that holds written bytes back until it is flushed, the handshake still completes, because everything the client sent is flushed before it waits for an answer. After a successful flush all data of successful writes has reached the peer, after close the closing alert has, when a call fails with an alert that alert has, and a transport flush failure is reported.",
  ["schedules", "configurations", "fault_sequences"],
  "every buffering transport (any buffer capacity, any flush failure point) and every sequence of writes, flushes, reads and close",
  NOHS + " All test writers are plain vectors, which never hold data back.",
  ["src/client.rs", "src/tls.rs"],
  [("flush", "src/client.rs Write::flush, handshake, close")],
  ["bytes delivered to the peer after flush/close; result of TlsClient::new and flush"])

p("C14", "Outcomes do not depend on how the transport schedules bytes",
  "For fixed peer bytes and entropy, every API result, all data delivered, all bytes emitted and any error kind and alert are the same however the transport splits, delays, interrupts (EINTR) or partially accepts the individual reads and writes. This holds for well-behaved and for misbehaving peers alike.",
  ["schedules", "inputs"],
  "every pair of benign transport schedules (chunk sizes down to one byte, interruptions, delays, partial writes) over the same peer behaviour",
  NOHS + " The test transports return everything at once.",
  ["src/util.rs", "src/tls.rs", "src/handshake.rs", "src/client.rs"],
  [("exact reads", "src/util.rs ReadExt::fill_exact"), ("complete writes", "src/tls.rs write_record")],
  ["differences between two runs of the same plan under different transport schedules"])

p("C15", "Record size limits are enforced exactly, in both directions",
  "Records carrying up to 2^14 bytes of content are accepted and delivered; a record declaring more than 2^14 + 2048 bytes is refused as a record overflow without waiting for them, and one with more than 2^14 bytes of content is refused as a record overflow (or as bad, if it is not authentic) and never delivered. Everything the client emits is framed in version 3.3 records with at most 2^14 bytes of content, and a protected record too short to hold its authentication code is refused as bad.",
  ["inputs", "configurations"],
  "every record length from 0 to 2^16-1 in either direction, before and after encryption starts, authentic or not, for every record type",
  NOHS + " One oversize plaintext length and one oversize ciphertext are tested on a bare reader/writer.",
  ["src/tls.rs"],
  [("limits", "src/tls.rs RECORD_MAX_LEN, ENC_RECORD_MAX_LEN, read_record, write_data, write_record")],
  ["error kinds, delivered bytes, emitted record headers"])

p("C16", "A transport failure at any byte stops the client cleanly",
  "If the transport fails or ends at any point of the handshake, connecting returns an I/O failure: never success, never a panic, a hang or a different kind of error, and nothing is sent afterwards. If it fails while writing or reading application data, the current call, or for reads with data already gathered the next one, returns an error.",
  ["crash_points", "fault_sequences"],
  "every byte offset of both directions of a handshake and of an application exchange, every failure kind (EOF, reset, timeout, would-block, broken pipe, zero-length write, other)",
  NOHS + " End of input is tested once, at a record boundary, on a bare reader.",
  ["src/client.rs", "src/tls.rs", "src/util.rs", "src/tls_result.rs"],
  [("error propagation", "src/util.rs fill_exact, src/tls_result.rs From<io::Error>"), ("no alert on I/O failure", "src/client.rs send_tls_alert")],
  ["results of new/read/write; bytes emitted after the failure"])

p("C17", "Closing sends one authenticated close after all data, and nothing follows",
  "Closing emits exactly one close_notify alert, protected and ordered after all successfully written data, so the peer sees the complete stream followed by a clean close. After closing, or after the client sent a fatal alert, no later call emits anything: further writes are refused with an error instead of being silently discarded by the peer, and closing again sends nothing.",
  ["histories", "schedules"],
  "every sequence of writes, reads, flushes and closes, in every order, on healthy and failed connections",
  NOHS + " close has no test.",
  ["src/client.rs", "src/alert.rs", "src/tls.rs"],
  [("close", "src/client.rs TlsClient::close"), ("write path", "src/client.rs Write impl")],
  ["alerts and data the server model decrypts; results of write and close"])

p("C18", "Connections over TCP sockets survive what the socket calls legally do",
  "A client built from a TCP stream completes its handshake and carries data in both directions exactly as over an ideal stream whatever the operating system's socket calls legally return: partial sends and receives, interruption by signals, delays. Socket errors (reset, timeout, would-block, broken pipe, failure to duplicate the socket) at any call surface as errors of the current operation, never as data loss, corruption, success or a crash.",
  ["schedules", "fault_sequences", "crash_points"],
  "every sequence of return values of the send, receive and descriptor-duplication system calls over a connection's life",
  "Nothing in the test suite touches a socket: the example that does needs the Internet and is not run.",
  ["src/client.rs", "src/util.rs", "src/tls.rs"],
  [("from_tcp", "src/client.rs TlsClient::from_tcp")],
  ["results of from_tcp/read/write with the socket system calls simulated"])

p("C19", "Connections are isolated from one another",
  "When one process runs several connections with their calls interleaved in any order and on any threads, each connection behaves exactly as it would alone with the same peer and entropy. Records captured from one connection are never accepted on another.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of the transport calls of several connections on several threads, and every splice of one connection's records into another",
  "Tests are single-connection, single-threaded and never run two sessions against each other.",
  ["src/client.rs", "src/tls.rs", "src/cipher/mod.rs"],
  [("per-connection state only", "src/client.rs TlsClient, src/tls.rs"), ("per-session keys", "src/client.rs handshake")],
  ["per-connection histories compared with solo runs"])

p("C20", "Connections hold bounded memory and release everything",
  "However much data and however many records pass over a connection, in either direction and including records that carry no data, the memory it holds between calls stays bounded by the largest single message, record or call, not by the amount of traffic or the number of calls. When a connection is dropped, or connecting fails, for whatever reason and at whatever point, the memory, socket descriptors and threads it held are released, so that any number of connections can be opened one after the other.",
  ["histories", "fault_sequences", "crash_points"],
  "every length of conversation, and every point and reason at which a connection ends",
  "No test runs a connection; memory that grows with traffic or stays behind after a failure shows only over long or repeated executions.",
  ["src/client.rs", "src/tls.rs", "src/util.rs", "src/cipher/mod.rs"],
  [("handshake buffer", "src/tls.rs"), ("leftover plaintext", "src/client.rs Read impl"), ("socket pair", "src/client.rs TlsClient::from_tcp")],
  ["bytes the client's calls have allocated and not freed, open descriptors and threads of the process"])

p("N01", "Cryptographic primitives compute their standard functions",
  "For every input, the SHA-256, HMAC-SHA-256, TLS PRF, ChaCha20, Poly1305 and P-256 field and point operations return the values their standards define.",
  ["inputs"], "all inputs of each primitive",
  "The tests hold a handful of vectors per primitive.",
  ["src/crypto/sha2.rs", "src/crypto/chacha20.rs", "src/crypto/poly1305.rs", "src/crypto/p256.rs", "src/cipher/prf.rs"],
  [("primitives", "src/crypto")], ["return values"])

p("N02", "Wire encoding and decoding are inverse for every message type",
  "Decoding the encoding of any representable message yields the same message, re-encoding any accepted encoding yields the same bytes, and the reported size equals the encoded length.",
  ["inputs"], "all values of every wire type, including those the client never exchanges",
  "One ClientHello is round-tripped in the tests.",
  ["src/tls_item.rs", "src/handshake.rs", "src/signature.rs", "src/alert.rs", "src/cipher/ecdhe.rs"],
  [("TlsItem macros", "src/tls_item.rs")], ["encode/decode results"])

p("N03", "Secret-dependent operations take time independent of the secret",
  "Comparison of authentication values, scalar multiplication and record decryption take time that does not depend on secret values or on whether authentication succeeded.",
  ["inputs"], "all secrets and all attacker inputs",
  "Timing is not tested.",
  ["src/util.rs", "src/crypto/p256.rs", "src/cipher/chacha20_poly1305.rs"],
  [("constant-time selection", "src/crypto/p256.rs choose/compare"), ("decrypt before tag check", "src/cipher/chacha20_poly1305.rs")], ["timing"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")

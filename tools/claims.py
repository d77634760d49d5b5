NOTES = "No hooks in /repo are needed: the harness drives the exported API; concurrency checks instrument a copy of the current sources through go's -overlay."
NOT = {"C28": "Unpredictability and timing are statements about probability distributions and physical time, not about reachable states or executions; model checking cannot decide them."}
CLAIMS = {
"C01": ("model_checking", "exhaustive enumeration of server behaviours (bounded deviations from the honest flight) against the real client, with an independent reference TLS 1.3 server as oracle", "Dolev-Yao style attacker with the reference server's primitives; x509 verification itself is the Go standard library's."),
"C02": ("model_checking", "exhaustive enumeration of client behaviours (bounded deviations from the honest client flight) against the real server, with an independent reference TLS 1.3 client as oracle", "mint signs and verifies client CertificateVerify with the server's context string (a known TODO of the draft era); signatures over the RFC's client context are given no verdict."),
"C03": ("model_checking", "explicit-state enumeration of the RFC 8446 protocol automaton; every legal path and every one-message departure from it is replayed against the real endpoint by a reference peer", "TLS; over DTLS a datagram out of place may be dropped."),
"C04": ("model_checking", "exhaustive enumeration of single modifications (every bit flip, drop, duplicate, reorder, truncation, extension and semantic rewrite of every handshake message) on the wire between two real endpoints, with the transcript-agreement oracle", "unauthenticated header bytes (record version, DTLS header) are outside the property; faults at cryptographic level excluded"),
"C05": ("exploration", "exhaustive enumeration of pairs of configurations over small domains, run as complete handshakes between real endpoints and compared with an independent negotiation model", "preference lists without duplicates; PKCS#1 and SHA-1 schemes excluded"),
"C06": ("exploration", "exhaustive enumeration of server selections against real clients (up to k departures from an honest selection, per offer) and of client hellos against real servers, each answered by an independent reference peer and judged by a legality model; exhaustive enumeration of what a retry carries (every combination of required, forbidden and unknown extensions up to 2-3 of them, with and without an extension handler)", "retry together with early data excluded; unsolicited extensions other than those named are given no verdict"),
"C07": ("model_checking", "exhaustive enumeration of operation sequences (writes of boundary sizes, reads of every buffer class, key updates, padding, empty records) on connected real endpoints against each other and against an independent reference peer; every step compared with a two-stream model", "Lengths are drawn from boundary classes (0,1,2,fragment limits +-1,several fragments); sequences up to depth 3-5."),
"C08": ("fault_enumeration", "exhaustive enumeration of single-byte alterations, truncations, extensions, replays, reorderings, reflections and forgeries of records of short histories, fed to real endpoints; delivered bytes compared with the intact-prefix model", "DTLS replay of an unaltered record of the current epoch gets no verdict: mint has no replay window."),
"C10": ("model_checking", "exhaustive enumeration of interleavings of key updates (requested or not, by either side, crossing), data and reads on real endpoints against each other and against a reference peer holding the RFC 8446 key schedule", "Depth 4-6 operations per session."),
"C12": ("model_checking", "exhaustive enumeration of resumption histories (tickets issued, altered, aged, mixed, replayed, chained; binder and identity deviations) on real endpoints against each other and against a reference peer with an independent RFC 8446 PSK/binder computation", "ages 3-9 s off the ticket's view get no verdict (mint measures real time with 5 s tolerance)."),
"C13": ("model_checking", "exhaustive enumeration of second-hello behaviours (right, missing, malformed, every altered, foreign and misplaced cookie), application handler answers and handshake variants against real servers by a reference client with an independent transcript; every single alteration of cookie tokens", "a fresh server connection for the second hello is explored over TLS only."),
"C11": ("model_checking", "exhaustive enumeration of placements of early writes and reads in the handshake schedule of two real endpoints, and of early-data behaviours of a reference client or server, compared with a stream model", "TLS only; anti-replay across connections is not claimed (mint has none)."),
"C22": ("model_checking", "exhaustive enumeration of API calls (singly and in pairs) at every step of every handshake variant, and of failures at every position of a reference peer's script followed by every legal continuation and call sequence", "a transport that ignores Close is included."),
"C24": ("model_checking", "exhaustive enumeration of alerts (every level, description and length) at every state of connections and handshakes, of event sequences (data, warnings, closing and fatal alerts, key updates, violations) against a model, and of violations whose answering alert an independent reference peer decrypts", "alerts in the clear once keys are in place, and alerts under refused early-data keys, get no verdict on the value reported."),
"C23": ("exploration", "exhaustive enumeration of handshake variants (role, transport, suite, group, PSK mode, retry, client authentication, early data), exporter inputs and boundary shared secrets; every derived value is compared with an independent key schedule holding the other end's secrets", "over DTLS the schedule of mint's draft (TLS labels, 12-byte message headers in the transcript) is the reference; leading zeros in a server-side secret are waited for, not constructed."),
"C17": ("model_checking", "exhaustive enumeration of fragmentations (every single cut, sequences of ranges between cut points, overlaps, duplicates, several per record, inconsistent ones at every position) and arrival orders of a reference peer's flights into real endpoints; after every fragment the end's state must be that of the complete messages. mint's own fragmentation is explored over message sizes and orders between two real ends", "an end may fail or stall after an inconsistent fragment, it may not accept other bytes; fragments that share a record with the end of a key-changing message are excluded."),
"C18": ("fault_enumeration", "exhaustive enumeration, in virtual time, of networks that apply every combination of up to k deviations (loss, duplicate, swap, late repeat, late arrival) to the first n datagrams of complete handshakes of two real endpoints, of loss sets, bursts and periodic faults over fragmented handshakes and key updates, and of the subsets of a flight that a reference peer acknowledges", "non-blocking mode: the application calls when a datagram arrives and when the advertised timer expires (also late)."),
"C27": ("exploration", "exhaustive enumeration of handshake variants x subsets of messages carrying extensions x numbers and sizes, between two real endpoints and against a reference peer that reads the wire and places the extensions; every handler call fails in turn", "server-side extensions are also explored when the client did not offer them."),
"C25": ("fault_enumeration", "exhaustive enumeration of transport faults over complete real histories (handshake variants, data both ways, key updates; client and server; blocking and non-blocking): every read and every write fails in each of 15 ways, pairs of faults, and the stream ends or breaks after every byte; every call is monitored for unreported failures and everything read is compared with what was sent", "a transport that returns a short count without an error is not counted as failing; faults of one end only."),
"C21": ("model_checking", "exhaustive enumeration of deliveries of the same history to a real endpoint: every cut of the byte stream, pairs of cuts, every chunk size and transport read limit, every packing of handshake messages into records and of records into datagrams, blocking and non-blocking; after every chunk the observable state must be that of the whole records delivered so far, and the outcome (also of histories with a fault in each record) that of record-by-record delivery", "packings respect key changes; over datagrams a call may would-block although further datagrams are waiting."),
"C26": ("exploration", "exhaustive enumeration of configurations (every public field alone, every pair, all together; empty, default and set) through Clone, Init, Dial and Listen, and of dial networks, addresses, timeouts, server names, peers and listener failures, each observed through the handshake it gives", "uses loopback sockets; time-outs are real time with wide margins."),
"C15": ("exploration", "exhaustive enumeration of types (a grid of shapes and tags nested up to three deep), of all values over boundary domains and of all byte strings up to a bound over a boundary alphabet, every truncation, alteration and extension of every encoding, and every sequence of tag tokens; all compared with an independent codec", "maps with unsorted or repeated keys may be accepted; types of no size are only claimed not to hang."),
"C16": ("exploration", "exhaustive enumeration of message and extension bodies over boundary domains of every field, of every truncation, byte alteration and extension of each encoding and of all short byte strings, compared with the wire format and with grammars written from RFC 8446; of all lists of up to three (thorough: four) good, malformed, repeated and unknown extensions for every set of targets; of all sequences of additions against a model", "limits of the standard that mint does not enforce get no verdict."),
"C09": ("model_checking", "every record an endpoint hands to its transport is attributed to one key and nonce with the reference key schedule over all operation sequences up to a depth after every handshake variant, in the middle of each (single and pairs of stages), with one transport failure of each kind at each write, over all pairs of DTLS network deviations in virtual time, across sequence-number carries and epoch exhaustion; hello randoms, key shares, tickets, nonces and cookies are collected over families of connections, processes and identical clocks and must never repeat", "statistical freshness is judged by repetition and by bytes that do not vary, not by an entropy estimate."),
"C14": ("exploration", "exhaustive enumeration of alterations (boundary values at every byte and window, cuts, insertions, removals, doublings, pairs) of every message of every handshake variant, correctly protected and bound, of record headers and inner plaintexts, of sequences of hostile records, of invalid public values, certificates and signatures, of post-handshake messages, and of floods with the heap measured; every call of the interface follows each", "memory and time are judged against fixed bounds (12 MB live, 64 MB for a peer that sends a 16 MB message; 60 s per flood)."),
"C19": ("model_checking", "stateless exploration of the implementation under a controlled scheduler (every statement that touches memory beyond the goroutine is a switching point, locks are modelled): every schedule up to a bound of preemptions of two and three goroutines that read, write, update keys, answer, receive alerts and acknowledgements and close on one connection, with a peer that is scripted or a goroutine pair of its own; and the same programs under the race detector with hand-overs that do not synchronise", "sequentially consistent memory within one execution; the race detector decides about the rest. mint's own goroutines, if any, are not scheduled."),
"C20": ("model_checking", "enumeration of all histories of up to two to four connections of different kinds over one configuration object, each compared with the same connection on a copy of its own; and, under the controlled scheduler, of every schedule up to a bound of preemptions (switching where configurations, stores and globals are touched) of two such connections at once, and the same under the race detector", "package-level state is initialised once per process, before most schedules."),
}

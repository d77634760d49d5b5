#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A client completes only with an authenticated server",
 "A client handshake completes only if the peer proved, over this very handshake, possession of the private key of the certificate it presented (chaining to the configured roots, valid now and for the configured server name, and accepted by the application's verification callback), or possession of a pre-shared key that this client itself offered. With verification disabled the proof of possession of the presented certificate's key is still required and the callback is still consulted. Every other peer makes the handshake fail, whatever else it sends.",
 ["inputs","configurations","histories"],"every peer behaviour: every combination of presented chain, signature key, scheme, signed transcript, callback verdict, PSK/key-share selection and Finished value, for every client configuration",
 "The tests run honest mint peers and one or two bad certificates; an attacker can combine any message contents in any way, including claiming a PSK that was never offered.",
 ["client-state-machine.go","crypto.go","handshake-messages.go"],
 [("CertificateVerify check, x509 verification, callback","client-state-machine.go clientStateWaitCV.Next"),("server Finished check","client-state-machine.go clientStateWaitFinished.Next"),("PSK selection","client-state-machine.go clientStateWaitSH.Next")],
 ["Conn.Handshake","Conn.ConnectionState"])
p("C02","A server only reports client identities that were proven",
 "When a server that asked for client authentication completes, the peer certificates it reports are exactly the chain the client presented, the client proved possession of the leaf's key over this very handshake with an acceptable scheme, and the application's callback accepted the chain. A client that presents a certificate without such a proof never gets the handshake to complete; a client that presents none is reported as having none.",
 ["inputs","configurations","histories"],"every client behaviour in the authentication flight: chain, signing key, scheme, signed transcript, omitted or repeated messages, callback verdict",
 "The tests use one honest client certificate and one rejecting callback; they never forge a signature, replay one from another handshake or sign with another key.",
 ["server-state-machine.go","client-state-machine.go","crypto.go"],
 [("client CertificateVerify check and callback","server-state-machine.go serverStateWaitCV.Next"),("empty certificate branch","server-state-machine.go serverStateWaitCert.Next")],
 ["Conn.Handshake","Conn.ConnectionState"])
p("C03","Only the legal order of handshake messages is accepted",
 "Over TLS, in either role, for every sequence of handshake messages (and application-data, alert or unknown records) a peer can send, a handshake makes progress exactly along the protocol's state diagram: the first message that is not allowed at its place makes the handshake fail with an error, and the handshake completes exactly when the sequence is a complete legal one. After completion only key updates and (at a client) session tickets are accepted as handshake messages.",
 ["histories","configurations"],"all message sequences up to the longest legal handshake plus one message, each message being otherwise correctly formed and protected for its place, for every handshake variant of both roles",
 "The tests drive a few hand-written paths through the state machines; the property quantifies over all orderings, omissions, repetitions and insertions.",
 ["client-state-machine.go","server-state-machine.go","state-machine.go","conn.go","handshake-layer.go"],
 [("per-state message type checks","client-state-machine.go, server-state-machine.go *.Next"),("post-handshake dispatch","state-machine.go stateConnected.ProcessMessage, conn.go consumeRecord")],
 ["Conn.Handshake","Conn.Read"])
p("C04","No modification of the handshake on the wire goes unnoticed",
 "If anything between two endpoints changes, drops, duplicates, truncates, extends or swaps handshake content, the two endpoints never both complete the handshake, and the client never completes on a modified server flight. Whenever both complete they agree on cipher suite, application protocol, resumption, early-data use, exported keying material and traffic keys.",
 ["inputs","fault_sequences","configurations"],"every single-byte change (several masks) of every handshake message and every record-level drop, duplication, swap and truncation, in every handshake variant",
 "The tests never interpose on the wire; the Finished and transcript logic is only exercised with untouched transcripts.",
 ["client-state-machine.go","server-state-machine.go","crypto.go","handshake-layer.go"],
 [("transcript hash and Finished MACs","client-state-machine.go clientStateWaitFinished.Next, server-state-machine.go serverStateWaitFinished.Next")],
 ["Conn.Handshake","Conn.ConnectionState","Conn.ComputeExporter"])
p("C05","Negotiation succeeds exactly when it can, with an agreed outcome",
 "For every pair of client and server configurations the handshake completes if and only if they share a cipher suite, a key-exchange group and a usable certificate and signature scheme for the requested name (or a usable pre-shared key in a shared key-exchange mode). Both sides then report the same cipher suite and application protocol, each being the client's most preferred one that the server supports, and the server's certificate matches the requested name.",
 ["configurations"],"all ordered non-empty sub-lists of the supported suites, of the groups, of the protocols, of the signature schemes and of the PSK modes on both sides, and all certificate sets up to two certificates",
 "The tests pick a handful of configurations; agreement and success must hold for all pairs.",
 ["negotiation.go","server-state-machine.go","client-state-machine.go","crypto.go"],
 [("DHNegotiation, PSKModeNegotiation, CipherSuiteNegotiation, ALPNNegotiation, CertificateSelection","negotiation.go")],
 ["Conn.Handshake","Conn.ConnectionState"])
p("C06","A peer can only select something that was offered",
 "A client aborts if the server selects a protocol version, cipher suite, key-share group, pre-shared key, application protocol, signature scheme or early data that the client did not offer, or answers without contributing a required key exchange. A server never selects a version, suite, group, protocol, key-exchange mode or pre-shared key that the client's hello did not offer, and aborts when the hello leaves nothing acceptable.",
 ["inputs","configurations"],"every value of each selection field from a domain containing all offered, all supported-but-not-offered and several unknown values, for every client offer; every client hello with each offer list varied independently",
 "The tests exercise honest peers, which never select an unoffered value.",
 ["client-state-machine.go","server-state-machine.go","negotiation.go","extensions.go"],
 [("selection checks","client-state-machine.go clientStateWaitSH.Next, clientStateWaitEE.Next"),("negotiation","negotiation.go")],
 ["Conn.Handshake","Conn.ConnectionState","wire bytes"])
p("C07","Application data is a faithful byte stream in both directions",
 "After a handshake, for every sequence of writes and reads of every size (zero, one, around and beyond the maximum record size) on both sides, the bytes read at one end are exactly the bytes written at the other, in order, without loss, duplication or invention, and each write reports exactly the number of bytes accepted. This holds across key updates and session tickets interleaved anywhere.",
 ["histories","inputs"],"all operation sequences (write sizes, read sizes, key updates, directions) up to the depth bound, for TLS and DTLS and each cipher suite",
 "The tests write short strings and read them back; boundary sizes, partial reads and interleavings are not covered.",
 ["conn.go","record-layer.go","frame-reader.go"],
 [("fragmentation","conn.go Conn.Write"),("read buffering","conn.go Conn.Read, readPartial, consumeRecord"),("record framing and padding removal","record-layer.go, frame-reader.go")],
 ["Conn.Read","Conn.Write"])
p("C08","Damaged, forged, replayed or reordered records are never delivered",
 "Over TLS, if protected records are altered, truncated, replayed, dropped, swapped, injected, taken from the other direction or protected under wrong keys, the receiver delivers at most the longest intact in-order prefix of what was sent and then reports an error, never any other byte. Over DTLS every delivered payload is one the peer sent, altered or forged datagrams are not delivered, and genuine ones still are.",
 ["fault_sequences","inputs"],"every single-byte alteration of a protected record, and all sequences of up to k drop/duplicate/swap/replay/inject/cross-direction operations over a short record history",
 "The tests decrypt one altered record at the record layer; they do not drive whole connections with an active attacker.",
 ["record-layer.go","conn.go","crypto.go"],
 [("AEAD open with implicit sequence number and header as associated data","record-layer.go DefaultRecordLayer.decrypt, nextRecord")],
 ["Conn.Read"])
p("C09","No key and nonce pair is used twice and nothing fresh repeats",
 "No two different records sent by an endpoint are ever protected under the same key and nonce, over every epoch change, early data, key update, session ticket, alert and retransmission. Hello randoms, key shares, ticket identities and nonces and cookies are fresh on every use.",
 ["histories","configurations","fault_sequences"],"all histories of sends, key updates, tickets, alerts and DTLS retransmissions up to the depth bound, in each role and handshake variant",
 "A repeated nonce is invisible to the application: the peer still decrypts, so no functional test notices.",
 ["record-layer.go","crypto.go","conn.go","state-machine.go"],
 [("per-key sequence numbers","record-layer.go writeRecordWithPadding, incrementSequenceNumber, computeNonce"),("rekeying","record-layer.go Rekey, conn.go takeAction")],
 ["wire bytes"])
p("C10","Key updates keep both directions in step",
 "For every sequence of key updates (requested or not, by either side, crossing in flight) and data in both directions, each side's records are protected under exactly the keys of the generation it announced, as the standard derives them, and both sides keep decrypting everything. A request is answered by exactly one update, an unrequested update by none, and an update never changes the keys of the other direction.",
 ["histories"],"all sequences of write/read/update/update-with-request events of both endpoints up to the depth bound, including simultaneous updates; against an independent implementation of the key schedule",
 "The tests do one or two updates between two copies of the same code, so a wrong but symmetric derivation passes.",
 ["state-machine.go","conn.go","record-layer.go","crypto.go"],
 [("KeyUpdate / ProcessMessage","state-machine.go"),("rekey actions","conn.go takeAction, SendKeyUpdate")],
 ["Conn.SendKeyUpdate","Conn.Read","Conn.Write","wire bytes"])
p("C11","Early data arrives in order exactly once, or not at all",
 "Early data written by a client is delivered to the server application in order and exactly once, before any later data, if and only if both sides report that early data was accepted; when it is rejected none of it is delivered and the handshake still completes and later data flows. Early data is accepted only with a pre-shared key the client holds and a server that allows it.",
 ["histories","configurations"],"all combinations of early-data offer, server policy, PSK validity and number and size of early writes, and all read/write interleavings up to the depth bound, for honest and independent peers",
 "The tests cover one accepted and one rejected run with one short write.",
 ["server-state-machine.go","client-state-machine.go","conn.go","negotiation.go"],
 [("early data reading and skipping","server-state-machine.go serverStateWaitEOED, serverStateReadPastEarlyData"),("end of early data","client-state-machine.go clientStateWaitFinished.Next")],
 ["Conn.Read","Conn.Write","Conn.ConnectionState"])
p("C12","Resumption works only with a genuine, matching ticket",
 "A server resumes only if the client offers an identity it knows together with a binder proving possession of its key over this hello, a plausible ticket age for resumption tickets and a suite with the same hash; a known identity with a wrong binder or age makes the handshake fail, and an unknown one falls back to a full handshake. Client and server derive the same key for every ticket, so every issued ticket can be used, and a resumed session keeps the original cipher suite and application protocol.",
 ["inputs","histories","configurations"],"all combinations of identity lists (known, unknown, order), binder corruptions at every byte, age offsets around the tolerance, suites, key-exchange modes and protocol lists; chains of resumptions",
 "The tests resume once with an honest peer; they do not forge binders or vary the rest.",
 ["negotiation.go","state-machine.go","client-state-machine.go","server-state-machine.go"],
 [("PSKNegotiation","negotiation.go"),("ticket issue and storage","state-machine.go NewSessionTicket, ProcessMessage; conn.go takeAction StorePSK")],
 ["Conn.Handshake","Conn.ConnectionState","wire bytes"])
p("C13","A required cookie really gates the server",
 "A server that requires a cookie never gets past its hello retry for a client that does not echo a cookie protected by that server's cookie key and approved by the application, and never completes with a cookie that was issued for another hello or leads to another cipher suite; a client echoing the cookie completes as without retry (early data, when offered, is then rejected), with or without resumption, TLS or DTLS. The application's part of the cookie comes back to it exactly as generated. Cookie tokens decode to exactly what was encoded and every altered or foreign token is refused.",
 ["inputs","histories","configurations"],"every single-byte corruption of a token, every cookie (missing, foreign, replayed for another hello or suite), all combinations of cookie requirement, handler verdicts, statefulness of the server, PSK use and transport",
 "The tests use honest clients and one altered token.",
 ["server-state-machine.go","client-state-machine.go","cookie-protector.go"],
 [("cookie creation and check","server-state-machine.go serverStateStart.Next"),("retry handling","client-state-machine.go clientStateWaitSH.Next"),("token AEAD","cookie-protector.go")],
 ["Conn.Handshake"])
p("C14","Hostile input never crashes or hangs an endpoint",
 "Whatever bytes the peer sends, at any point of a handshake or connection, in either role, over TLS or DTLS, in cleartext or correctly protected, no call panics, loops forever or allocates without bound: it returns data, an error or would-block. Invalid key-exchange values are rejected with an error and never yield a predictable shared secret.",
 ["inputs","histories"],"systematic single and double mutations (every byte, every length field, truncation at every position, boundary values) of every message and record at every state, including correctly encrypted malformed content",
 "The tests fuzz two parsers for moments and never feed malformed but correctly encrypted content.",
 ["record-layer.go","handshake-layer.go","conn.go","client-state-machine.go","server-state-machine.go","crypto.go","extensions.go","handshake-messages.go","dtls.go","syntax/decode.go"],
 [("length checks and bounded parsers","record-layer.go, handshake-layer.go, syntax/decode.go"),("public value validation","crypto.go keyAgreement")],
 ["Conn.Handshake","Conn.Read"])
p("C15","The generic presentation codec is faithful",
 "For every supported type, every value that encodes decodes back to the same value consuming exactly the encoded bytes, and encoding follows the declared presentation (big-endian integers, length prefixes, varints, optional flags, sorted maps). Decoding never reads past a declared length, rejects truncated, over-long and out-of-bounds vectors and invalid flags with an error, never panics, and whatever it accepts re-encodes to the bytes it consumed unless a non-minimal integer form or a map with unsorted or repeated keys was read. Contradictory or malformed tags are refused.",
 ["inputs","programs"],"a grid of type shapes and tags (nesting up to 3) and, for each, all values over a small domain and all byte strings up to a length bound over a boundary alphabet",
 "The tests check a list of examples.",
 ["syntax/encode.go","syntax/decode.go","syntax/tags.go"],
 [("encoders","syntax/encode.go"),("decoders","syntax/decode.go"),("tag validation","syntax/tags.go")],
 ["syntax.Marshal","syntax.Unmarshal"])
p("C16","Handshake messages and extensions encode and parse canonically",
 "Every handshake message and extension body encodes to the wire format of the standard and parses back to an equal value; parsing accepts a body only if all its length fields are consistent, consumes what it reports, and re-encoding an accepted body gives back the same bytes (names after the first in a server_name list are ignored). Looking up extensions in a list finds each extension exactly when present and rejects malformed or duplicate ones.",
 ["inputs"],"for every message and extension type, all field values over boundary domains, and every single-byte change, truncation and extension of each encoding",
 "The tests round-trip one example per type.",
 ["handshake-messages.go","extensions.go"],
 [("Marshal/Unmarshal of each body","handshake-messages.go, extensions.go"),("ExtensionList.Add, Find, Parse","extensions.go")],
 ["exported Marshal/Unmarshal methods"])
p("C17","DTLS handshake messages are reassembled correctly",
 "Over DTLS, however the peer splits its handshake messages into fragments (any cut points, overlaps, duplicates) and in whatever order the fragments and messages arrive, each message is processed exactly once, complete, in message order and with exactly the bytes sent; inconsistent fragments never corrupt a message or crash the endpoint.",
 ["fault_sequences","inputs"],"all fragmentations of the peer's messages into up to k pieces with overlaps, all arrival orders of up to n fragments, with duplicates, and inconsistent length/offset combinations",
 "The tests reassemble a few hand-written fragment orders in isolation.",
 ["handshake-layer.go"],
 [("fragment queue and reassembly","handshake-layer.go newFragmentReceived, checkMessageAvailable, noteMessageDelivered")],
 ["Conn.Handshake"])
p("C18","A DTLS handshake survives loss, duplication and reordering",
 "If the network drops, duplicates or reorders any datagrams but eventually delivers retransmissions, and both applications keep driving their connections when the advertised timer expires, the DTLS handshake completes at both ends with agreed results and data flows. Until a flight is answered or acknowledged the endpoint always has a retransmission scheduled within its advertised timeout, acknowledged fragments are not sent again, and after completion retransmissions stop.",
 ["fault_sequences","schedules"],"all drop/duplicate/delay decisions over the datagrams of a handshake up to a deviation bound, with virtual time, for the full, retry, client-auth and resumption handshakes",
 "The tests lose one or two fixed packets in one configuration.",
 ["dtls.go","timer.go","handshake-layer.go","conn.go"],
 [("retransmission and ACK","dtls.go"),("timers","timer.go")],
 ["Conn.Handshake","Conn.Read","Conn.GetDTLSTimeout"])
p("C19","One connection may be read, written and updated concurrently",
 "One goroutine reading, one writing and one sending key updates on the same established connection, while the peer does the same, behave like some sequential order of those calls: no deadlock, no lost, duplicated or corrupted data, no record the peer cannot decrypt, no torn message, and no nonce used twice.",
 ["schedules"],"all interleavings of two to three goroutines at synchronisation and statement granularity up to a preemption bound",
 "The tests never use a connection from two goroutines under a controlled scheduler; races need a particular interleaving.",
 ["conn.go","record-layer.go","state-machine.go"],
 [("record layer locks","conn.go Read, Write, sendAlert, SendKeyUpdate"),("connected state","conn.go Conn.state")],
 ["Conn.Read","Conn.Write","Conn.SendKeyUpdate"])
p("C20","Connections sharing a configuration do not affect each other",
 "Connections that share one configuration object, one after another or concurrently, in any roles and order, each behave as if they had their own copy: nothing negotiated or received on one changes what another offers, selects or reports, except that tickets become available for later resumption. The configuration the application passed is not changed beyond filling in defaults, and it may be used, cloned and shared from several goroutines.",
 ["schedules","histories","configurations"],"all histories of up to n connections (with retries, failures, resumptions) over one configuration object, and all interleavings of two handshakes up to a preemption bound",
 "The tests build a fresh configuration for nearly every connection.",
 ["conn.go","client-state-machine.go","server-state-machine.go"],
 [("Config.Init, Clone, mutex","conn.go"),("use of shared Config in the state machines","client-state-machine.go, server-state-machine.go")],
 ["Conn.Handshake","Config"])
p("C21","Transport chunking and blocking mode do not change behaviour",
 "However the transport splits or coalesces the byte stream (down to one byte at a time, records and handshake messages split or packed arbitrarily) and whether the connection is blocking or non-blocking, the handshake reaches the same result, the same data is delivered and the same kind of failure occurs. A non-blocking call never blocks, reports would-block exactly when more input is needed and loses nothing.",
 ["inputs","schedules","histories"],"every cut point of the byte stream up to two cuts, all fixed chunk sizes, all packings of messages into records, in both modes and roles",
 "The tests use one in-memory pipe that delivers whole writes.",
 ["frame-reader.go","record-layer.go","handshake-layer.go","conn.go"],
 [("frame reassembly","frame-reader.go"),("would-block propagation","record-layer.go, handshake-layer.go, conn.go Handshake")],
 ["Conn.Handshake","Conn.Read"])
p("C22","No data before completion and no recovery from failure",
 "Before its handshake completes an endpoint delivers no application data and sends none, except negotiated early data; calls made too early return an error and change nothing. Once a handshake has failed it stays failed: later calls never report success, deliver or send application data, whatever the peer sends afterwards.",
 ["histories","inputs"],"all sequences of API calls (handshake, read, write, key update, exporter, state) interleaved with every prefix of a legal or corrupted peer flight, continued after every kind of failure with every legal continuation",
 "The tests call the API in the documented order only and stop at the first error.",
 ["conn.go","client-state-machine.go","server-state-machine.go"],
 [("connected checks","conn.go Read, Write, Writable, SendKeyUpdate, ComputeExporter"),("error handling in Handshake","conn.go Handshake")],
 ["Conn.Handshake","Conn.Read","Conn.Write","Conn.SendKeyUpdate","Conn.ComputeExporter"])
p("C23","Keys and exported secrets follow the published key schedule",
 "Every traffic key, Finished value, binder, resumption key and exported secret equals what RFC 8446 prescribes for the negotiated suite, the exact transcript (including retries, client authentication, resumption and early data) and the Diffie-Hellman secret in its full fixed length, including leading zeros. Both ends export equal values for equal inputs, and different labels, contexts or lengths give independent values.",
 ["inputs","configurations"],"every combination of suite, group, PSK mode, retry, client authentication and early data, shared secrets with leading zero bytes, and a grid of exporter labels, contexts and lengths, against an independent implementation",
 "Both ends run the same code, so a deviation from the standard that is symmetric passes every test.",
 ["crypto.go","client-state-machine.go","server-state-machine.go","conn.go","handshake-layer.go"],
 [("HKDF labels and key schedule","crypto.go; clientStateWaitSH/WaitFinished.Next; serverStateNegotiated.Next"),("exporter","conn.go ComputeExporter")],
 ["wire bytes","Conn.ComputeExporter"])
p("C24","Alerts are well formed, honoured and truthful",
 "Every alert an endpoint sends is a two-byte level and description under the keys in force, and a detected fatal error in a connected session is reported to the peer. After the handshake a received close-notify ends the stream cleanly after all data sent before it, a received fatal alert is reported as that error, a warning is ignored, and whatever ends the stream does so for good; during the handshake an authentic alert ends the handshake with that error. No alert, whatever its contents, is ever turned into data, success or an endless wait.",
 ["inputs","histories"],"all level and description bytes and all alert record lengths up to a bound, at every point of the handshake and connection, in both roles, protected and not",
 "The tests send one or two alerts.",
 ["conn.go","alert.go","handshake-layer.go"],
 [("alert reception","conn.go consumeRecord, handshake-layer.go readRecord"),("sendAlert","conn.go, handshake-layer.go")],
 ["Conn.Read","Conn.Handshake","wire bytes"])
p("C25","Transport failures surface as errors and never as corruption",
 "If any transport read or write fails, returns short data, would-block, a timeout or end-of-file at any point, the affected call returns an error (or would-block) and never panics or hangs; what was already delivered stays a prefix of what was sent, no later call invents or skips data, and an unexpected end of the stream is never reported as successful completion.",
 ["fault_sequences","crash_points"],"a failure of each kind at every transport read and write of a handshake and data exchange, in both roles, TLS and DTLS, blocking or not",
 "The tests inject one or two read errors.",
 ["conn.go","record-layer.go","handshake-layer.go","frame-reader.go"],
 [("error propagation","record-layer.go nextRecord, writeRecordWithPadding; handshake-layer.go; conn.go")],
 ["Conn.Handshake","Conn.Read","Conn.Write"])
p("C26","Configuration cloning, defaults and dialling preserve settings",
 "A cloned configuration carries every public setting of the original; defaulting fills in only settings that were left empty; dialling infers the server name only when none was given, selects datagram mode by network, and never modifies the configuration it was given. A listener completes the handshake before handing out a connection or reports why it could not.",
 ["configurations"],"every public field set individually and all together, with every dial and listen parameter combination",
 "The tests check only some fields.",
 ["conn.go","tls.go"],
 [("Config.Clone, Config.Init","conn.go"),("DialWithDialer, Listener.Accept","tls.go")],
 ["Config.Clone","Dial","Listen"])
p("C27","Custom extensions reach the peer's handler intact",
 "Extensions that an application's handler adds to a message arrive unchanged at the peer's handler for the same message and at no other, next to the protocol's own extensions, for every message that carries them; if any handler call reports an error the handshake fails and does not complete.",
 ["configurations","inputs","fault_sequences"],"every subset of messages carrying a custom extension, body sizes from zero to large, in both directions, with or without retry and resumption, and a failure of each handler call in turn",
 "The tests cover one extension body and one failing call.",
 ["client-state-machine.go","server-state-machine.go","extensions.go"],
 [("ExtensionHandler Send/Receive calls","client-state-machine.go, server-state-machine.go")],
 ["AppExtensionHandler","Conn.Handshake"])
p("C28","Secrets and nonces are unpredictable to an observer",
 "An attacker who sees all network traffic cannot predict private keys, randoms, tickets or cookies, and learns nothing about secrets from timing.",
 ["inputs","histories"],"all observers",
 "Tests see functional behaviour only.",
 ["crypto.go"],[("use of the system random source","crypto.go prng")])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

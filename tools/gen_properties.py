#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only for readable editing)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

TESTS="The existing tests are 24 hand-written UBuf cases; "

p("C01","UBuf behaves as a bounded byte deque for every operation sequence",
 "Whatever sequence of tail writes, head writes, reads, peeks and resets is applied to a UBuf (allocated with any capacity and head reservation, or wrapped around a caller's slice of any length and capacity), every result, error and length equals that of a bounded byte deque: bytes come out exactly once and in order, and head-writable + readable + tail-writable always equals the capacity. An operation that reports failure for lack of room or data leaves the contents unchanged, except that a byte-slice Write/Read/Peek transfers and reports exactly the prefix that fits. No operation on a valid buffer panics.",
 ["histories","inputs","configurations"],"every operation sequence up to the explored depth, from every (capacity, reservation, construction) in a small domain, with every operand size around the boundaries",
 TESTS+"each applies one fixed sequence to one 64/8 buffer, so boundary combinations (exact fit, zero length, wrapped slice with spare capacity, reset in mid-stream) are never reached.",
 ["ubuf.go"],[("reader/writer index arithmetic","ubuf.go"),("length guards before every access","ubuf.go")],
 ["return values and errors of UBuf methods","ReadableLength/HeadWritableLength/TailWritableLength/Capacity"],
 [("reader/writer position","bounds of the readable window","ubuf.go UBuf")])

p("C02","UBuf integers keep their value and their declared byte order",
 "A 16-, 32- or 64-bit value written to a UBuf at the tail or at the head occupies exactly its width in bytes, laid out most-significant-byte first for the BE and the unsuffixed methods and least-significant-byte first for the LE methods; reading or peeking with the same order returns the value, and reads advance by exactly the width while peeks do not. When fewer bytes (or less room) than the width are available the call fails and nothing changes.",
 ["inputs","histories"],"every integer method x every byte position set, at every fill level and offset around the width",
 TESTS+"they use one symmetric-looking constant per width, at offset zero, and never look at the raw bytes for every method.",
 ["ubuf.go"],[("encoding/binary with explicit order","ubuf.go"),("width guards","ubuf.go")],["raw bytes read back","values returned by ReadUxx/PeekUxx"])

p("C03","UBuf stream transfers lose and duplicate no byte",
 "Filling a UBuf from any io.Reader stores exactly the bytes the reader delivered (including bytes returned together with an error) and reports that count and error, never more than the free tail room; draining a UBuf into any io.Writer consumes exactly the bytes the writer accepted (including on a short or failed write) and reports that count and error. So interrupting and resuming a transfer at any point reproduces the byte stream exactly.",
 ["inputs","fault_sequences","histories"],"every sequence of reader/writer answers (count 0..max, with and without error) interleaved with other buffer operations up to the explored depth",
 TESTS+"they use a reader/writer that always fails with count 0 and one that always succeeds completely.",
 ["ubuf.go"],[("ReadFrom/WriteTo advance by the reported count","ubuf.go")],["ReadFrom/WriteTo results","bytes accepted by the writer","buffer contents afterwards"])

p("C04","Safe snapshots are isolated from each other and from their source",
 "After a copy-on-write or direct-copy snapshot, source and snapshot hold the same readable bytes and lengths, and from then on no operation on either one - tail writes, head writes, ReadFrom, reads, resets, further safe snapshots of either - is observable through the other, for any number of snapshots taken of snapshots. Taking or writing through a snapshot never panics.",
 ["histories","configurations"],"every operation history over a family of up to 3-4 handles (snapshots of snapshots) up to the explored depth",
 TESTS+"one snapshot, one tail write on each side; head writes on a shared buffer, chains of snapshots and re-sharing after a copy are never exercised.",
 ["ubuf.go"],[("reference count plus copy-on-write flag","ubuf.go"),("copy before first write","ubuf.go")],["bytes and lengths seen through each handle"],
 [("refCount","how many handles share the storage","ubuf.go uBufData")])

p("C05","Copy-on-write snapshots stay isolated when used from different goroutines",
 "When each copy-on-write handle of a buffer is used by its own goroutine, then under every interleaving each goroutine reads exactly the bytes its own operations imply, as if it had a private copy made at snapshot time. No interleaving lets two handles write the same storage or lets one handle copy bytes another has already overwritten.",
 ["schedules","histories"],"all interleavings (within the deviation bound) of 2-3 goroutines each running 1-3 operations on its own handle of one shared buffer",
 "The tests are single-threaded; the window is between the reference-count update and the copy.",
 ["ubuf.go"],[("atomic reference count","ubuf.go"),("order of copy and release","ubuf.go")],["bytes each goroutine reads back through its handle"])

p("C06","Framed messages survive any segmentation of the byte stream",
 "With the frame decoder in the stack, the sequence of messages delivered upward equals the sequence of messages the sender framed - same number, order and contents - however the transport cuts the byte stream into reads (mid-header, mid-payload, several frames per read, one byte at a time), for any number of messages over the life of the connection and for messages of every size up to the MTU. Cutting the stream differently never changes, loses, merges, truncates or duplicates a message.",
 ["inputs","histories","configurations"],"every segmentation of every message sequence in the bounded domain, for several MTU and cache-capacity settings (cache capacity at least the largest frame)",
 "No test touches the frame decoder; the space of segmentations is exponential in the stream length.",
 ["proc_frame_decoder.go","proc_lowerdeck.go","ubuf.go"],[("4-byte length prefix","proc_frame_decoder.go OnUpperData"),("partial-frame cache","proc_frame_decoder.go")],["messages arriving at the endpoint / upper processor"],
 [("partial-frame cache","bytes of an incomplete frame","proc_frame_decoder.go")])

p("C07","Frame reassembly of one connection never affects another",
 "When several connections feed the same frame decoder, each connection's messages are reassembled as if it were the only one, for every interleaving of their reads and every schedule of their receiving goroutines, including when a connection ends in mid-frame and another follows. Bytes of one connection never appear in, complete, delay or discard a message of another.",
 ["schedules","histories","inputs"],"all interleavings of the read events of 2-3 connections with all cut points, plus all goroutine schedules within the deviation bound",
 "No test runs two connections, and the failure needs two of them to be in mid-frame together.",
 ["proc_frame_decoder.go","proc_lowerdeck.go"],[("reassembly state","proc_frame_decoder.go"),("one receive goroutine per connection","proc_lowerdeck.go")],["(connection, message) pairs delivered upward"])

p("C08","No bytes from a peer can crash or hang the receiving process",
 "Whatever bytes a remote peer sends - truncated, zero-length or oversized frames, unknown tags, garbage to any codec - the receiving stack never panics, never spins or blocks forever on that input, and never delivers upward a message that the codec could not decode. Other connections keep exchanging messages normally afterwards.",
 ["inputs","configurations"],"every byte string over a boundary alphabet up to the explored length, for every single-codec stack with every subset of header processors, cut at every point",
 "No test feeds malformed network input to any processor.",
 ["proc_frame_decoder.go","proc_codec_bytes.go","proc_codec_string.go","proc_codec_json.go","proc_codec_gob.go","proc_codec_generic.go","proc_heartbeat.go","proc_stat_counter.go","proc_session_resolver.go","proc_load_balancer.go"],
 [("length and error guards in each processor","proc_*.go")],["panics","progress of the receive loop","messages delivered"])

p("C09","Any composition of processors is transparent end to end",
 "For a codec on top of any selection and order of session resolver, frame decoder, heartbeat, statistics counter, pass-through filter/forwarder, flow controller and disabled processors, identical on both peers, every message an endpoint sends is delivered to the peer endpoint exactly once, unchanged and in order, and no processor's own header or control message is ever visible to an endpoint.",
 ["configurations","inputs","histories"],"every ordered selection of up to 4 processors (with repetition of none) under each codec, x message sequences",
 "No test assembles a stack at all; there are hundreds of orders and each needs its own head-room and header symmetry.",
 ["ustack_default.go","proc_base.go","proc_upperdeck.go","proc_lowerdeck.go","proc_session_resolver.go","proc_frame_decoder.go","proc_heartbeat.go","proc_stat_counter.go","proc_load_balancer.go"],
 [("upper/lower linking","ustack_default.go build"),("header push on the way down, pop on the way up","proc_*.go"),("overhead accumulation","ustack_default.go")],["messages in the peer endpoint's Rx channel"])

p("C10","A message within the MTU is sent whole; a larger one is not sent at all",
 "For every MTU and every stack of enabled processors, the overhead the stack reports equals the bytes its processors add, an encoded message of up to MTU minus overhead bytes is transmitted and delivered complete, and a larger one (or one of the wrong type or that fails to encode) puts nothing on the wire. The bytes on the wire for one message never exceed the MTU and are never a truncated message or a message with a missing header.",
 ["inputs","configurations"],"every payload size around every boundary x every MTU in a range x every processor composition x every codec",
 "No test computes an overhead or sends a message of boundary size.",
 ["ustack_default.go","proc_codec_bytes.go","proc_codec_string.go","proc_codec_json.go","proc_codec_gob.go","proc_codec_generic.go","ubuf.go"],
 [("head room reserved = total overhead","proc_codec_*.go"),("short-write check in codecs","proc_codec_*.go")],["bytes written to the transport connection","messages delivered"])

p("C11","Messages reach exactly the endpoint of their session",
 "With the session resolver in the stack, a message is delivered to the peer endpoint whose session number equals the message's destination session (the sending endpoint's own session unless the message names another one) and to no other endpoint, for every session number from 0 to 2^32-1. A message for a session without an endpoint is dropped without disturbing any other delivery, and clearing a destination restores the default.",
 ["inputs","configurations","histories"],"every assignment of boundary session numbers to endpoints and messages, every order of sends",
 "No test has two endpoints; errors show only for particular session values (high bits, wrap-around, zero).",
 ["proc_session_resolver.go","proc_upperdeck.go","endp_default.go"],[("32-bit session header","proc_session_resolver.go"),("lookup by session","proc_upperdeck.go")],["which endpoint's Rx channel receives which message"])

p("C12","Codecs return exactly the message that was encoded",
 "For every codec, decoding the encoding of a (non-empty) message that its format can represent yields an equal message of the registered type, and a message the codec does not accept, or one whose encoding or decoding fails, is dropped instead of being delivered altered. Decoding the received bytes never affects later messages, and messages already delivered never change when later ones arrive.",
 ["inputs","histories"],"every message in a bounded domain for each codec, and every ordered pair/triple of messages (no cross-message state)",
 "No test touches a codec; aliasing between successive messages needs a multi-message history.",
 ["proc_codec_bytes.go","proc_codec_string.go","proc_codec_json.go","proc_codec_gob.go","proc_codec_generic.go"],
 [("fresh buffer per message","proc_codec_*.go")],["messages delivered, re-inspected after later deliveries"])

p("C13","Messages over a connection arrive exactly once and in sending order",
 "Under every schedule, the messages one endpoint sends on one connection of a framed stack arrive at the peer endpoint exactly once, in the order they were put in the send channel and with their bytes intact, even while other endpoints, the heartbeat or the statistics counter send on the same connection and traffic flows in the other direction. A slow or full receiver only delays messages: none is lost, reordered or duplicated.",
 ["schedules","configurations"],"all schedules within the deviation bound and all short-read choices of two real stacks over TCP and Unix transports with 1-3 senders",
 "The tests start no goroutine; a reordering or byte interleaving needs two senders preempted between specific steps.",
 ["proc_upperdeck.go","proc_lowerdeck.go","endp_default.go","tran_tcp.go","tran_unix.go"],
 [("one sending goroutine per endpoint","proc_upperdeck.go"),("one write call per message","proc_lowerdeck.go OnUpperData / ubuf.go WriteTo"),("one receive goroutine per connection","proc_lowerdeck.go")],["receive channel contents in order"])

p("C14","Each connection is announced once, then data, then closed once",
 "For every connection, every registered listener and endpoint sees exactly one new-connection event, which comes before any message of that connection is delivered, and exactly one connection-closed event after the connection ends - whichever side closes it, and whether a failed read, a failed write, a heartbeat loss, a transport stop or several of these at once ended it. When the closed event is seen the connection reports itself closed.",
 ["schedules","fault_sequences"],"all schedules within the deviation bound x every way of ending a connection x a fault at every read and write",
 "No test opens a connection; double close needs the reader and a writer to fail concurrently.",
 ["proc_lowerdeck.go","tran_tcp.go","tran_unix.go","ustack_default.go"],[("close-then-publish","proc_lowerdeck.go closeConnection"),("publish before starting the receive loop","proc_lowerdeck.go")],["events seen by stack listeners and endpoint listeners"])

p("C15","Adding and deleting endpoints at run time takes effect exactly",
 "In a running stack, an added endpoint sends and receives like one added before start; once a deletion has completed and the stack is idle, nothing the deleted endpoint sends is transmitted and nothing is delivered to it, while other endpoints lose nothing. Deleting and re-adding, in any history and under any schedule, restores full service without duplicating, losing (except those in flight at deletion) or reordering messages.",
 ["histories","schedules"],"every add/delete/send history up to the explored depth x all schedules within the deviation bound",
 "No test adds an endpoint; the failure needs a deletion while the sender goroutine is busy.",
 ["proc_upperdeck.go","ustack_default.go"],[("per-endpoint goroutine with stop signal","proc_upperdeck.go"),("locked endpoint table","proc_upperdeck.go")],["what appears on the wire and in Rx channels after deletion / re-adding"])

p("C16","Starting and stopping TCP and Unix transports is safe at any moment",
 "Starting, deleting and re-adding a TCP or Unix transport at any moment - before it listens, while dialing or retrying, while a connection is being accepted or handed over, repeatedly - never panics or deadlocks; once stopped and idle, all its connections are closed, it accepts or opens no new one, its address is free, and its waiting goroutines have ended. A transport that is started again works like a new one and is not stopped by leftovers of its previous run.",
 ["schedules","histories"],"every start/stop/connect history up to the explored depth x all schedules within the deviation bound",
 "No test starts a transport; the failures need a stop between listen, accept, hand-over and dial steps.",
 ["tran_tcp.go","tran_unix.go","proc_lowerdeck.go","ustack_default.go"],[("running flag under lock","tran_tcp.go/tran_unix.go Run/Stop"),("hand-over channel","tran_tcp.go/tran_unix.go")],["panics, blocked goroutines, open connections, listening addresses"])

p("C17","A client transport keeps dialing until connected or out of retries",
 "A client transport started before its server connects as soon as a retry finds the server, within the configured number of attempts spaced by the configured interval, and then yields exactly one connection. After that many failed attempts it gives up: no further attempt is made, its connection wait ends and no connection is ever announced.",
 ["histories","configurations","schedules"],"every retry count/interval in a small domain x every moment the server appears (or disappears), in virtual time",
 "No test dials; the behaviour spans minutes of real time.",
 ["tran_tcp.go","tran_unix.go"],[("retry loop","tran_tcp.go/tran_unix.go connect")],["dial attempts and their times on the simulated network","events"])

p("C18","The reference transport hands over the same objects, in order, both ways",
 "Two reference transports with the same address deliver every object sent on one side to the other side as the identical reference, exactly once and in order, in both directions and under every schedule, independently of transports with other addresses and through stacks containing the frame decoder, heartbeat, statistics counter and load balancer. Stopping one side at any moment never panics, closes its connection and ends its waits.",
 ["schedules","histories","configurations"],"all schedules within the deviation bound of two or four stacks over reference transports, small queue sizes, stop at every point",
 "No test uses the reference transport.",
 ["tran_reference.go","proc_lowerdeck.go","proc_frame_decoder.go","proc_heartbeat.go","proc_stat_counter.go","proc_load_balancer.go"],
 [("shared channel pair by address","tran_reference.go"),("reference pass-through branches","proc_*.go")],["object identity and order at the receiving endpoint","events"])

p("C19","Heartbeat loss is reported exactly when the peer falls silent",
 "While the peer's heartbeats keep arriving with gaps below the timeout, no heartbeat-lost event is published and the connection stays open, whatever the phase between heartbeats and checks; once no heartbeat has arrived for the timeout, exactly one lost event naming that connection follows within about one check period, and the connection is closed if and only if close-on-lost is set. Connections that are already closed never produce a lost event, and one connection's heartbeats never keep another alive.",
 ["histories","schedules","configurations"],"every pattern of heartbeat arrivals over the timeout window, interval/timeout/close settings and 1-2 connections, in virtual time, with schedule deviations",
 "No test runs a heartbeat; the behaviour spans tens of seconds of real time.",
 ["proc_heartbeat.go"],[("last-seen map under mutex","proc_heartbeat.go"),("periodic check","proc_heartbeat.go check"),("periodic send","proc_heartbeat.go OnEvent")],["events, Closed(), heartbeat bytes on the wire, with virtual time stamps"],
 [("monitors","last heartbeat time per connection","proc_heartbeat.go")])

p("C20","Statistics count every message exactly once",
 "A collect request received by an enabled statistics counter is answered on the same connection with the exact number of messages sent and received through it so far and the stack's name, under every schedule of concurrently sending endpoints and receiving connections. Requests and responses are themselves neither counted nor delivered upward, the collection interval is honoured, and a disabled counter counts nothing but passes messages unchanged.",
 ["schedules","histories","configurations"],"every history of sends, receives and requests up to the explored depth x all schedules within the deviation bound with 2-3 concurrent senders/receivers",
 "No test uses the counter; a lost update needs two goroutines inside the increment.",
 ["proc_stat_counter.go"],[("tx/rx counters","proc_stat_counter.go"),("request/response tags","proc_stat_counter.go")],["response bytes on the wire","messages delivered upward"])

p("C21","Filters, forwarders and discarders pass exactly what they should",
 "An enabled filter passes a message up or down if and only if at least one of its functions accepts it; an enabled forwarder passes a message on if and only if none of its functions takes it over; both consult their functions in the given order, stop at the first that answers true, and tell them the right direction. A discarder drops all received data and no sent data; when any of these is disabled, every message passes unchanged, and switching takes effect for the next message.",
 ["inputs","configurations","histories"],"every list of up to 3 functions with every truth assignment x direction x enable/disable history",
 "No test uses these processors (with their default construction the first message used to crash the process).",
 ["proc_filter.go","proc_forwarder.go","proc_discarder.go","proc_base.go"],[("function list evaluation","proc_filter.go, proc_forwarder.go"),("enable flag","proc_base.go")],["messages delivered above/below and the calls the functions see"])

p("C22","Echo and loopback return exactly what they were given",
 "An enabled echo processor sends every received message back, unchanged and in order, on the connection it came from - properly headed and framed for whatever processors lie below it - and delivers nothing upward; disabled, it is transparent. A loopback processor returns every sent message unchanged and in order to the endpoint selected by its session, and sends nothing down.",
 ["configurations","inputs","histories"],"every composition of processors below/above the echo or loopback x message sequences x 1-2 connections x segmentations",
 "No test uses either processor; missing head room shows only with particular processors below.",
 ["proc_echo.go","proc_loopback.go","proc_frame_decoder.go","ubuf.go"],[("received buffer reused for sending","proc_echo.go")],["bytes and messages returned"])

p("C23","Every event reaches every listener exactly once",
 "Each published event is delivered exactly once to every stack listener and to every endpoint registered when it is published and still registered when its turn comes, with the published type, source and data - even if a listener adds or deletes endpoints or listeners or transports from inside the callback, and while other goroutines publish events or change the registrations. Callbacks never deadlock or crash the stack.",
 ["histories","schedules"],"every reentrant add/delete action at every position among up to 4 endpoints x publish histories x schedules of concurrent publishers",
 "No test publishes an event; skipping needs a deletion during iteration.",
 ["ustack_default.go","endp_default.go"],[("listener and endpoint lists","ustack_default.go PublishEvent")],["callback log per listener"])

p("C24","A data listener sees every received message once, in order, one at a time",
 "Once a data listener is set on an endpoint, every message received for it - before or after - is passed to the listener set at that time exactly once, in arrival order, and calls never overlap, no matter how often and how quickly the listener is replaced by another one. An endpoint without a listener keeps its messages readable in order from its receive channel.",
 ["schedules","histories"],"all schedules within the deviation bound of set-listener calls x incoming messages",
 "No test sets a data listener.",
 ["endp_default.go","proc_upperdeck.go"],[("auto-receive goroutine","endp_default.go")],["listener call log"])

p("C25","Replies go to, and data is attributed to, the right connection",
 "A message delivered to an endpoint carries the connection it arrived on, and a message an endpoint sends leaves on exactly the connection it names and on no other, for any number of simultaneous connections over any mix of transports and every interleaving of their traffic. A message naming no connection, or one that is already closed, is dropped without a crash and without affecting any other connection.",
 ["schedules","histories","configurations"],"every interleaving of traffic of 2-3 connections (TCP + Unix), closed/absent connections at every position",
 "No test opens two connections.",
 ["proc_lowerdeck.go","proc_upperdeck.go","ustack_default.go"],[("connection stored in each message context","proc_lowerdeck.go, proc_upperdeck.go")],["which simulated peer receives which bytes","GetConnection() of delivered data"])

p("C26","Configuration calls return their own object and keep every setting",
 "Every chained setter on a stack, endpoint, endpoint data, context, processor, feature or transport returns the very object it was called on, and after any sequence of setter calls every getter returns the last value set for that name (options nil if never set; typed option parsing returns the value only for the exact type, else the default). Settings of one object never leak into another.",
 ["histories","inputs"],"every setter sequence up to the explored depth on every kind of object, in pairs",
 "No test calls a setter.",
 ["ustack_default.go","endp_default.go","proc_base.go","feat_base.go","tran_tcp.go","tran_unix.go","tran_reference.go","utils.go"],[("receiver returned by setters","all files"),("per-object option map","all files")],["returned objects and getter values"])

p("C27","Endpoint and transport registries follow add/delete histories exactly",
 "After any history of adding and deleting endpoints and transports, before or after start, the registry lists exactly those added and not deleted, each once, in order of addition; adding one already present or deleting one absent changes nothing and publishes nothing, and every effective addition or deletion publishes exactly one event naming it. Lists and events stay correct when several goroutines add and delete different objects concurrently.",
 ["histories","schedules"],"every add/delete history up to the explored depth over 3 endpoints and 2 transports x schedules of 2-3 concurrent mutators",
 "No test adds or deletes anything.",
 ["ustack_default.go"],[("duplicate check and slice update","ustack_default.go")],["GetEndPoint/GetTransport results, event log"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")

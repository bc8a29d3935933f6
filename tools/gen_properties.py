#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the entries stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":None}})
T="src/dbus_transport.cpp"; N="src/dbus_native.cpp"; MP="src/dbus_messageprotocol.cpp"; A="src/dbus_auth.cpp"; M="src/dbus_message.cpp"
p("P01","Outgoing messages reach the peer whole, in order, never interleaved",
 "Every message any thread sends on an authenticated connection appears on the peer's byte stream exactly once, as one contiguous unmodified copy of its encoding, however the operating system splits, delays or interrupts the writes. If one send call returned before another send on the same connection began, its message appears first. Nothing else is ever put on the stream between messages.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of sending threads and the I/O thread, all partial-write / would-block / interrupted patterns of the socket, all message sizes",
 "No existing test opens a Transport at all; tearing needs a full socket buffer in the middle of one message while another send is issued.",
 ["src/dbus_transport.cpp","src/dbus_transport.h","src/dbus_native.cpp"],
 [("send serialisation under the send mutex",T+": sendString/sendStringDirect"),("Native::send* marshal and hand over",N)],
 [("write queue / send mutex","messages accepted but not yet written","src/dbus_transport.h")],["peer side of the socket"])
p("P02","Messages sent before authentication completes are held, then all sent in order",
 "A message sent while authentication is still in progress puts no byte on the wire before the client's BEGIN line; once authentication completes every such message is transmitted exactly once, in the order the sends were made, and ahead of any message sent later. This holds for sends racing with the completion of the handshake, from any thread.",
 ["schedules","histories"],
 "all interleavings of send calls, BeginAuth and the handshake completing on the I/O thread, all handshake timings",
 "The pre-authentication queue is never exercised by a test; the risky window is between draining the queue and opening the direct path.",
 ["src/dbus_transport.cpp","src/dbus_auth.cpp"],
 [("queue until ready, flush then open",T+": sendString/onAuthComplete/addToMessageQueue"),("BEGIN before completion",A+": sendBegin")],
 [("m_BufferedMessages / m_ReadyToSend","messages waiting for authentication","src/dbus_transport.h")],["peer side of the socket"])
p("P03","The authentication dialogue follows the D-Bus protocol for any server",
 "A connection starts with a single NUL octet and each authentication attempt sends AUTH EXTERNAL with the caller's uid in hex; BEGIN is sent exactly once, only after the server's OK (and, when descriptor passing was requested, after the NEGOTIATE_UNIX_FD request has been answered by agreement or by an error). Every well-formed server dialogue, cut into reads at any byte boundary and including rejections followed by another attempt and unknown lines, reaches the same outcome, and message data that follows the final server line in the same read is not lost.",
 ["inputs","schedules","histories"],
 "all server line sequences (OK, REJECTED, ERROR, DATA, AGREE_UNIX_FD, unknown, retries), all segmentations, both authentication types",
 "AuthenticationProtocol has no unit test; multi-line dialogues and split lines need a server peer.",
 ["src/dbus_auth.cpp","src/dbus_transport.cpp","src/dbus_native.cpp"],
 [("line assembly and command dispatch",A+": onReceiveData/processData/onCommand"),("NUL octet",T+": Transport ctor"),("hand-over of the remaining bytes",N+": onReceiveAuthData")],
 [("m_data","unconsumed handshake bytes","src/dbus_auth.h")],["peer side of the socket","messages dispatched after OK"])
p("P04","Every complete incoming message is dispatched exactly once and in order",
 "However the incoming byte stream is segmented into reads, each complete valid message is dispatched exactly once, in arrival order and one at a time, whatever its byte order, serial number, size, flags, or unknown header fields. Messages of unknown type are skipped without affecting their neighbours, and nothing is dispatched before its last byte has arrived or held back once it has.",
 ["inputs","schedules","histories"],
 "all segmentations down to single bytes, mixed byte orders, messages from 16 bytes to many read buffers, all serial values, unknown message types and header fields",
 "The message-protocol tests feed a few captured messages split in a few ways straight into the parser; real reads go through the transport's fixed buffer, the auth hand-over and the connection's thread.",
 ["src/dbus_messageprotocol.cpp","src/dbus_transport.cpp","src/dbus_native.cpp","src/dbus_octetbuffer.cpp"],
 [("incremental framing with cache",MP+": onReceiveData/processData"),("read loop",T+": handle_read_data")],
 [("m_octetCache / m_State","bytes and parser state carried between reads","src/dbus_messageprotocol.h")],["registered handlers and callbacks"])
p("P05","What is sent is what any D-Bus decoder reads",
 "Every message the library puts on the wire is a valid D-Bus message whose header fields, flags, serial, signature and body values decode, under an independent implementation of the specification, to exactly what the caller supplied, including nested arrays, structs, dict entries and variants at any alignment. The convenience bus calls (Hello, RequestName, AddMatch, ...) send exactly the documented call.",
 ["inputs","histories"],
 "all call/return/error/signal messages built from values of all supported types, all nestings and alignments, all convenience calls and their arguments",
 "Existing tests compare marshalled values with a handful of literals or with the library's own decoder, so an error mirrored in both directions is invisible.",
 ["src/dbus_message.cpp","src/dbus_messageostream.h","src/dbus_type.cpp","src/dbus_type_array.cpp","src/dbus_type_struct.cpp","src/dbus_type_variant.cpp","src/dbus_native_messages.cpp","src/dbus_message_methodcall.cpp","src/dbus_message_signal.cpp","src/dbus_message_error.cpp","src/dbus_message_methodreturn.cpp"],
 [("header and body marshalling",M+": marshallMessage"),("alignment and padding","src/dbus_messageostream.h")],(),["peer side of the socket, decoded by the reference codec"])
p("P06","Handlers see exactly the message the peer sent",
 "Every valid message for which a handler is registered or a reply callback waits is decoded, whatever its parameters, and exposes to them exactly the header values (path, interface, member, sender, destination, serial, reply serial, reply-expected flag, error text) and the parameters, in number, type and value, that the peer encoded, in either byte order and at any nesting; echoing the received parameters back yields the same values.",
 ["inputs","histories"],
 "all valid messages over all supported types in both byte orders, all header-field combinations and orders",
 "Unit tests decode isolated values with few alignments and never compare a message as a handler sees it with what an independent peer encoded.",
 ["src/dbus_message.cpp","src/dbus_messageistream.cpp","src/dbus_type.cpp","src/dbus_message_error.cpp","src/dbus_message_methodcall.cpp","src/dbus_type_array.cpp","src/dbus_type_struct.cpp","src/dbus_type_variant.cpp","src/dbus_type_dictentry.cpp"],
 [("header field extraction and body decoding",M+": Base(header, body), parseParameters"),("alignment relative to the message start","src/dbus_messageistream.cpp")],(),["handler arguments"])
p("P07","Each reply reaches its own call's callback, exactly once",
 "The first valid reply or error carrying the serial of an outstanding call invokes exactly the success (respectively failure) callback given with that call, once, with that reply; no callback runs for duplicate or late replies, for serials never sent, or for calls sent without expecting a reply. This holds for replies in any order, calls issued concurrently from several threads or from inside callbacks, and callbacks that throw.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of callers and the I/O thread, all orders, duplications and omissions of replies, nested calls from callbacks",
 "No test registers a reply callback; a reply can arrive before the sending call has returned, which only scheduling control reaches.",
 ["src/dbus_native.cpp","src/dbus_message_error.cpp","src/dbus_message_methodreturn.cpp"],
 [("pending-call table keyed by serial, filled before the bytes are sent",N+": sendMethodCall"),("look-up and removal on reply",N+": onReceiveMethodReturn/onReceiveError")],
 [("m_MessageQueue","calls awaiting a reply","src/dbus_native.h")],["success and failure callbacks"])
p("P08","Method-call handlers run exactly for the calls they are registered for",
 "While a handler is registered for an interface and member, each incoming call of that name invokes it exactly once and no other handler; a call is never delivered to a handler whose unregistration has returned, and the handler is not still running then unless it is the one unregistering. Registering and unregistering from any thread, including from inside the running handler itself, is safe.",
 ["schedules","histories"],
 "all interleavings of registration, unregistration and dispatch, all handler-side actions",
 "Registration and dispatch have no tests; the interesting cases are races between an application thread and the dispatching thread.",
 ["src/dbus_native.cpp"],
 [("handler map look-up and call under its mutex",N+": onReceiveMethodCall, registerMethodCallHandler, unRegisterMethodCallHandler")],
 [("m_MethodCallMap","registered handlers","src/dbus_native.h")],["method-call handlers"])
p("P09","A signal reaches exactly the handlers and match rules it satisfies",
 "Each incoming signal invokes, once each, the handler registered for its interface and member and the handler of every installed match rule whose message type, sender, interface, member, path, path_namespace and destination constraints it satisfies, and no other. A rule installed before the signal arrives is honoured, a rule or handler whose removal has returned is not invoked, and adding or removing rules and handlers concurrently or from inside signal handlers is safe. A rule that is malformed, or that constrains both path and path_namespace, is refused with an exception and leaves nothing installed and nothing sent.",
 ["schedules","inputs","histories"],
 "all rule/signal combinations over the supported keys, all interleavings of adding, removing and dispatching, removal from inside handlers",
 "Match rules have no tests; path_namespace corner cases and removal during dispatch never occur in the suite.",
 ["src/dbus_native.cpp","src/dbus_matchrule.cpp","src/dbus_native_messages.cpp"],
 [("rule parsing and matching","src/dbus_matchrule.cpp: MatchRule, isMatched"),("dispatch to rules and handlers",N+": onReceiveSignal"),("rule table","src/dbus_native_messages.cpp: callAddMatch/callRemoveMatch")],
 [("m_RulesMap / m_SignalMap","installed rules and handlers","src/dbus_native.h")],["signal handlers"])
p("P10","Malformed or hostile input is contained",
 "No byte sequence from the peer, before or after authentication, crashes or hangs the process, reads or writes outside its buffers, or makes memory grow out of proportion to the bytes received. A message whose framing is sound but whose body does not decode is discarded without affecting the messages before and after it; after a header that cannot be framed nothing is dispatched that the peer did not send as a message.",
 ["inputs","fault_sequences"],
 "all byte streams: mutated, truncated and random messages, wrong lengths, bad signatures, deep nesting, oversized claims, garbage during the handshake, any segmentation",
 "Tests feed a few truncated inputs to single type decoders; hostile signatures, nesting and recovery of the connection are never tried.",
 ["src/dbus_messageprotocol.cpp","src/dbus_messageistream.cpp","src/dbus_octetbuffer.cpp","src/dbus_type.cpp","src/dbus_type_array.cpp","src/dbus_type_struct.cpp","src/dbus_type_variant.cpp","src/dbus_type_dictentry.cpp","src/dbus_auth.cpp","src/dbus_native.cpp"],
 [("bounds-checked buffer","src/dbus_octetbuffer.cpp"),("size limits",MP+": getHeaderSize/unmarshallHeader"),("containment of decode errors",MP+": onBodyComplete; "+N+": onReceiveMessageData")],(),["handlers, process state, allocated memory"])
p("P11","A throwing handler disturbs nothing else",
 "When a method, signal, match-rule or reply handler throws, the connection stays usable: every later message is still dispatched, pending calls of other threads still complete, no lock stays held, and the thrown-from callback is not invoked again for the same message.",
 ["schedules","histories"],
 "all handler kinds throwing standard or non-standard exceptions, at any position in the stream, with other traffic in flight",
 "No test has a handler that throws.",
 ["src/dbus_messageprotocol.cpp","src/dbus_native.cpp"],
 [("exception barrier around dispatch",MP+": onBodyComplete"),("scoped locks",N)],(),["handlers and callbacks after the throw"])
p("P12","A connection can be destroyed cleanly at any moment",
 "Destroying a connection from an application thread (not from inside one of its own callbacks) at any moment (before, during or after authentication, with traffic, unsent data or a stalled or vanished peer) returns within bounded time, leaves no thread or descriptor behind, never aborts or touches freed memory, and no handler or callback runs after it has returned.",
 ["schedules","crash_points","fault_sequences"],
 "all instants of destruction relative to every step of the I/O thread, all states of the peer and of the socket",
 "No test constructs a connection, so none destroys one; the failure modes are races with the I/O thread and its pending operations.",
 ["src/dbus_transport.cpp","src/dbus_native.cpp"],
 [("handlers replaced under the callback lock, socket shut down, I/O thread joined",T+": ~Transport; "+N+": ~Native")],
 [("m_ShuttingDown","destruction in progress","src/dbus_transport.h")],["return of the destructor, threads, descriptors, callbacks"])
p("P13","Losing the peer or an I/O error at any point is survived",
 "If the peer closes or resets the connection or any read or write fails, at any byte, the process keeps running: every complete message received before the loss has been dispatched, an incomplete one is not, and later sends return normally instead of failing or blocking. After a failed write nothing more is written to that stream, so the peer always sees a prefix of the correct byte stream.",
 ["fault_sequences","crash_points","schedules"],
 "close, reset and error injection at every read, write and byte position, in every state of the connection",
 "No test has a peer that disappears or a system call that fails.",
 ["src/dbus_transport.cpp","src/dbus_native.cpp","src/dbus_messageprotocol.cpp"],
 [("read error handling",T+": handle_read_data"),("write error handling",T+": handle_write_output")],(),["peer side of the socket, handlers, return of sends"])
p("P14","Sending never blocks on the peer or on handlers, and all traffic drains",
 "Sending a message returns promptly from any thread, including from inside handlers and callbacks, even while the peer has stopped reading or a handler or callback is running; the connection's own activity never deadlocks. Once the peer reads and writes again, every accepted message is transmitted and every pending incoming message is dispatched within bounded time.",
 ["schedules","fault_sequences"],
 "all interleavings of sends, handlers and I/O, peers that stall for arbitrary periods in either direction, spurious wake-ups and lost readiness",
 "Tests have no peer to stall and no threads to deadlock.",
 ["src/dbus_transport.cpp","src/dbus_native.cpp"],
 [("asynchronous writes",T),("lock order and scope",N)],(),["return of sends, peer side of the socket, handlers"])
p("P15","Message serials are unique and never zero",
 "Every message created in the process, by any thread and for any connection, carries a non-zero serial that no other message created in that process carries (serials being 32-bit numbers: none of the 2^32-2 messages created before it); the serial stays fixed for the life of the message and is the one that goes on the wire.",
 ["schedules","histories"],
 "all interleavings of message creation over threads and connections",
 "No test creates messages from more than one thread.",
 ["src/dbus_message.cpp"],
 [("process-wide counter under a mutex",M+": Base(uint32_t)")],
 [("m_SerialCounter","next serial","src/dbus_message.h")],["getSerial and the bytes on the wire"])
p("P16","Concurrent use of a connection is free of data races",
 "Using one connection from several threads at once (sending, registering and unregistering handlers, adding and removing match rules, authenticating, reading statistics) while it receives and dispatches traffic performs no unsynchronised conflicting memory accesses.",
 ["schedules"],
 "all interleavings of the public operations of a connection with each other and with its I/O thread, from construction to destruction",
 "The tests are single-threaded; a missing lock shows only under particular interleavings, if at all.",
 ["src/dbus_native.cpp","src/dbus_transport.cpp","src/dbus_auth.cpp","src/dbus_message.cpp","src/dbus_messageprotocol.cpp"],
 [("per-structure mutexes",N+"; "+T+"; "+A+"; "+M)],(),["every memory access of the library, under a happens-before race detector"])
p("P17","Reported statistics match what happened",
 "Whenever a connection is quiescent, its statistics report exactly the number of calls, returns, errors and signals sent and received, the messages queued before and pumped after authentication, and the bytes of authentication and message data received and of data sent and read.",
 ["schedules","histories"],
 "all traffic histories, segmentations and thread interleavings",
 "getStats is never called by a test; lost updates and miscounted segments depend on schedule and segmentation.",
 ["src/dbus_native.cpp","src/dbus_transport.cpp"],
 [("counters",N+": getStats; "+T+": getStats")],[("m_Stats","counters","src/dbus_native.h, src/dbus_transport.h")],["getStats text"])
p("P18","A failed connection attempt reports an error and leaves nothing behind",
 "Constructing a connection either succeeds or throws an exception derived from std::exception; after a failure at any step (no such socket, refused, out of descriptors or threads, interrupted) no descriptor, thread or callback is left behind, and a later attempt to a working address succeeds.",
 ["fault_sequences","crash_points"],
 "failure of each system call made during construction, in isolation and repeated, any address",
 "No test constructs a connection or injects a failing call.",
 ["src/dbus_transport.cpp","src/dbus_native.cpp"],
 [("construction order, exception safety of members",T+": Transport ctor; "+N+": Native ctor")],(),["exception, descriptors, threads"])
p("P19","Introspection XML describes the registered interfaces",
 "The XML an introspectable object serialises is well formed and lists exactly the interfaces, methods, signals, properties and arguments added to it.",
 ["inputs"],"all sequences of additions","Not covered by tests, but a pure function of its input.",
 ["src/dbus_introspectable.cpp"],[("serialisation","src/dbus_introspectable.cpp")])
p("P20","Bus addresses and hex strings are translated faithfully",
 "Resolving the session and system bus addresses from the environment yields the socket path the address names, and hex encoding and decoding are inverse to each other.",
 ["inputs"],"all environment values and byte strings","A few literals are tested; a pure function of its input.",
 ["src/dbus_platform.cpp","src/dbus_utils.cpp"],[("address lookup","src/dbus_platform.cpp"),("hex conversion","src/dbus_utils.cpp")])
p("P21","Connections in one process do not disturb each other",
 "Several connections of one process are independent: whatever happens to one of them (a hostile, stalled, slow or vanished peer, failed authentication, throwing or slow handlers, destruction at any moment) the others keep every guarantee - their messages go out and are dispatched whole and in order, and a reply, signal or call that arrives on one connection reaches only callbacks and handlers given to that connection.",
 ["schedules","fault_sequences","histories"],
 "all combinations of traffic on one connection with faults, hostile input, callbacks that throw and destruction on another, from any threads",
 "No test has even one connection; shared state (serial counter, logger, static buffers) and mixed-up tables show only with several.",
 ["src/dbus_native.cpp","src/dbus_transport.cpp","src/dbus_messageprotocol.cpp","src/dbus_auth.cpp","src/dbus_message.cpp","src/dbus_log.cpp"],
 [("per-connection I/O thread and tables",T+"; "+N),("process-wide serial counter",M+": Base(uint32_t)")],
 [("m_MessageQueue, m_MethodCallMap, m_SignalMap, m_RulesMap","per-connection tables","src/dbus_native.h")],["handlers, callbacks and peer side of every connection"])
p("P22","Memory is retained only for what is outstanding",
 "A connection keeps memory only for calls awaiting a reply, handlers and rules still installed, messages not yet written and the incomplete incoming message: handling any number of messages, replies, errors, undecodable bodies, unhandled or unknown messages or throwing callbacks does not make it grow, and destroying a connection, or failing to construct one, gives everything back.",
 ["histories","fault_sequences"],
 "all repetitive traffic of calls, replies, errors, signals, rejected bodies, throwing callbacks, (un)registrations and connection life cycles, of any length",
 "Tests run once and exit; growth per message is only seen over many repetitions against a live peer.",
 ["src/dbus_native.cpp","src/dbus_transport.cpp","src/dbus_messageprotocol.cpp","src/dbus_message.cpp"],
 [("removal of answered calls",N+": onReceiveMethodReturn/onReceiveError"),("buffers of written messages",T),("carried-over input",MP+": m_octetCache")],
 [("m_MessageQueue / m_octetCache / write queue","what is retained","src/dbus_native.h, src/dbus_messageprotocol.h, src/dbus_transport.h")],["live heap bytes allocated by the library"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print("valid",len(P))
except ImportError: print("written",len(P))

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/genprops.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":mech}; a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
AST="lib-secs2-hsms-go/pkg/ast/"; HP="lib-secs2-hsms-go/pkg/parser/hsms/parser.go"; SML="lib-secs2-hsms-go/pkg/parser/sml/"

p("C01","SECS-II data messages survive encode and decode unchanged",
 "Every data message that can be built from the item constructors without unresolved variables encodes to exactly the HSMS/SEMI E5 wire form (4-byte length, 10-byte header, format code, minimal 1-3 byte item lengths, big-endian values), and decoding those bytes gives back the same stream, function, wait bit, session id, system bytes and item tree with the same values. This holds for every item type and for every item size, including items and lists whose length needs two or three length bytes.",
 ["inputs"],"All item trees over every format code, nested to the enumerated depth and width, all boundary values of each numeric width, item lengths around 0, 255/256 and 65535/65536, all streams, functions and wait bits.",
 "The tests decode a few dozen hand-written byte strings, all shorter than 256 bytes; nothing relates encoder and decoder over item shapes and sizes.",
 [AST+"list.go",AST+"ascii.go",AST+"binary.go",AST+"boolean.go",AST+"int.go",AST+"uint.go",AST+"float.go",AST+"hsms.go",HP],
 "Each node's ToBytes plus getHeaderBytes produce the wire form; the parser inverts it using the format byte and the length bytes.")
p("C02","The binary decoder is total and accepts only complete messages",
 "For every byte string, decoding either yields a message or reports failure; it never panics, hangs or allocates out of proportion to the input. A message is returned only if the bytes are one complete well-formed HSMS message: every truncation of a valid message, every item length that exceeds the remaining bytes or is not a multiple of the element width, every unknown format code or session type, and every trailing byte after the item is refused.",
 ["inputs"],"All byte strings in the enumerated families: every prefix and every single-byte substitution of every message of a corpus covering all shapes, and every short body over an alphabet of structurally meaningful bytes.",
 "Tests give the parser a handful of malformed inputs; totality quantifies over all inputs a peer can send.",
 [HP,"codec/secs2.go"],"Length-guarded recursive descent in the parser; nil/false result on failure.")
p("C03","Message framing is independent of how the byte stream is cut up",
 "A receiver on a stream delivers exactly the sequence of messages that was written, in order, whatever the sizes of the chunks the transport delivers, and messages already delivered never change when later ones arrive. A frame whose declared length is below the HSMS header size, a frame that does not decode, or a stream that ends inside a frame is reported as an error and never as a message.",
 ["inputs","fault_sequences"],"All two-cut segmentations (thorough: three cuts) and the byte-at-a-time segmentation of every enumerated message sequence, and truncation at every byte offset.",
 "Tests use a real loopback socket whose segmentation is one whole frame per read.",
 ["codec/secs2.go","codec/bufio.go"],"io.ReadFull of a 4-byte length then of the declared body, buffer reuse between frames.")
p("C04","HSMS control messages are encoded exactly and responses mirror requests",
 "Every control message encodes to 14 bytes with length 10, PType 0, the SType of its kind and its session id, status and system bytes, and decoding gives the same message back. A response or reject built from a received message carries that message's session id (a linktest response carries 0xFFFF, as every linktest message does) and system bytes, with the given status or reason code (a reject also names the rejected SType), and building it never fails for any decodable message.",
 ["inputs"],"Every control message kind, every status and reason byte, boundary session ids and system byte patterns, every incoming message kind for the builders, including data messages.",
 "Tests cover a few constructors; the reject builder, for example, is not exercised on decoded messages.",
 [AST+"ast.go",AST+"hsms.go",HP,"hsms/error_messages.go"],"ControlMessage header array; NewHSMSMessage*Rsp copy fields from the request.")
p("C05","Printing a message as SML and parsing it back gives the same message",
 "For every data message without ellipsis, the SML text produced for it parses without errors or warnings into exactly one message equal to the original (name, stream, function, wait bit, direction, item types, values and variables), whatever characters its strings contain; printing the result gives the same text. The name has to be one word of an SML header: it does not start with '<' or '.', contains no comment mark and is not itself another header element.",
 ["inputs"],"All item trees to the enumerated depth over all types and boundary values, all one- and two-character strings over the 7-bit alphabet and structured longer strings, all wait bits and directions.",
 "Tests compare a few printed and parsed texts; the round trip quantifies over all values and characters.",
 [SML+"parser.go",SML+"lexer.go",AST+"ascii.go",AST+"ast.go",AST+"list.go",AST+"float.go"],"String methods of the nodes against the SML lexer and parser.")
p("C06","The SML parser is total and never accepts an erroneous message silently",
 "For every input text the SML parser terminates without panicking and returns messages, errors and warnings. A text that violates the grammar or gives an element outside its type's range or a size outside its bracket yields at least one error and no message for it, and a numeric literal that is accepted is stored with exactly its value (for a float, the nearest representable one). A text that follows the grammar is accepted, whatever white space and comments stand between its tokens, and what is accepted means the same when printed and parsed again. Memory and steps stay in proportion to the text; nesting is explored to 300 levels.",
 ["inputs","programs"],"All token sequences up to the enumerated length over the SML token alphabet, every single-token deletion, duplication and substitution in a corpus of valid messages, and all enumerated literals for each type.",
 "Tests cover individual error messages; neither totality nor absence of silent acceptance is settled by samples.",
 [SML+"parser.go",SML+"lexer.go"],"State-function lexer feeding a recursive-descent parser that collects errors.")
p("C07","Messages are immutable values and template filling substitutes exactly",
 "Filling variables, setting the wait bit or setting session id and system bytes returns a new message and never changes the original nor any other message derived from it. Filling replaces exactly the named variables, by the given values, in every node type; filling an ellipsis with n repeats what stands before it n more times, with the repetition's index appended to the variable names. The result is the same whether variables are filled at once or in steps (ellipses first), a value of a wrong type, out of the item's range or outside the variable's length bounds is refused, and a message is encodable exactly when no variable and no undecided header field is left.",
 ["inputs","histories"],"All templates of the enumerated shapes, all subsets and orderings of fill-in values, all ellipsis repeat counts in bounds.",
 "Tests fill a few templates once; aliasing and order independence quantify over histories of derivations.",
 [AST+"list.go",AST+"hsms.go",AST+"interface.go",AST+"ascii.go",AST+"int.go"],"Value-copying constructors; FillVariables on each node.")
p("C08","The HSMS session follows the connection state machine",
 "Against any sequence of control messages, data messages, silences and connection losses from the peer, the state the endpoint reports and the frames it sends are those of the HSMS state machine: connected-not-selected on connection, selected exactly after an accepted select exchange, not selected after deselect, and not connected after separate, a refused select, T7 expiry while not selected, or loss of the connection. T7 expires only if the session has stayed not selected for that long, and never ends a selected session. T8 limits the time between the characters of one message, and never ends a session that is merely silent. T7, T8 and the link test are off when their time is zero or less.",
 ["histories","schedules"],"All peer action sequences up to the enumerated depth for both the active and the passive role, with virtual time; the orderings of a select or deselect arriving at the instant T7 expires.",
 "Tests drive single scenarios in real time; the state machine quantifies over all histories.",
 ["hsms/protocol.go","hsms/connectionStateMachine.go","hsms/connection.go"],"handleHsmsRequests plus the connect/select/deselect/disconnect/timeoutT7 transitions and the T7 timer.",
 state=[{"name":"connection state","meaning":"NOT-CONNECTED, CONNECTED_NOT-SELECTED or CONNECTED_SELECTED"}])
p("C09","Data messages flow only while the session is selected",
 "A data message is put on the wire by the sending calls, and a received data message is passed to a handler, only while the session is selected. In any other state sending fails with the not-connected or not-selected error and writes nothing, and received data is not delivered to any handler or waiting sender. A send that races with the loss of its session never writes to the next connection, and a send reports success only if the message was written.",
 ["histories"],"All interleavings of peer select, deselect, separate, disconnect and data messages with local send calls of each kind, to the enumerated depth, both roles.",
 "Tests check one send before selection.",
 ["hsms/protocol.go"],"ensureReady before each send; state test in the receive loop.")
p("C10","A waiting sender gets exactly its own reply, and is not timed out early",
 "Each waiting send returns the reply (a secondary or stream 9 message) the peer sent with that transaction's system bytes if it arrives before T3 has elapsed, and otherwise fails: with an error when the peer rejects the message, else with the T3 error no earlier than T3. Nothing else the peer sends ends or answers it. Concurrent transactions never receive each other's replies or share system bytes, in whatever order and at whatever moment the replies arrive, and a reply is never lost because of how threads interleave.",
 ["schedules","histories"],"All schedules of one to three concurrent senders, the receiver and the peer up to the deviation bound, all reply orders, drops and delays around T3.",
 "One schedule of each race is run per test run; the repository's own round-trip tests are flaky exactly here.",
 ["hsms/protocol.go","utils/queue.go"],"Per-transaction queue keyed by system bytes; Deque.Get with T3 deadline.")
p("C11","Each primary reaches exactly one handler and its reply is addressed to it",
 "Every data message received while selected that answers no open transaction is given, once and in arrival order, to the handler registered for its stream and function, else to the default handler; the handler's reply is sent with the primary's system bytes. With no handler the peer gets S9F3 for an unknown stream or S9F5 for an unknown function of a known stream, quoting the offending code, and a stream 9 message is never answered by a stream 9 message.",
 ["inputs","histories"],"All streams and functions with and without the wait bit, all registration histories (register, replace, unregister, default) to the enumerated depth, handlers that reply, return nothing or fail.",
 "Tests register one handler and send one message; 128 x 256 codes and registration histories are not covered.",
 ["hsms/protocol.go","hsms/protocol_s9_helpers.go","hsms/error_messages.go"],"lookupHandler, invokeHandler, sendS9ErrorForUnrecognized.")
p("C12","A transaction timeout is reported to the peer once, with the right header",
 "When a waiting send ends in T3 and its session is still selected, exactly one S9F9 is sent whose single binary item is the 10-byte header of the timed-out primary, and none is sent for a transaction that was answered in time. Received stream 9 messages invoke the error callback once each with the function code and meaning.",
 ["schedules","histories"],"All patterns of answered, late and unanswered transactions in bounds, schedules of reply against timeout up to the deviation bound, all stream 9 functions.",
 "Tests check the header of one S9F9; exactly-once across timing and schedules is not sampled.",
 ["hsms/protocol_s9_helpers.go","hsms/protocol.go","hsms/error_messages.go"],"sendS9F9TransactionTimeout on queue timeout; triggerS9ErrorCallback.")
p("C13","Every control request is answered with its own system bytes, in every state",
 "While a connection is up, each select, deselect and linktest request from the peer gets exactly one matching response with the same session id and system bytes and the prescribed status, or a reject where the endpoint is not ready; unsolicited responses and rejects are absorbed. No control message, in any state or at any moment of a local disable or T7 expiry, crashes or wedges the endpoint.",
 ["histories","schedules"],"All control message sequences to the enumerated depth in both roles, with session ids matching, wildcard and mismatching, injected also at each phase of a local disable and of T7 expiry.",
 "Tests send the well-behaved handshake only.",
 ["hsms/protocol.go","hsms/connection.go",AST+"ast.go"],"handleHsmsRequests, sendSelectRsp/sendDeselectRsp/sendLinkTestRsp/sendReject.")
p("C14","The connection is re-established according to the retry policy",
 "While enabled, an endpoint whose connection is lost for any reason listens again (passive) or dials again after T5 (active) and can be selected again. Consecutive failed dials of an active endpoint are spaced by the base delay doubled per attempt and capped at the maximum, stop after the configured number of attempts or at once when reconnection is off, and the count restarts after a successful connection.",
 ["histories","fault_sequences","configurations"],"All sequences of dial refusals, accepts and losses (at each phase of the handshake, clean and abrupt) to the enumerated depth over the backoff configurations in bounds, in virtual time.",
 "Tests compute single delays; real-time tests cannot walk the retry schedule.",
 ["hsms/protocol.go","hsms/reconnection.go","hsms/reconnection_config.go"],"startConnectThread loop, calculateBackoffDelay, onStateDisconnect.")
p("C15","Enabling and disabling work in any order and leave nothing running",
 "After a disable the endpoint closes its connection or listener (an active one takes its leave with deselect.req if selected, and with separate.req if not or if that is not answered within T6), reports not connected, sends nothing more and starts no new connection until enabled again; after any sequence of enables and disables that ends in an enable it can be connected and selected. Neither call crashes, deadlocks or leaves the state machine, timers or connection threads behind, at whatever moment it is made.",
 ["histories","schedules"],"All enable/disable sequences to the enumerated depth, each placed at every phase of connecting, selecting, linktest and data exchange, and schedules up to the deviation bound.",
 "Tests enable once and disable once at the end.",
 ["hsms/protocol.go","hsms/connection.go","server.go"],"Enable/Disable flags, connection thread, connDone wait, server stop.")
p("C16","GEM communication is established, retried and lost exactly as S1F13/S1F14 say",
 "The handler reports COMMUNICATING only on a selected session after an accepted S1F13/S1F14 exchange in either direction; a refusal, a timeout or a malformed reply leads to another attempt after the configured delay while enabled, and loss or deselection of the session, or a local disable, ends COMMUNICATING. An attempt is ended only by an S1F14 that answers it; the state changes at the latest one supervision tick (500 ms) after its cause. A waiter for communication returns success exactly if that state is reached before its timeout.",
 ["histories","schedules"],"All peer behaviours (accept, each refusal code, malformed, silence, peer-initiated S1F13, link loss, deselect) to the enumerated depth, both device types, and schedules of handshake against disconnection and disable up to the deviation bound.",
 "Tests run the accept path in real time.",
 ["gem/handler.go","gem/communication_state.go"],"monitorLoop/observe, handshake, S1F13 handler, communicationState with waiters.")
p("C17","The equipment control state follows the GEM control model",
 "From any state, the operator calls and the S1F15/S1F17 requests move the control state only along the E30 transitions, answer with the acknowledge code for the state they found (S1F16 always accepts; S1F18 accepts, refuses or says already online), and notify observers once per actual change with the true previous and next state. Attempting the on-line state asks the host with S1F1 and ends on-line only on a valid S1F2; losing communication takes the equipment off-line from the attempt. The state observers see and the state the handler reports are one history, however operator calls, host requests and the loss of the session race.",
 ["histories","configurations","schedules"],"All sequences of operator calls and host requests to the enumerated depth, for every initial state configuration and every host answer.",
 "Tests follow one or two paths through the state machine.",
 ["gem/control_state_machine.go","gem/handler.go"],"controlStateMachine transitions and the S1F15/S1F17 handlers.")
p("C18","Report definition, linking and enabling obey the all-or-nothing SECS rules",
 "For any sequence of S2F33, S2F35 and S2F37 messages the acknowledge codes and the resulting definitions are those of the E5/E30 rules: a refused message changes nothing; an empty list deletes what it names (all reports, one report with its links, one event's links); redefinition, unknown variables, reports or events and duplicate links are refused with their code. Which events are enabled is exactly what the accepted S2F37 messages say (a registered event is enabled until one disables it), independent of its links.",
 ["histories","inputs"],"All sequences of these messages over a small universe of reports, variables and events, including multi-entry messages with one bad entry at every position and every integer encoding of ids, explored to the enumerated depth against a reference model.",
 "Tests define one report and link it once; atomicity across multi-entry messages is not reached.",
 ["gem/collection_event_handlers.go","gem/collection_events.go","gem/id_utils.go"],"defineReports, linkEventReports, setCollectionEventState with maps under a lock.")
p("C19","Event reports contain exactly the linked data, in order, when enabled",
 "Triggering an event sends one S6F11 carrying the event id and, for each linked report in link order, the report id and the current value of each of its variables in definition order; a disabled or unknown event sends nothing. The definitions used are those of one moment even while they change. S6F15 answers with the same content for the requested event, and the host side hands subscribers exactly what was sent.",
 ["histories","inputs"],"All reachable report/link/enable configurations of the enumerated universe, with values of every item type and with events without reports or variables.",
 "Tests check one report with one variable.",
 ["gem/collection_event_handlers.go"],"buildEventReport over eventLinks and reportDefinitions; S6F11/S6F15 handlers.")
p("C20","Status queries answer every requested id, in order, including unknown ones",
 "S1F3 and S2F13 answer with one entry per requested id in request order, the current value for known ids and an empty item for unknown ones, or with all of them for an empty request; S1F11 and S2F29 do the same for names, units and limits. The host-side calls return the same values, and no request makes the equipment fail to reply.",
 ["inputs","histories"],"All request lists up to the enumerated length over known, unknown and repeated ids in every id encoding, with values of every item type.",
 "Tests query one or two known ids.",
 ["gem/status_equipment_handlers.go","gem/status_equipment_messages.go","gem/status_equipment_client.go","gem/status_variables.go","gem/equipment_constants.go"],"Positional response building from the registries.")
p("C21","Equipment constant updates are all-or-nothing",
 "S2F15 sets every named constant to the given value and answers 0, or changes none of them and answers with a non-zero code, when any id is unknown or any value is refused by its validator. Afterwards S2F13 shows exactly the last accepted value of each constant. A malformed entry is refused like an unknown id; an application's updater is assumed to apply what its validator accepts.",
 ["histories","inputs"],"All update lists up to the enumerated length over valid, invalid and unknown entries at every position, in sequences to the enumerated depth, against a map model.",
 "Tests update one constant.",
 ["gem/equipment_constants.go","gem/status_equipment_handlers.go"],"S2F15 handler validating before applying.")
p("C22","Alarm enablement, reporting and listing agree",
 "An alarm that is set or cleared is reported by one S5F1 with its id, category, set/clear bit and text exactly if it is registered and enabled; S5F3 enables or disables exactly the listed alarms and answers 0, or answers with an error and changes nothing if one is unknown or malformed. S5F5 lists all registered alarms in the order of their ids with their current set and enabled bits, S5F7 lists exactly the enabled ones, and reports of racing changes go out in the order of the changes. The host side shows subscribers and callers the same.",
 ["histories","inputs"],"All sequences of register, set, clear, enable, disable and list requests over a small set of alarms to the enumerated depth, ids in every encoding, against a reference model.",
 "Tests check the builder functions and single calls.",
 ["gem/alarm.go","gem/alarm_handlers.go","gem/alarm_client.go"],"Alarm registry with enabled/set flags; S5F3/S5F5/S5F7 handlers.")
p("C23","A remote command runs its handler once and reports the result faithfully",
 "S2F41 invokes the command handler exactly once with the command name and the parameters as sent, and answers S2F42 with the handler's acknowledge code and per-parameter codes; a command or parameter without a valid name, or an absent handler, yields a non-zero acknowledge and no invocation. The host-side call sends each parameter with exactly the value it was given, whatever its type and size, or refuses a value that no item can hold without sending anything, and returns exactly what the equipment answered (codes the standard does not define are shown as refusals).",
 ["inputs","histories"],"All parameter lists up to the enumerated length over every item type including lists and empty items, all acknowledge codes, malformed bodies of every enumerated shape; host-side values of every type at the limits of every width.",
 "Tests send one command with string parameters.",
 ["gem/remote_command.go"],"S2F41 parsing, handler call, S2F42 building, host-side parsing.")
p("C24","Process programs are stored and returned byte for byte",
 "After S7F3 is acknowledged as accepted, S7F5 for that id returns exactly the bytes of the body last accepted, ASCII or binary, and a refused upload (by the application, or for a body of another type) leaves the store unchanged. A request for an unknown program, or any malformed request, is answered with a refusal or an empty body, never with another program or with silence.",
 ["histories","inputs"],"All sequences of uploads and requests over a small set of ids in every id encoding and bodies of every character and item type, to the enumerated depth, against a map model; callbacks accepting or refusing.",
 "Tests upload and fetch one program.",
 ["gem/process_programs.go","gem/process_program_handlers.go"],"Program store keyed by normalised id; S7F3/S7F5 handlers.")
p("C25","The clock can be read and set over the wire without distortion",
 "S2F17 is answered with the equipment's time as 16 digits (YYYYMMDDhhmmss00); S2F31 with a well-formed time (14 or 16 digits naming a second of the calendar) hands exactly that time to the clock handler, once, and answers its code, and with a malformed time or no handler answers non-zero without calling it. Formatting and parsing a time are inverse, and the host-side calls carry times and codes unchanged.",
 ["inputs","histories"],"Every enumerated date and time boundary, every single-character corruption of a valid time text, sequences of set and read.",
 "Tests format and parse a few instants.",
 ["gem/clock.go","gem/clock_handlers.go"],"Time formatting and parsing; S2F17/S2F31 handlers.")
p("C26","A session sends whole frames, closes once and reports it",
 "Concurrent senders on one session never interleave or lose parts of frames: what is written is a sequence of whole messages, each sender's in its own order, and a send that returned success before any close was attempted is written or queued; with a send queue no send waits, and one that finds no room fails with the blocked error and closes the session. Close takes effect exactly once, the underlying codec is closed once, later sends fail with the closed error, a codec that asks for it is given, once, every accepted message that was not written, and every registered close callback that was not removed runs exactly once.",
 ["schedules","fault_sequences"],"All schedules up to the deviation bound of concurrent senders, closers, callback registration and removal, receive failures and blocked writers, in synchronous and asynchronous mode, on sessions made by every constructor.",
 "Tests run one echo exchange; close races are not reached.",
 ["session.go"],"sendMutex and sendChan, CAS on closeFlag, closeChan, callback list.")
p("C27","Session registries hold exactly the live sessions and never deadlock",
 "A channel or manager contains exactly the sessions that were added and neither removed, replaced nor closed, once pending close notifications have run, under any concurrent mix of put, remove, fetch, close and dispose. Dispose closes every session, present or later, and returns after they are gone; no mix of these calls deadlocks.",
 ["schedules","histories"],"All schedules up to the deviation bound of two to three threads mixing these calls with session closes; all sequential histories to the enumerated depth.",
 "Tests use one channel sequentially.",
 ["channel.go","manager.go","session.go","server.go"],"Channel map with close callbacks; sharded manager map with dispose flag and wait group.")
p("C28","Length-prefixed and JSON codecs round-trip and enforce their limits",
 "For every head size, byte order, limit and payload that the wrapped codec itself carries, what one side sends is what the other side receives, in order; a payload beyond the send limit is refused before anything is written and a frame beyond the receive limit is refused before it is read. No input from the peer makes a codec panic, and JSON messages keep their registered type. Closing a codec closes its connection once, a failed write fails the send, a deadline set on a buffered codec is set on its connection, and a connection the wrapped protocol refuses is refused.",
 ["inputs","configurations"],"All payload sizes around each limit and head width, both byte orders, all enumerated header values including the extremes, all segmentations, all enumerated JSON documents.",
 "Tests round-trip one small message per codec.",
 ["codec/fixlen.go","codec/json.go","codec/byte.go","codec/bufio.go"],"FixLen header coding and limit checks; Json type registry.")
p("C29","The transaction queue is FIFO and never loses or delays an item",
 "Items put into the queue come out exactly once and in order, each waiting getter returns as soon as an item is available to it, and a getter fails only after its full timeout with the queue empty.",
 ["schedules"],"All schedules up to the preemption bound, at every shared access, of one to three putters and getters with equal and different timeouts.",
 "Lost wake-ups need one specific interleaving of put and get.",
 ["utils/queue.go"],"Locked list plus a notification channel and a deadline.")
p("C30","Events call exactly the registered callbacks",
 "Firing an event calls every callback that was added and not removed, once each, in registration order, with the given data; removing a callback removes that one only. Callbacks may themselves add, remove or fire without deadlock, and concurrent use loses no registration.",
 ["histories","schedules"],"All sequences of add, remove, fire and len over a few callbacks to the enumerated depth, re-entrant callbacks of each kind, schedules of two threads.",
 "No test covers the event type.",
 ["common/events.go"],"Callback slice under a mutex.")
p("C31","Ids that mean the same thing on the wire name the same object",
 "A numeric id (an item with one value) means the same variable, constant, event, report or alarm whichever integer width and signedness it is sent in, and an id sent as text names the object registered under that text. Replies and reports echo an id equal to the one it was registered or requested with. What is neither a non-negative integer nor ASCII text is no id: every constructor and call refuses it and sends nothing.",
 ["inputs"],"Every id type used at registration times every wire encoding used in requests, boundary values of each width, for each message that carries ids.",
 "Tests use one encoding per message.",
 ["gem/id_utils.go","gem/collection_event_handlers.go","gem/status_equipment_handlers.go","gem/alarm_handlers.go"],"Normalised id keys.")
p("C32","No message from the peer stops the equipment or goes unanswered",
 "Whatever body a selected peer sends with any stream and function, and in whatever order, the endpoint keeps running, stays connected, and every primary message (odd function, outside stream 9) with the wait bit is answered once, with its own reply function, a stream 9 error or an abort, with the primary's system bytes; without it nothing is sent back in its place. A following well-formed request is then answered normally. A reply of any content makes the call that awaits it return.",
 ["inputs","histories"],"Every body of the enumerated shapes (all item types, empty items, nestings to depth three, boundary ids) for every primary the equipment registers and for unregistered ones, in communicating and not-communicating states.",
 "Tests send well-formed requests only.",
 ["gem/handler.go","gem/collection_event_handlers.go","gem/status_equipment_handlers.go","gem/alarm_handlers.go","gem/process_program_handlers.go","gem/clock_handlers.go","gem/remote_command.go","hsms/protocol.go"],"Handlers registered in NewGemHandler; invokeHandler.")
p("C33","Message logging shows what was exchanged and never disturbs it",
 "With logging enabled, every data message sent or received, and every control message unless excluded, produces one log entry with its direction, identity and the configured text or binary form, written without interleaving; with logging disabled nothing is written. Logging in any mode changes neither the frames on the wire nor their order. The standard logger writes each event as one line with its level, text, keys and values.",
 ["configurations","histories"],"All modes, inclusion and exclusion settings and reconfigurations during a session, over the enumerated exchanges.",
 "Tests check one configuration.",
 ["hsms/protocol.go"],"logDataMessage, logControlMessage, ConfigureLogging.")
p("C34","A server hands every connection to its handler once and stops clean",
 "Every connection a server accepts is given to its handler exactly once, as a session that GetSession finds under its id until it is closed; a connection the protocol refuses is closed and disturbs no other. Temporary accept failures are retried after 5 ms, doubling to at most 1 s, afresh after each accepted connection; any other failure ends Serve with that error. Stop closes the listener and every session, those being accepted included, and Serve returns io.EOF; nothing of the server keeps running. Dial, DialTimeout and Listen give a working session or server, or an error, and leave no connection open when they fail.",
 ["histories","schedules","fault_sequences"],"All sequences, to the depth, of connections of each kind, messages, closes from both ends, accept failures and Stop, in both send modes, for Serve and SingleServe; all schedules to the deviation bound of two to three threads mixing them; up to fourteen accept failures in a row.",
 "Tests serve one client over a real socket; accept failures and Stop racing with connections do not happen in them.",
 ["server.go","api.go","manager.go"],"Accept with back-off, a goroutine per connection, Manager registry.")
p("C35","A host call succeeds only on its own answer",
 "A host-side GEM call returns success only if the secondary message of its own stream and function arrives for it, and then the result is what that message says. Any other message in its place (another function, a stream 9 error, an abort), an absent body or one of another item type than the call's, values more or fewer than were asked for, a reject, the end of the session or silence until T3 makes it return an error, and a later call is answered normally.",
 ["inputs","fault_sequences"],"Every host call times every reply function of the enumerated streams with every body of the alphabet; every body of the enumerated shapes in its own reply; every way in which no reply comes.",
 "Tests let a well-behaved peer answer.",
 ["gem/status_equipment_client.go","gem/alarm_client.go","gem/handler.go"],"SendAndWait followed by a check of the function and a parser per reply.")
p("C36","GEM operations are refused without effect outside their role and state",
 "A host operation on equipment, or an equipment operation that sends on a host, returns ErrOperationNotSupported; an operation that needs communication returns ErrNotCommunicating in every state but COMMUNICATING. Refused, it sends nothing, then or later, and changes nothing. In COMMUNICATING it sends exactly one primary message, of its function, on the current session. One that races with the end of communication is sent at most once, only on the session it was called in, and returns within T3.",
 ["histories","schedules"],"Every operation alone, in pairs and all together in ten stages of the life of an endpoint, both device types, both connection modes; every operation racing with deselect, separate, close and disable under all schedules to the deviation bound.",
 "Tests call operations only in the state and role they are meant for.",
 ["gem/status_equipment_client.go","gem/alarm.go","gem/alarm_client.go","gem/collection_event_handlers.go","gem/status_equipment_handlers.go","gem/handler.go"],"Device type checks, ensureCommunicating.")
p("C37","Items are found by their path",
 "Get with a path of list indices gives the item at that place, or an error if there is none. GetAscii, GetByte, GetBoolean, GetInt (signed) and GetFloat give the exact value at a path that ends in an existing element of their type, and an error, never a panic, if there is no such item or it is of another type. Looking changes nothing, and a message does not change with the slices it was made from.",
 ["inputs"],"All item trees of the enumerated leaves, depths and widths, built and decoded; all paths with indices from -1 to one past the width and up to two steps too long; items with variables.",
 "Tests read five values of one message.",
 ["lib-secs2-hsms-go/pkg/ast/ast.go","lib-secs2-hsms-go/pkg/ast/list.go"],"DataMessage.Get and the typed accessors; ItemNode.Get.")
p("C38","Protocol violations are reported with stream 9 and announced",
 "A primary message of a stream without any meaning is answered with S9F3, one of a known stream without a handler with S9F5, carrying the stream or function and the primary's system bytes, whether or not it asks for a reply; stream 9 messages are never answered. Every received stream 9 message fires S9ErrorReceived exactly once, with its function, its text and its system bytes, and one that carries the system bytes of an open request ends it with an error. The other violations that the documentation lists are answered with their stream 9 message as well.",
 ["inputs"],"Every stream and primary function without a handler, with and without the wait bit, and every stream 9 function with the enumerated bodies, for both device types and connection modes, callbacks that use the handler included.",
 "Tests cover one unknown function.",
 ["hsms/protocol_s9_helpers.go","hsms/protocol.go","hsms/error_messages.go","gem/handler.go"],"sendS9ErrorForUnrecognized, triggerS9ErrorCallback, OnS9Error.")
p("C39","Handlers an application installs intercept exactly their messages",
 "On a GEM endpoint of either role the handler last registered for a stream and function receives each such message exactly once, in place of the built-in one, and what it returns is the reply to it; after its removal, and for functions without a handler, the default handler receives it, and without one it is reported with stream 9. Every other message is still answered by its built-in handler. This holds whether a handler is installed before or after communication is established, stays so when the session is lost and made again, and for handlers that register, send or look from within.",
 ["histories","schedules"],"All sequences, to the depth, of registering, replacing, removing and falling back with handlers of six kinds over built-in and unhandled functions, for both roles and connection modes; registrations racing with messages under all schedules to the deviation bound.",
 "Tests install one handler at the protocol level.",
 ["gem/handler.go","hsms/protocol.go"],"RegisterStreamFunctionHandler, RegisterDefaultStreamHandler, handleDataMessage.")
p("C40","Variables and constants show their current value by every route",
 "A status or data variable shows what its provider returns, if it has one, and else the value last set; nothing, a nil value or an error shows as an empty item in its place and disturbs nothing else. A constant shows its provider's value, and else the value last accepted from the host or the application; its updater is called once for each accepted value and for no refused one. S1F4, S2F14, event reports, S6F16 and the application's own Value agree, and a read that races with a change shows the value before or after it.",
 ["histories","schedules"],"All sequences, to the depth, of setting, clearing, replacing and removing values and providers of every kind, for variables and constants built in every way, all routes read after each step; changes racing with reads under all schedules to the deviation bound.",
 "Tests read one static value of each.",
 ["gem/status_variables.go","gem/data_variables.go","gem/equipment_constants.go","gem/status_equipment_handlers.go","gem/collection_event_handlers.go"],"Value methods: provider first, then the stored value.")
p("C41","What cannot be a message cannot be made",
 "Each constructor of messages and items, and each method that derives a message, accepts exactly its documented domain: stream 0 to 127, function 0 to 255, no wait bit on a reply, the three directions, a name without white space, session and system bytes as specified, byte sizes that exist, values and literals of the item's type and range, valid and unique variable names, length bounds that can be met, ellipses only inside a list, not first and one per list. Everything else is refused (panics) and leaves its arguments untouched; what is accepted reads back as given and has the encoding of its values.",
 ["inputs"],"All combinations of header fields in and around their ranges; every code point below U+3100 in a name; all strings to length four and six over the alphabets of variable names; all sequences, to the depth, of elements of 22 kinds for every item type and byte sizes -1 to 17, and of 17 kinds for lists.",
 "Tests make valid items and a few invalid ones; that nothing else is accepted quantifies over all arguments.",
 [AST+"ast.go",AST+"list.go",AST+"ascii.go",AST+"binary.go",AST+"boolean.go",AST+"int.go",AST+"uint.go",AST+"float.go",AST+"interface.go"],"checkRep of every node and message.")
p("C42","A handler is what its options say",
 "NewGemHandler refuses options without a protocol. Otherwise equipment identifies itself in S1F2 and S1F14 by the given MDLN and SOFTREV (secs4go and 0.1.0 when left out) and a host by an empty list; it starts in the given control state and goes on-line in the given mode (the attempt and remote when none or an unknown one is given); it tries again to establish communications after the given delay (10 s when left out). It writes nothing to standard output or error unless told to. A message trace goes to the named file, else to the writer, else to standard error, in the given mode (text when left out) with exactly the control messages asked for, excluded types being compared without regard to case and surrounding blanks; the application log gets every event of the handler at its level, in order, in the file, on the console or both as the options say; and files are rotated, kept, dropped and compressed as asked.",
 ["configurations"],"Every combination of the grids: identities, initial states, modes, delays, trace settings (mode, control messages, exclusions, file, writer), application loggers, rotation settings; for both device types.",
 "Tests construct handlers with one set of options.",
 ["gem/config.go","gem/logger_zap.go","gem/handler.go","common/logger.go"],"Options.applyDefaults, LoggingOptions.toConfig, NewGemHandler, NewZapLogger.")
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
with open("properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))

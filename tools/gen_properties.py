#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSONL is unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": None}})

CL = ["src/client.rs", "src/client_send.rs", "src/client_receive.rs", "src/receive.rs"]
SV = ["src/server.rs", "src/server_send.rs", "src/server_receive.rs", "src/receive.rs"]

p("P01", "Results do not depend on how the input bytes are split into chunks",
  "For a client or a server, feeding the same input bytes in any segmentation (one byte at a time, at line or literal borders, all at once), with any number of progress attempts in between, yields the same sequence of received messages, errors with the same discarded bytes, and the same bytes sent. Progressing on a partial message only asks for more input and never loses, repeats or misinterprets bytes.",
  ["inputs", "schedules"], "every byte stream, every way of cutting it into chunks and every number of progress calls between the chunks",
  "Integration tests send each message with one or two hand-picked cuts; the interaction of seen-byte counters with partial lines, CR|LF cuts and literals is unsampled.",
  ["src/receive.rs", "src/client.rs", "src/server.rs"],
  [("ReceiveState::next / progress_line / progress_literal keep seen_bytes across calls", "src/receive.rs"), ("find_crlf restarts at `start`", "src/receive.rs")],
  ["client::Event/Error and server::Event/Error sequences", "Io::Output bytes"])

p("P02", "Every received byte is delivered or discarded exactly once, in order",
  "The bytes given to a client or server are partitioned, in order and without gap or overlap, into complete messages that are delivered as events, byte ranges that are reported as discarded by an error, and a not yet complete rest. This also holds across protocol mode switches (greeting to responses, AUTHENTICATE, IDLE): bytes that arrive before the switch are interpreted after it, not lost or interpreted twice.",
  ["inputs", "histories"], "every mixture of valid and malformed messages, pipelined across every mode switch",
  "Existing tests look at one message per connection step and never check the concatenation of everything delivered and discarded, nor pipelined input across mode changes.",
  ["src/receive.rs", "src/server_receive.rs", "src/client_receive.rs", "src/server.rs", "src/client.rs"],
  [("finish_message / discard_message advance the buffer by seen_bytes", "src/receive.rs"), ("change_codec moves the read buffer", "src/receive.rs"), ("ServerReceiveState::change_state, ClientReceiveState::change_state", "src/server_receive.rs, src/client_receive.rs")],
  ["discarded_bytes of errors", "received events"])

p("P03", "Line endings are enforced in strict mode and tolerated in relaxed mode",
  "With crlf_relaxed off, a line that ends in a bare LF is never delivered: it is reported as ExpectedCrlfGotLf with exactly the bytes of the message so far, in every protocol state, and lines ending in CRLF are unaffected. With crlf_relaxed on, CRLF and LF line endings are both accepted, freely mixed. LF or CRLF bytes inside a literal are data in both modes and never end a line.",
  ["inputs", "configurations"], "every message of every kind, each line ending chosen independently, both option values, client and server",
  "One test per mode with a NOOP or a greeting; mixed endings, empty lines, endings right after a literal and the AUTHENTICATE/IDLE/greeting states are not reached.",
  ["src/receive.rs", "src/client.rs", "src/server.rs"],
  [("find_crlf computes expected_crlf_got_lf", "src/receive.rs"), ("crlf_relaxed is carried through change_codec", "src/receive.rs")],
  ["Error::ExpectedCrlfGotLf", "received events"])

p("P04", "The server enforces max_command_size exactly",
  "A message (including its literals) of at most max_command_size bytes is handled normally; as soon as max_command_size bytes of a message have arrived without completing it, the server reports CommandTooLong, discarding exactly max_command_size bytes. The limit applies to each message on its own, independent of what was received before or follows in the buffer, and in every mode (command, authentication data, IDLE DONE).",
  ["inputs", "configurations"], "every limit value, every message size around it, with and without literals, every segmentation and pipelining",
  "Tests use five sizes with one line and one LOGIN shape; limits hit inside a literal, at the announcement, after earlier messages, or in AUTHENTICATE/IDLE mode are not sampled.",
  ["src/receive.rs", "src/server.rs"],
  [("max_readable_bytes and the two MessageTooLong exits", "src/receive.rs"), ("max_message_size survives change_codec", "src/receive.rs")],
  ["Error::CommandTooLong"])

p("P05", "The server answers every literal announcement exactly once, as configured",
  "For each synchronizing literal of at most max_literal_size bytes the server sends exactly one continuation request with the configured accept text, after the announcement was received; for a larger one it sends exactly one BAD with the command's tag and the configured reject text and reports LiteralTooLong discarding the message so far. A non-synchronizing literal is never answered and is accepted iff its length is at most max_literal_size, and a command whose literals were all accepted is delivered with exactly the literal bytes sent.",
  ["inputs", "configurations", "histories"], "all commands with any number of sync and non-sync literals of any size and content, any size limit, any texts, interleaved with other queued responses",
  "Tests use LOGIN with two 5-byte literals; multiple mixed literals, binary content, limits at the boundary and interleaving with queued responses are not covered.",
  SV, [("LiteralFound branch of Server::progress_receive", "src/server.rs"), ("start_literal / progress_literal", "src/receive.rs"), ("enqueue_response(None, ..)", "src/server_send.rs")],
  ["Io::Output bytes", "Event::CommandReceived", "Error::LiteralTooLong"])

p("P06", "Server output is the greeting then every queued response, FIFO, once, confirmed",
  "A server sends its greeting before anything else, then each enqueued response byte-exactly once in the order of the enqueue calls, never interleaving two messages. Each response is confirmed by exactly one ResponseSent event with the handle returned when it was enqueued and the same response, only after all its bytes were output; internal literal replies produce no event.",
  ["histories", "schedules"], "every sequence of enqueue calls (data, status, continuation requests, also via the AUTHENTICATE and IDLE calls) interleaved with progress calls and input",
  "Tests enqueue one response at a time and await it; queues of several messages interleaved with literal replies and input are not exercised.",
  ["src/server.rs", "src/server_send.rs"],
  [("queued_messages FIFO and current_message", "src/server_send.rs"), ("progress_send maps ServerSendEvent to Event", "src/server.rs")],
  ["Io::Output bytes", "Event::GreetingSent", "Event::ResponseSent"])

p("P07", "Server AUTHENTICATE exchange: mode, gating and contents",
  "After an AUTHENTICATE command (reported with its tag, mechanism and initial response unchanged) the server interprets every following line as authentication data until the user finishes the exchange; authenticate_continue and authenticate_finish succeed exactly while the exchange is running and otherwise return their argument unchanged with no effect on output or state. After authenticate_finish the next line is interpreted as a command again.",
  ["inputs", "histories"], "every order of API calls and input lines, including calls at wrong times, pipelined or malformed data lines, cancellation, and repeated exchanges",
  "Tests follow the two or three happy flows; calls in the wrong state, malformed data inside the exchange and pipelining are not covered.",
  ["src/server.rs", "src/server_receive.rs", "src/types.rs"],
  [("authenticate_continue / authenticate_finish check receive_state", "src/server.rs"), ("change_state(AuthenticateData / Command)", "src/server_receive.rs")],
  ["Event::CommandAuthenticateReceived", "Event::AuthenticateDataReceived", "return values"])

p("P08", "Server IDLE exchange: nothing is read before the decision, DONE ends it",
  "After an IDLE command the server delivers no further input until the user accepts or rejects it; idle_accept and idle_reject succeed exactly in that window and otherwise return their argument unchanged with no effect. After acceptance the next valid line must be DONE (reported once, ending the exchange; anything else is an error and the exchange goes on), after rejection the next line is a command, and input that arrived early is processed then.",
  ["inputs", "histories"], "every order of API calls and input, including early input, malformed DONE lines, decisions at the wrong time and repeated exchanges",
  "Tests cover accept and reject once each; input arriving before the decision, junk instead of DONE and wrong-time calls are not covered.",
  ["src/server.rs", "src/server_receive.rs"],
  [("ServerReceiveState::IdleAccept blocks receiving", "src/server.rs"), ("idle_accept / idle_reject check receive_state", "src/server.rs")],
  ["Event::IdleCommandReceived", "Event::IdleDoneReceived", "return values"])

p("P09", "Client sends nothing before the greeting, then every command once, in order",
  "A client outputs no byte until it has received a greeting. Afterwards every enqueued command is output byte-exactly, once, in the order of the enqueue calls and never interleaved with another command, and gets exactly one final event (sent, rejected, authenticate status, idle rejected or idle done) carrying the handle returned by enqueue_command, in the same order; a sent event follows only after all bytes of the command were output.",
  ["histories", "schedules"], "every sequence of enqueue calls interleaved with input (any responses at any time) and progress calls",
  "Tests await each command before the next; several queued commands of different kinds with responses arriving at arbitrary points are not sampled.",
  ["src/client.rs", "src/client_send.rs"],
  [("progress_send aborts while in ClientReceiveState::Greeting", "src/client.rs"), ("queued_messages FIFO / current_message / finish_sending", "src/client_send.rs")],
  ["Io::Output bytes", "client::Event"])

p("P10", "Client transmits a synchronizing literal only after the server asked for it",
  "The bytes of a synchronizing literal and everything after it are output only after a continuation request was received following the announcement, each continuation request releasing exactly one literal and not being reported as an event; non-synchronizing literals and plain lines are sent without waiting. If instead a BAD status with the command's tag arrives, the command is dropped (no further byte of it is ever sent), reported as CommandRejected with its handle, the original command and that status, and the next queued command proceeds; any other response while waiting is delivered normally and does not release or drop the command.",
  ["inputs", "histories", "schedules"], "all commands with any number and mix of literals, any sequence of responses while waiting, early or surplus continuation requests",
  "Tests use LOGIN with two literals and immediate well-behaved answers; unrelated responses in between, other tags or kinds, and rejection at a later literal with more commands queued are barely sampled.",
  ["src/client_send.rs", "src/client.rs"],
  [("CommandState::push_to_buffer stops at a sync literal", "src/client_send.rs"), ("literal_continue / maybe_terminate", "src/client_send.rs")],
  ["Io::Output bytes", "Event::CommandRejected", "Event::CommandSent"])

p("P11", "Client AUTHENTICATE exchange follows the server's requests one by one",
  "Once an AUTHENTICATE command is sent, each continuation request is reported with the command's handle and permits exactly one set_authenticate_data call, whose data is output once; the call otherwise fails, returning the data unchanged and sending nothing. The exchange ends exactly when a tagged status with the command's tag arrives, reported with handle, unchanged command and status; other responses are delivered normally meanwhile, and the next queued command is not sent before the end.",
  ["inputs", "histories", "schedules"], "every order of continuation requests, other responses, tagged statuses, and API calls, over repeated exchanges",
  "Tests follow two happy flows; wrong-time calls, surplus requests, foreign tags and queued followers are not covered.",
  ["src/client_send.rs", "src/client.rs"],
  [("AuthenticateActivity state machine", "src/client_send.rs"), ("authenticate_continue / set_authenticate_data / maybe_terminate", "src/client_send.rs")],
  ["client::Event::Authenticate*", "Io::Output bytes", "return values"])

p("P12", "Client IDLE exchange: DONE only after acceptance, nothing else in between",
  "Once IDLE is sent, the next continuation request is reported as IdleAccepted with the command's handle; only then does set_idle_done succeed, once, after which DONE is output once and confirmed by IdleDoneSent. A tagged status with the IDLE's tag before DONE was requested ends the exchange as IdleRejected with that status, and no other queued command is sent while the exchange is open.",
  ["inputs", "histories", "schedules"], "every order of responses, set_idle_done calls at right and wrong times, queued followers and repeated exchanges",
  "Tests cover accept and reject once each; wrong-time calls, surplus continuation requests and pipelined followers are not covered.",
  ["src/client_send.rs", "src/client.rs"],
  [("IdleActivity state machine", "src/client_send.rs"), ("idle_continue / set_idle_done / maybe_terminate", "src/client_send.rs")],
  ["client::Event::Idle*", "Io::Output bytes", "return values"])

p("P13", "Client reports every server response exactly once, in order, unchanged",
  "Every well-formed response the server sends after the greeting results, in wire order, in exactly one event that carries the response unchanged (including literals of any content), except a continuation request that releases a literal, which yields none. Only a status or continuation request that belongs to the command currently being sent is attributed to it; everything else is reported as plain data, status or continuation request.",
  ["inputs", "histories"], "all sequences of responses of every kind (untagged, tagged with any tag, BYE, data with literals, continuation requests) at every point of every command's lifetime",
  "Tests send single expected responses at expected points.",
  ["src/client.rs", "src/client_send.rs", "src/receive.rs"],
  [("response dispatch in Client::progress_receive", "src/client.rs"), ("maybe_terminate compares tag and kind", "src/client_send.rs")],
  ["client::Event"])

p("P14", "No stall: asking for more input means there is nothing left to send or deliver",
  "Whenever a client or server reports NeedMoreInput, it has output and confirmed everything it is currently allowed to send and has delivered every complete message already received that it is currently allowed to deliver. Otherwise a peer that waits for this output would never send the input, a deadlock on IMAP level.",
  ["histories", "schedules", "inputs"], "every history of API calls, input chunks and progress calls",
  "Tests drive one message at a time through a socket with timeouts; combinations such as queued responses behind an internal literal reply are never built.",
  CL + SV, [("next() alternates progress_send and progress_receive until an interrupt", "src/client.rs, src/server.rs"), ("progress_send of internal replies", "src/server.rs")],
  ["Interrupt::Io(Io::NeedMoreInput)"])

p("P15", "Handles identify one enqueued message and never repeat",
  "All handles given out by one generator (one client or server instance) are pairwise different over its whole lifetime, and a handle equals only its own copies, with hash and Debug consistent with equality. Handles from different instances are never equal, no matter how many handles and instances were created before.",
  ["histories"], "every number and interleaving of generators and generated handles",
  "The unit test looks at 100x100 handles created in one fixed order on one thread.",
  ["src/handle.rs", "src/client.rs", "src/server.rs"],
  [("HandleGenerator::generate counts up", "src/handle.rs"), ("generator_id part of RawHandle and derived Eq/Hash", "src/handle.rs")],
  ["CommandHandle / ResponseHandle equality, hash, Debug"])

p("P16", "Arbitrary peer bytes and API call orders never break a client or server",
  "No sequence of input bytes, progress calls and API calls makes a client or server panic or loop forever, and errors are never sticky: after an error the next complete line or message in the stream is processed normally in the protocol state the instance was in.",
  ["inputs", "histories"], "all byte strings including mutated and truncated protocol text, and all orders of API calls",
  "Two gibberish lines are tested.",
  CL + SV, [("every error arm calls discard_message", "src/server.rs, src/client.rs"), ("assert!/unreachable! in the send and receive paths", "src/*.rs")],
  ["panics", "events after an error"])

p("P17", "Credentials and discarded input do not leak into release-build diagnostics",
  "In a build without debug assertions, no Debug or Display rendering of any event, error, client or server, and no log record of any level, contains secret material: passwords, initial responses and authentication data of clients, or raw discarded or transported bytes. The raw values stay reachable only by explicit declassification.",
  ["inputs", "histories", "configurations"], "all sessions with any secret contents, including malformed and oversized messages, at every log level, plain and TLS streams",
  "No test looks at renderings or logs, and tests run in debug builds where redaction is off by design.",
  ["src/client.rs", "src/server.rs", "src/stream.rs", "src/types.rs"],
  [("discarded_bytes: Secret<Box<[u8]>>", "src/client.rs, src/server.rs"), ("raw traces only under cfg(debug_assertions)", "src/stream.rs"), ("initial_response: Option<Secret<..>>", "src/types.rs")],
  ["Debug/Display output", "tracing records"])

p("P18", "A client and a server talking to each other agree on everything",
  "When a client and a server instance are connected back to back, every command enqueued at the client reaches the server user exactly once, in order and equal, unless it is reported rejected to the client user, and every response enqueued at the server reaches the client user exactly once, in order and equal. Given cooperating users, all exchanges (literals accepted or rejected, AUTHENTICATE, IDLE) terminate with consistent events on both sides.",
  ["histories", "schedules", "inputs"], "all command and response sequences, all interleavings of both sides' progress and all segmentations of both byte streams",
  "The client_server tests run eight fixed dialogues.",
  CL + SV, [("both state machines over one byte stream", "src/client.rs, src/server.rs")],
  ["events on both sides"])

p("P19", "A plain stream hands bytes through unchanged, in order, completely",
  "Over a plain stream every byte read from the transport reaches the state machine exactly once in order, and every byte the state machine outputs reaches the transport exactly once in order, whatever the sizes of partial reads and writes. The event or error the state returns is passed on unchanged.",
  ["schedules", "inputs", "fault_sequences"], "all patterns of partial reads, partial writes and pending transports, all message sizes",
  "Tests use loopback sockets, whose partial reads and writes cannot be controlled.",
  ["src/stream.rs"], [("Stream::next moves read_buffer to the state and output to write_buffer", "src/stream.rs"), ("read / write helpers", "src/stream.rs")],
  ["transport bytes", "State::enqueue_input calls"])

p("P20", "A TLS stream hands plaintext through unchanged for all sizes and record layouts",
  "Over TLS the plaintext the peer sends reaches the state machine completely and in order, and the state machine's output reaches the peer completely and in order, independent of message size (including outputs larger than TLS buffers), record boundaries, transport chunking, or plaintext that already arrived together with the handshake. A peer that closes the TLS session cleanly has its preceding data delivered and the closure reported as an error instead of a hang; what the state machine has still to say afterwards stays available to further calls.",
  ["schedules", "inputs", "fault_sequences"], "all message sizes, TLS versions, record splits, transport chunkings and closing points",
  "No existing test uses TLS at all.",
  ["src/stream.rs"], [("Stream::tls destructures TlsStream", "src/stream.rs"), ("decrypt / encrypt", "src/stream.rs")],
  ["plaintext at the peer", "State::enqueue_input calls"])

p("P21", "Dropping a pending Stream::next or flush loses and repeats nothing",
  "If the future of Stream::next (or flush) is dropped at any await point, as in a select!, and next is called again later, no byte read from the transport is lost or delivered twice, no output byte is lost, duplicated or reordered, and no event is lost.",
  ["schedules", "fault_sequences"], "every cancellation point and every pattern of transport readiness, plain and TLS",
  "No test cancels; the proxy and examples rely on it in select! loops.",
  ["src/stream.rs", "proxy/src/proxy.rs"], [("all intermediate bytes live in read_buffer / write_buffer of Stream, not in the future", "src/stream.rs")],
  ["transport bytes", "events"])

p("P22", "Streams make progress in both directions and report closure",
  "While output is pending the stream also keeps reading, so two peers that both have more to send than the transport can buffer do not deadlock; when it has nothing to write it waits for input. End of stream (read of zero bytes) or a transport that accepts no more bytes is reported as Closed and a transport failure as an I/O error with its original kind, rather than hanging, spinning or panicking, and all bytes received before are delivered first.",
  ["schedules", "fault_sequences", "configurations"], "all transport capacities, message sizes, readiness orders and points of closure or failure",
  "Two tests send one large message over loopback; both directions at once, closure and failures are not tested.",
  ["src/stream.rs"], [("select! of read and write in Stream::next", "src/stream.rs"), ("ReadWriteError::Closed on zero byte counts", "src/stream.rs")],
  ["stream::Error", "completion of both peers"])

p("P23", "The proxy forwards every message with unchanged meaning and order",
  "For each proxied session, every valid command of the mail client reaches the server equal and in order, and every response of the server reaches the client equal and in order, apart from documented changes: capability lists are stripped, literal handshakes are answered by the proxy itself, and a command the server refuses at a literal is answered to the client by a BAD with the command's tag and a proxy text (or the server's text and ALERT code if the server sent an ALERT). AUTHENTICATE and IDLE exchanges work end to end.",
  ["inputs", "histories", "schedules"], "all sessions of conforming clients and servers, all segmentations and schedules",
  "The proxy has no behavioural test.",
  ["proxy/src/proxy.rs", "proxy/src/main.rs", "proxy/src/util.rs"],
  [("handle_client_event / handle_server_event", "proxy/src/proxy.rs"), ("start_conversation select loop", "proxy/src/proxy.rs")],
  ["bytes at both ends of the proxy"])

p("P24", "The proxy never advertises a capability it does not support",
  "Wherever a server can advertise capabilities (greeting, CAPABILITY data, and a capability code in any tagged, untagged or BYE status or continuation request, in any protocol state) the client behind the proxy sees only capabilities on the allow-list, in order, with all allowed ones kept; IMAP4rev1 alone is shown if nothing remains. Anything else in these messages is unchanged.",
  ["inputs", "histories"], "all capability lists in all carrying messages at every point of a session, including AUTHENTICATE and IDLE",
  "The filter functions have no tests.",
  ["proxy/src/util.rs", "proxy/src/proxy.rs"],
  [("filter_capabilities and its four callers", "proxy/src/util.rs"), ("event handlers that forward status, data and continuation requests", "proxy/src/proxy.rs")],
  ["capability lists seen by the client"])

p("P25", "Proxy sessions survive bad messages and are isolated from each other",
  "A malformed or over-long message, or authentication data nobody asked for, is dropped by the proxy (never forwarded) and the session continues with the following messages; well-formed but unexpected messages, like a stray continuation request or a tagged response that ends an IDLE early, never stop it. Once the server has greeted, failure or closure of one side ends that session and closes the other side, before that a failing or closing server closes the client; no session's behaviour, including a failing one, affects other sessions or the proxy's willingness to accept new clients.",
  ["inputs", "histories", "fault_sequences"], "all placements of bad messages and connection failures in concurrent sessions",
  "The proxy has no behavioural test.",
  ["proxy/src/proxy.rs", "proxy/src/main.rs"],
  [("ControlFlow::Continue on State errors, Abort on closed streams", "proxy/src/proxy.rs"), ("one task per client in handle_service", "proxy/src/main.rs")],
  ["bytes at both ends", "new sessions after a failure"])

p("P26", "Loading a proxy configuration yields exactly what the file says",
  "Every configuration (any number of services in any order, any names, hosts, ports and paths, every combination of bind and connect encryption) that is written as TOML, in any TOML notation, loads to an equal value with services in file order, and serializing a configuration and loading it again is the identity. No field leaks into another service, side or field.",
  ["inputs", "configurations"], "all configuration values and TOML notations",
  "One test loads the one shipped config.toml.",
  ["proxy/src/config.rs"], [("serde derives with tags `encryption` and `type`", "proxy/src/config.rs"), ("Config::load", "proxy/src/config.rs")],
  ["Config value after load"])

p("P27", "Proxy endpoints resolve to the configured address and protocol default port",
  "An omitted port means 143 for an insecure endpoint and 993 for a TLS endpoint, separately for bind and connect and for each service, while an explicit port (including 0, 143 and 993) is always honoured. The address used for binding or connecting is exactly host:port of that endpoint, and the displayed form names the scheme that matches its encryption (imap insecure, imaps TLS) with the same host and port.",
  ["inputs", "configurations"], "all hosts, all 65536 ports and omissions, all four endpoint kinds",
  "The shipped config always gives ports, so defaults and formatting are never executed by tests.",
  ["proxy/src/config.rs"], [("default_imap_port / default_imaps_port as serde defaults", "proxy/src/config.rs"), ("addr_port and Display of Bind and Connect", "proxy/src/config.rs")],
  ["Bind/Connect::addr_port", "Display"])

p("P28", "An invalid proxy configuration is rejected with the right error, never guessed",
  "A missing or unreadable file or one that is not UTF-8 gives an I/O error; text that is not TOML, lacks a required field, has a wrong type, an out-of-range port, or an unknown encryption or identity type gives a parse error. Loading never panics and never yields a configuration in which a TLS endpoint lacks its identity or a setting was silently replaced.",
  ["inputs", "configurations", "fault_sequences"], "all single and combined corruptions of valid configurations, and arbitrary text",
  "No negative configuration test exists.",
  ["proxy/src/config.rs"], [("serde required fields and tagged enums", "proxy/src/config.rs"), ("Error enum with From conversions", "proxy/src/config.rs")],
  ["Result of Config::load"])

p("P29", "Generated tags are valid, unique in the process, and unguessable in release",
  "Every generated tag is a valid IMAP tag of the form <instance>.<counter> (debug) or <instance>.<counter>.<8 alphanumerics> (release); no two tags generated in one process by any generators on any threads are equal, already by their instance and counter parts. In release builds the random part differs between tags and runs.",
  ["histories", "schedules"], "any number of generators and threads, any interleaving, both build modes",
  "One test with fixed thread and call counts in debug mode only.",
  ["tag-generator/src/lib.rs"], [("GLOBAL_TAG_GENERATOR_COUNT fetch_add and per-instance counter", "tag-generator/src/lib.rs"), ("Alphanumeric token", "tag-generator/src/lib.rs")],
  ["Tag text"])

p("P30", "Literal accept and reject texts are validated, independent and used verbatim",
  "Setting the literal accept or reject text either succeeds, after which exactly that text is reported and sent in the corresponding reply, or returns the very same string as an error and changes nothing. It fails exactly for texts that are not a valid unambiguous continuation request text, and neither setting influences the other or any other option.",
  ["inputs", "configurations"], "all strings, all sequences of setter calls",
  "Tests set two plain texts.",
  ["src/server.rs"], [("set_literal_accept_text / set_literal_reject_text and getters", "src/server.rs")],
  ["getters", "sent replies"])

p("P31", "TLS identity files load completely and exactly",
  "Loading a PEM certificate chain returns all certificates of the file in file order with unchanged DER contents, ignoring other sections and text; loading the key returns the one PKCS#8 key of the file and fails when there is none or more than one. Missing files, files that end in the middle of such a section and sections that are not base64 give an error that names the path, never a panic or a partial result; a service with such a file serves nobody.",
  ["inputs", "fault_sequences"], "all PEM files: any number, order and mix of sections, line widths, surrounding text, and corruptions",
  "The loaders have no tests.",
  ["proxy/src/util.rs"], [("load_certificate_chain_pem / load_leaf_key_pem", "proxy/src/util.rs")],
  ["Result values"])

p("P32", "Generators created concurrently never share an identity",
  "Clients, servers and handle generators can be created from any number of threads at once: every generator obtains an identity no other generator of that kind has, and each still numbers its own handles without gaps or repeats. This needs no external synchronization.",
  ["schedules"], "all thread interleavings of generator creation",
  "The existing test is single-threaded.",
  ["src/handle.rs", "src/client.rs", "src/server.rs"],
  [("HandleGeneratorGenerator::generate uses one atomic fetch_add", "src/handle.rs"), ("static HANDLE_GENERATOR_GENERATOR per type", "src/client.rs, src/server.rs")],
  ["generator ids in Debug output / RawHandle"])

p("P33", "After flush completes, everything output so far is with the transport",
  "When Stream::flush returns success, every byte the state machine has output through the stream so far (also by a next call that was cancelled midway) has been written to the transport in order and the transport was flushed, over plain and TLS streams; nothing is written twice by later calls. A closed or failing transport makes flush return an error instead of success or a hang.",
  ["schedules", "fault_sequences"], "all amounts of pending output, partial-write patterns, cancellation and failure points",
  "flush is never called by a test.",
  ["src/stream.rs"], [("Stream::flush", "src/stream.rs"), ("encrypt / write helpers", "src/stream.rs")],
  ["transport bytes after flush"])

p("P34", "The proxy uses encryption exactly where it is configured and verifies servers",
  "On an endpoint configured as TLS the proxy exchanges no IMAP data in clear text and completes sessions only after a TLS handshake: it presents the configured certificate to clients and accepts only a server certificate that chains to a trusted root and matches the configured host. If a handshake or verification fails, no IMAP data is exchanged on that connection and the proxy keeps serving others; endpoints configured insecure use plain IMAP. Over TLS the proxy negotiates the application protocol `imap` (ALPN) with peers that take part in that.",
  ["configurations", "fault_sequences"], "all four bind/connect combinations, valid, untrusted, expired and wrong-host certificates, peers that do not speak TLS",
  "The proxy has no behavioural test.",
  ["proxy/src/proxy.rs", "proxy/src/util.rs"],
  [("Proxy::accept_client builds a TlsAcceptor for Bind::Tls", "proxy/src/proxy.rs"), ("connect_to_server builds a TlsConnector with native roots", "proxy/src/proxy.rs")],
  ["raw bytes on both transports", "session establishment"])

p("P35", "Clients, servers and streams work independently of each other",
  "What a client or server instance does (its events, errors, outputs, and what it takes from its input) depends only on its own options and on the calls made on it: other clients and servers in the same process or on the same thread, whatever they have received or were told to send and however their calls interleave with it, change nothing. The values of handles and generated tags may differ; what they refer to does not.",
  ["inputs", "schedules", "configurations"], "any number of clients and servers with any histories, interleaved in any way, created and dropped at any time",
  "Tests use one client and one server in one fixed order.",
  ["src/client.rs", "src/server.rs", "src/receive.rs", "src/handle.rs", "src/client_send.rs", "src/server_send.rs"],
  [("Client::new / Server::new", "src/client.rs, src/server.rs"), ("handle generators", "src/handle.rs")],
  ["events and outputs of each instance run among others compared to the same instance alone"])

p("P36", "What is kept does not grow with the length of the history",
  "The memory a client, a server, a stream or the proxy keeps depends on what is unfinished (messages being received, queued or partly sent, sessions that are open), not on how much has happened before: a connection that handles the same kinds of messages, refusals, errors and exchanges over and over, and a proxy whose sessions come and go, keep a bounded amount. A literal takes memory as it arrives, not because it was announced. Everything is released when an instance is dropped or a session ends.",
  ["inputs", "histories", "fault_sequences"], "all cyclic histories of any length, of messages, errors, literals, IDLE and AUTHENTICATE exchanges, plain and TLS, sessions that end in any way",
  "Tests exchange a handful of messages; a leak shows only over long histories.",
  ["src/client.rs", "src/server.rs", "src/receive.rs", "src/client_send.rs", "src/server_send.rs", "src/stream.rs", "proxy/src/main.rs", "proxy/src/proxy.rs"],
  [("receive buffer is discarded message by message", "src/receive.rs"), ("queues give up what was sent", "src/client_send.rs, src/server_send.rs"), ("one task per client that ends with it", "proxy/src/main.rs")],
  ["bytes allocated and not freed between repetitions"])

p("P37", "The proxy starts every configured service it can, and says so",
  "With a configuration that can be loaded the proxy announces every service in the file's order (its name, its bind and its connect endpoint) and listens at exactly the configured addresses; a service that cannot bind its address does not keep the others from being served, in whatever order they are configured. The program goes on while any service runs, and ends successfully once none does. With a configuration that cannot be loaded it announces and serves nothing and ends with an error. Without --config it reads config.toml in the working directory.",
  ["configurations", "fault_sequences"], "all numbers and orders of services, addresses that cannot be bound for any reason, missing and broken configuration files",
  "The program itself is never run by a test.",
  ["proxy/src/main.rs", "proxy/src/proxy.rs", "proxy/src/config.rs"],
  [("main spawns one task per service", "proxy/src/main.rs"), ("handle_service", "proxy/src/main.rs"), ("Proxy::bind", "proxy/src/proxy.rs")],
  ["standard output and exit of the program", "addresses listened at", "sessions through each service"])

p("P38", "A connection taken out of a stream continues exactly where it stopped",
  "When the transport is taken out of a Stream (between two calls, after a flush) and put into another Stream, plain or after a TLS handshake, nothing is lost, repeated or reordered: every byte that was read from the transport has been handed to the client or server, everything these had sent is with the transport, and what follows goes on unchanged through the new stream. A client and a server that agree on STARTTLS and upgrade in this way exchange all commands and responses before and behind it exactly once and in order, and nothing but TLS is on the wire behind the upgrade.",
  ["inputs", "histories", "schedules"], "all traffic before and behind the move, however often and whenever the transport is moved, all partial reads and writes, cancelled calls, TLS 1.2 and 1.3, either role",
  "No test takes a transport out of a stream; whether bytes are left behind in a buffer depends on how reads and events happened to meet.",
  ["src/stream.rs"],
  [("From<Stream> for TcpStream drops the stream's buffers", "src/stream.rs"), ("Stream::next hands over all that was read before anything else", "src/stream.rs"), ("Stream::flush", "src/stream.rs")],
  ["bytes received by the state", "bytes on the transport", "client and server events"])

p("P39", "Work grows in proportion to traffic, however it is cut or queued",
  "The processing time a client, a server, a stream or the proxy spends is proportional to the traffic: one connection that handles many times as many commands, responses, errors and exchanges, or one message many times as long, costs about that many times as much, whether its input arrives at once or in small pieces, is taken out step by step or late, and however many messages are queued or literals waited for meanwhile. The one exception: a received message that contains several literals is decoded again after each of them.",
  ["inputs", "histories", "schedules"], "all lengths of histories, messages and queues, all partitions of the input, slow and fast transports, plain and TLS",
  "Tests exchange a few short messages, where repeated work is never noticed; a peer chooses how its bytes are cut and can turn a quadratic step into a standstill.",
  ["src/receive.rs", "src/client_send.rs", "src/server_send.rs", "src/client.rs", "src/server.rs", "src/stream.rs", "proxy/src/proxy.rs"],
  [("seen_bytes and seen_bytes_in_line: bytes are looked at once", "src/receive.rs"), ("queued_messages: messages are taken from the front", "src/client_send.rs, src/server_send.rs"), ("write_buffer: what was written is given up", "src/stream.rs")],
  ["processor time of one instance with all the traffic compared to many that share it"])

p("P40", "Traffic without end in one direction keeps nothing else waiting",
  "However much input keeps arriving, well-formed or not, what a client or server was given to send goes out within a bounded number of steps (unless it waits for the peer: a literal to be accepted, AUTHENTICATE, IDLE). A stream whose transport always has more to read still writes its output after a bounded number of reads, and one whose client or server always has more to send still reads. The proxy passes on what one side says while that side keeps talking; it does not first take in everything it can get. (Sending goes before receiving: input may wait for as long as the application keeps the queue of messages to send from becoming empty.)",
  ["inputs", "schedules"], "all endless inputs and outputs, all moments at which something else becomes due, plain and TLS, either role",
  "Tests exchange a few messages in turn, so that every side falls silent soon; whether anyone starves shows only when a peer does not.",
  ["src/client.rs", "src/server.rs", "src/stream.rs", "proxy/src/proxy.rs"],
  [("State::next: progress_send comes before progress_receive", "src/client.rs, src/server.rs"), ("select between read and write", "src/stream.rs"), ("select between the two sides", "proxy/src/proxy.rs")],
  ["number of steps until a message is sent", "order of reads and writes on the transport"])

p("P41", "Every instance follows its own options; defaults are the documented ones",
  "What is set in the options of a client or server is what they read back as and what instances created from them do; setting one option changes no other; copies and other instances, created before or after, are not affected by it, nor is an instance by later changes to the options it was created from. Options nobody set are the documented defaults: line endings are strict for clients and servers, a server takes literals of up to 25 MiB (and refuses longer ones), commands may be 64 KiB longer, and the texts sent for accepted and refused literals are valid.",
  ["inputs", "histories"], "all sequences of settings and copies, all instances created in between, all messages around the limits, in all partitions",
  "Tests use default options and short messages, so that neither a default limit nor a mix-up between instances or options shows.",
  ["src/server.rs", "src/client.rs", "src/receive.rs"],
  [("Options::default", "src/server.rs, src/client.rs"), ("set_literal_accept_text, set_literal_reject_text", "src/server.rs"), ("Server::new, Client::new hand the options to ReceiveState", "src/server.rs, src/client.rs")],
  ["values of the options", "events, errors and output of the instances"])

assert len({x["id"] for x in P}) == len(P)
for x in P:
    assert len(x["title"]) <= 80, x["title"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")

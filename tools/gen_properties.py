#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as code so it is easy to diff)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=False):
    a = {"files": ["libiqxmlrpc/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("S01", "No method runs for a request the auth plugin has not accepted",
  "When an authentication plugin is installed, no dispatcher, interceptor or method runs for a request unless the plugin accepted that same request: the user name and password it carried or, only if it carried no credentials at all, anonymous access. A request the plugin refuses is answered with HTTP 401. The user name a method sees is the one the plugin accepted for that request.",
  ["inputs", "histories"], "every request on every connection (first or kept alive), every header, every answer of the plugin, both executors",
  "A test tries a few credentials; a bypass can hide behind any header shape, any earlier request on the same connection or any exception path.",
  ["server.cc", "http.cc", "auth_plugin.cc", "method.h"],
  [("credential check ahead of dispatch", "server.cc: schedule_execute / authenticate"), ("credential extraction", "http.cc: Request_header::get_authinfo")],
  ["server.cc: installed plugin"], ["calls of the plugin, of the dispatchers and of methods"])
p("S02", "The firewall decides before a peer gets any service",
  "When a firewall is installed before the server runs, every accepted connection is first submitted to it with that peer's own address, and a connection object is created only for a peer it grants. A refused peer is sent at most the firewall's message and its socket is then closed; nothing it sends is read.",
  ["inputs", "histories"], "every accepted connection, every firewall answer, every restart of the work loop",
  "The decision has to hold for every peer, for the message and no-message refusals and for every restart; tests use one loopback peer.",
  ["acceptor.cc", "firewall.h", "server.cc"],
  [("accept path", "acceptor.cc: Acceptor::accept"), ("hand-over of the firewall to the listener", "server.cc: Server::work")],
  ["acceptor.cc: firewall pointer"], ["creation of the connection object, reads, closes"])
p("S03", "Every complete request is answered exactly once",
  "Each complete request taken from a connection leads to exactly one response scheduled on that same connection, whatever the authentication plugin, dispatchers, interceptors and the method do, including throwing an exception of any type, with the serial and with the thread-pool executor. If one of them failed, the response is a fault or an HTTP error and not a success, and a fault raised by the method carries its own code and text. The objects created for the request are destroyed exactly once.",
  ["inputs", "fault_sequences", "programs"], "every request, every behaviour of user code including every exception type thrown at every user callback, both executors",
  "The number of exception points times exception types times executors is far beyond a test list, and a doubled or missing answer shows only on rare ones.",
  ["server.cc", "executor.cc", "server_conn.cc"],
  [("request execution", "server.cc: Server::schedule_execute"), ("executors", "executor.cc: Serial_executor / Pool_executor"), ("response scheduling", "server.cc: Server::schedule_response")],
  ["executor.cc: executor, method and connection pointers"], ["scheduling of response bytes on the connection"])
p("S04", "A failing connection never stops the server loop",
  "No network error, TLS error, malformed input, refused peer or HTTP error arising on one accepted or incoming connection makes the server's work loop throw or end. The failing connection alone is dropped and the listener stays registered.",
  ["fault_sequences", "inputs"], "every failure of every socket or TLS operation at every step of every connection",
  "Errors at accept, at the refusal message, in the handshake or while reading have to be injected at each point; tests see none of them.",
  ["acceptor.cc", "reactor_impl.h", "http_server.cc", "https_server.cc", "ssl_connection.cc"],
  [("exception barrier of the event loop", "reactor_impl.h: invoke_event_handler"), ("handlers that ask for the barrier", "http_server.cc, https_server.cc: catch_in_reactor"), ("listener", "acceptor.cc: handle_input")],
  None, ["exceptions leaving Server::work"])
p("S05", "A connection is not watched while its request executes",
  "From the moment a complete request is handed over for execution until its response is scheduled, the event loop watches that connection for no event, over HTTP and over HTTPS. So the connection can be neither read again nor destroyed while a worker thread still refers to it.",
  ["schedules", "inputs"], "every interleaving of the event loop with worker threads, every request",
  "The use after free needs a peer that disconnects or sends more while a worker is still busy.",
  ["http_server.cc", "https_server.cc", "ssl_connection.cc", "reactor_impl.h"],
  [("removal of interest before hand-over", "http_server.cc: handle_input; ssl_connection.cc: Reaction_connection")],
  ["reactor interest of the connection"], ["hand-over to request execution"])
p("S06", "Interceptors enclose every method execution",
  "On a server with interceptors, every execution of a method happens inside the whole chain of interceptors installed on that server, the most recently installed one outermost, with the serial and the pool executor. With no interceptor the method runs exactly once per request, directly.",
  ["programs", "configurations"], "every chain of interceptors, every request, both executors",
  "Interceptors are used for access checks and accounting; a path that skips the chain appears only for some executor and chain length.",
  ["method.h", "method.cc", "executor.cc", "server.cc"],
  [("chain", "method.h: Interceptor::yield"), ("entry", "method.cc: Method::process_execution"), ("installation", "server.cc: push_interceptor, schedule_execute")])
p("S07", "A stop request always ends the work loop",
  "When a stop is requested, from any thread, from a method, before the loop is entered or while it waits, the request is recorded before the loop is woken, the loop is woken, and the loop looks at the request before every wait. So the loop returns without needing any further network event, and it can be entered again afterwards.",
  ["schedules", "histories"], "every interleaving of the stop request with the loop, every position of the loop, repeated work cycles",
  "Losing the wake-up needs the request to fall exactly between the check and the wait.",
  ["server.cc", "reactor_interrupter.cc"],
  [("stop flag and loop", "server.cc: set_exit_flag, work"), ("wake-up", "reactor_interrupter.cc: make_interrupt")],
  ["server.cc: exit flag"], ["entry of each wait in the work loop"])

p("L01", "Tables shared between threads are touched only under their lock",
  "With the thread-pool executor, the queue of waiting requests, the shutdown indication of the pool and the event loop's tables of registered handlers are read and written only while the lock that guards them is held. The event loop that the pool server uses is built with a real lock, not with the no-op one.",
  ["schedules"], "every interleaving of the worker threads, the event loop thread and the thread that destroys the pool",
  "Races corrupt the tables only on rare interleavings; no test can enumerate them.",
  ["executor.cc", "reactor_impl.h", "lock.h"],
  [("pool queue lock, shutdown lock", "executor.cc: Pool_executor_factory"), ("reactor lock", "reactor_impl.h")],
  ["executor.cc: request queue and shutdown flag", "reactor_impl.h: handler tables"])
p("L02", "Lock acquisition can never deadlock",
  "Locks are always acquired in one consistent order, never re-acquired by a thread that holds them, and released on every exit including exceptions. No lock is held while user code runs (methods, interceptors, event handlers), while a thread waits for network events, or while threads are joined.",
  ["schedules", "programs"], "all interleavings of all threads, all user callbacks",
  "A deadlock needs two threads inside a window of a few instructions.",
  ["executor.cc", "reactor_impl.h", "util.h"],
  [("lock scopes", "executor.cc, reactor_impl.h, util.h")])
p("L03", "Pool workers miss neither requests nor the shutdown",
  "Every request queued for the pool wakes a worker and is taken out of the queue by exactly one worker, and a worker never takes from an empty queue. Once destruction of the pool has begun, every worker that is or becomes idle terminates, so destruction completes; requests still queued then are released and not executed.",
  ["schedules"], "every interleaving of queueing, waiting, waking (including spurious wake-ups) and destruction",
  "A lost wake-up or an empty-queue access after a spurious wake-up depends on instruction-level timing.",
  ["executor.cc"],
  [("queue and condition", "executor.cc: register_executor, Pool_thread"), ("shutdown", "executor.cc: destruction_started, ~Pool_executor_factory")],
  ["executor.cc: request queue, shutdown flag"])

p("H01", "The configured maximum request size is always enforced",
  "With a maximum request size configured on a server, no request is buffered further, parsed or executed once its received bytes, or its header plus declared body length, reach that maximum: it is refused with HTTP 413. This holds for every request of a connection and for any fragmentation; with no maximum configured no request is refused for its size.",
  ["inputs", "histories"], "every request, fragmentation, limit value and position on a kept-alive connection",
  "The limit is accounting over all possible fragmentations and over all requests of one connection.",
  ["http.cc", "server_conn.cc"],
  [("size accounting", "http.cc: Packet_reader::check_sz, read_packet"), ("limit hand-over", "server_conn.cc: read_request")],
  ["http.cc: received byte count"])
p("H02", "A message body is exactly its declared length and carries no residue",
  "A message read from a connection is delivered only when the number of body bytes its own Content-Length declares has arrived, and its body has exactly that length. Nothing of a finished message (header, body bytes, byte count, announcement of continuation) influences the next message on the connection.",
  ["inputs", "histories"], "every byte stream, fragmentation and sequence of messages on one connection",
  "Framing errors depend on where reads split the stream and on what the previous message left behind.",
  ["http.cc"], [("message assembly", "http.cc: Packet_reader::read_packet, clear")], ["http.cc: Packet_reader fields"])
p("H03", "Outgoing bytes are sent once, in order, to the end",
  "Every response and request scheduled on a plain or TLS connection is handed to the transport completely, in order, without repeating or dropping bytes, however many short writes (plain) or repeated writes (TLS) it takes. The sender goes on to the next phase only after the last byte was accepted, and no write can raise SIGPIPE on a plain socket.",
  ["fault_sequences"], "every sequence of complete, short and repeated writes and every length",
  "Short writes depend on kernel buffers; tests over loopback practically never see them.",
  ["http_server.cc", "http_client.cc", "https_server.cc", "https_client.cc", "ssl_connection.cc", "socket.cc"],
  [("output handlers", "http_server.cc, http_client.cc: handle_output"), ("TLS output", "ssl_connection.cc: try_send"), ("send", "socket.cc: Socket::send")])
p("H04", "After an HTTP-level refusal the connection is closed",
  "A request that is refused at HTTP level (bad syntax, wrong method, missing length, too large, failed authentication, unsupported type or expectation) is answered with an error status and executes nothing. When the refusal is detected while reading the request, the connection is closed after that response even if the peer asked to keep it alive, so leftover bytes are never taken for a new request.",
  ["inputs", "histories"], "every malformed or refused request, every following byte stream, HTTP and HTTPS",
  "The harm appears only with crafted follow-up bytes on the same connection.",
  ["http_server.cc", "https_server.cc", "server_conn.cc"],
  [("refusal handling", "http_server.cc, https_server.cc: catch of HTTP errors")])

p("X01", "Parsing a document never fetches or expands external entities",
  "Every XML document from a peer is parsed with network access disabled, entity substitution off and no external DTD, attribute-default or XInclude loading. No parse entry other than the configured one exists in the library.",
  ["inputs"], "every document a peer can send, every parse entry",
  "Tests would need a hostile document for each entry point and feature.",
  ["parser2.cc"], [("reader creation", "parser2.cc: Parser construction")])
p("X02", "No value or name can break out of the generated XML",
  "Every piece of text supplied by a user or peer (strings, struct member names, method names, fault texts) that is put in a generated document passes through the XML escaping of the writer, and element names and markup are compile-time constants. Every opened element is closed on all paths and a writer failure raises an error instead of yielding a truncated document.",
  ["inputs"], "every value, name and text",
  "An injection shows only for text with markup at the one place that is not escaped.",
  ["xml_builder.cc", "value_type_xml.cc", "request.cc", "response.cc"],
  [("writer wrapper", "xml_builder.cc"), ("serialisers", "value_type_xml.cc, request.cc, response.cc")])
p("X03", "Whatever type is written is the type that is read back",
  "For every value type the element the writer produces is one the parser recognises, and the parser turns it into the same type again, also inside arrays and structs. The alternative elements the protocol allows are mapped to their type and every value type is handled by the writer.",
  ["inputs", "configurations"], "every value type, every nesting, every serialisation option",
  "A disagreement between the two tables shows only for the one type and option combination nobody tested.",
  ["value_type_xml.cc", "value_parser.cc", "value_type.cc", "value_type_visitor.h"],
  [("writer", "value_type_xml.cc"), ("reader tables", "value_parser.cc")])
p("X04", "A broken document is always an error, never a partial message",
  "If an XML document is not well formed up to the end of its root element, or contains an element that XML-RPC does not define or does not allow after the elements before it, parsing it raises an error and nothing is returned from it. A parsed request always has a method name and a parsed response always has a value or a fault, and a number, boolean or date without text is an error. Memory taken while parsing is released on such errors.",
  ["inputs"], "every document",
  "The set of malformed documents is unbounded; each parser state needs its own.",
  ["parser2.cc", "value_parser.cc", "request_parser.cc", "response_parser.cc"],
  [("reader error handling", "parser2.cc: Parser::Impl::read"), ("state machines", "value_parser.cc, request_parser.cc, response_parser.cc")])
p("X05", "Document nesting cannot exhaust the stack",
  "The depth of recursion while parsing a document from a peer is bounded by a constant, whatever the nesting of arrays and structs in the document; deeper documents are refused with an error.",
  ["inputs"], "every document",
  "Needs a document of adversarial depth, and the crash depends on the stack size.",
  ["value_parser.cc", "parser2.cc", "parser2.h"], [("recursive value parsing", "value_parser.cc: ValueBuilder, StructBuilder, ArrayBuilder")])
p("V01", "A value is only ever read as the type it holds",
  "Reading a value as a type it does not hold, indexing past the end of an array or asking for a missing struct member raises an error; it never reinterprets memory or returns a default. Type queries answer exactly for the type held.",
  ["inputs", "programs"], "every value, accessor and index",
  "Every accessor has to be tried on every type, and memory misuse can go unnoticed.",
  ["value.cc", "value.h", "value_type.cc"], [("checked access", "value.cc: Value::cast, can_cast; value_type.cc: Array::at, Struct::operator[]")])
p("V02", "Copies of values share nothing and each part is freed once",
  "Copying, assigning or cloning a value yields an independent deep copy, so changing or destroying one never affects another, and self assignment is harmless. Every part of a value that is replaced, erased, cleared or destroyed is freed exactly once.",
  ["programs", "histories"], "every sequence of operations on values",
  "Sharing or a leak shows only for particular operation sequences under a memory checker.",
  ["value.cc", "value_type.cc", "value_type.h"], [("ownership", "value.cc: Value; value_type.cc: Array, Struct")])

p("K01", "A client never takes a response that belongs to another request",
  "A connection is kept for later calls only after the call on it received its complete response. After a call that failed in any way (timeout, network or HTTP error, malformed response) its connection is discarded, so a late or left-over response can never be returned by a later call and one failure does not break the following calls.",
  ["fault_sequences", "histories"], "every failure at every step of a call, every later sequence of calls, HTTP, HTTPS and proxied",
  "A late response has to arrive exactly between two calls.",
  ["client.cc", "client_conn.cc", "http_client.cc", "https_client.cc"],
  [("connection cache", "client.cc: Client_base::execute, Auto_conn")], ["client.cc: cached connection"])
p("K02", "Every wait of a client is bounded by its timeout",
  "With a positive timeout configured on a client, every wait for the network during a call (connecting, proxy and TLS handshake, sending, receiving) uses it, and a wait that runs out ends the call with the timeout error. No client call blocks in a socket operation outside such a wait.",
  ["fault_sequences", "schedules"], "every peer that stalls at any step",
  "A peer has to stall at each individual step.",
  ["client_conn.cc", "http_client.cc", "https_client.cc", "connector.cc"],
  [("waits", "http_client.cc, https_client.cc, connector.cc: handle_events")])
p("K03", "Only an HTTP 200 response with a body can become a result",
  "A client call returns a result only from a response whose HTTP status is 200; any other status raises the HTTP error with that status and text. A response holding a fault never yields a value: reading its value raises the fault with its code and text, and end of stream before a complete response raises an error.",
  ["inputs"], "every response",
  "Any status and body combination can arrive.",
  ["client_conn.cc", "response.cc", "http_client.cc", "response_parser.cc"],
  [("status check", "client_conn.cc: process_session"), ("fault access", "response.cc: Response::value")])

p("T01", "Peer verification is in force before any TLS data",
  "When a certificate verifier is configured for the server or client role, peer verification is switched on for every connection of that role before its handshake, the verifier is consulted with the TLS library's own verdict, and its answer decides: a rejection or an exception from it makes the handshake fail. When client certificates are required the server fails the handshake of a client that has none, and no application data is exchanged before the handshake succeeded.",
  ["configurations", "inputs"], "every connection, verifier answer and exception, role and configuration",
  "Needs certificates for each role and failure, and an attacker for the missing ones.",
  ["ssl_lib.cc", "ssl_connection.cc", "https_client.cc", "https_server.cc"],
  [("verification set-up", "ssl_lib.cc: Ctx::prepare_verify"), ("handshake", "ssl_connection.cc")])
p("T02", "Every TLS context excludes SSLv2 and SSLv3 and checks its key",
  "Every TLS context the library creates excludes SSLv2 and SSLv3 before it can be used, and a context built from certificate and key files exists only if both were loaded and match. A failed step raises an error.",
  ["configurations"], "every way to create a context, every failing step",
  "A downgrade is visible only to a peer that offers the old protocols.",
  ["ssl_lib.cc"], [("context creation", "ssl_lib.cc: Ctx::Impl constructors")])
p("R01", "Every socket the library opens is closed exactly once",
  "Each descriptor created by the library is closed exactly once, on success, on refusal and on every error path: by the object that took it over when that object is destroyed, or by the code that made it when no object takes it over. No descriptor is used or closed again after it was closed.",
  ["fault_sequences", "histories"], "every failure of every operation between opening and closing a socket",
  "Leaks need a failing system call at each point and long runs to be noticed.",
  ["socket.cc", "connector.cc", "acceptor.cc", "connection.cc", "reactor_interrupter.cc", "https_client.cc"],
  [("socket owners", "connection.cc, acceptor.cc, connector.cc, reactor_interrupter.cc")])
p("R02", "A failed system or library call is never taken for success",
  "The result of every socket, name-resolution, XML and TLS library call that can fail is examined before anything depends on it, and a failure raises an error or is handled; results that may be absent are never dereferenced or used as text unchecked.",
  ["fault_sequences"], "every failure of every external call",
  "Each external call would have to be made to fail.",
  ["socket.cc", "inet_addr.cc", "ssl_lib.cc", "ssl_connection.cc", "parser2.cc", "xml_builder.cc", "reactor_poll_impl.cc"],
  [("error checks", "socket.cc, inet_addr.cc, ssl_lib.cc, parser2.cc, xml_builder.cc")])
p("D01", "A request runs exactly the method registered under its name",
  "A request is executed, with exactly its own parameters, by the method last registered under exactly its method name or else by the first installed dispatcher that offers one; a name nobody offers is answered with the unknown-method fault and runs nothing. The method sees the name and the peer address of its own request, and the introspection list names each registered method once. Every registered factory and installed dispatcher is destroyed exactly once.",
  ["inputs", "configurations"], "every method name, every set of registered methods and dispatchers, both executors",
  "Names that are prefixes, case variants or neighbours of registered ones, and orders of dispatchers, are endless.",
  ["dispatcher_manager.cc", "method.h", "method.cc", "builtins.cc", "server.cc", "executor.cc"],
  [("lookup", "dispatcher_manager.cc: Default_method_dispatcher, Method_dispatcher_manager::create_method"), ("request data", "method.h: Method_dispatcher_base::create_method")])
p("H05", "Every response is one complete HTTP message true to its connection",
  "What a server writes for a response, an HTTP error or an interim response is a status line, well-formed header lines, one empty line and exactly the body whose length is declared once; a 401 carries a challenge and a 405 the allowed method. The response announces keep-alive exactly when the connection is kept after it was written, which is exactly when the request asked for it and was not refused.",
  ["inputs", "histories"], "every response text and error, on connections to be kept and to be closed, first and later requests, HTTP and HTTPS",
  "A test client that reads leniently or opens a connection per call accepts malformed messages and wrong announcements.",
  ["http.cc", "http.h", "http_errors.h", "server_conn.cc", "http_server.cc", "https_server.cc", "server.cc"],
  [("text of a message", "http.cc: Header::dump, Packet"), ("keep-alive state", "server_conn.cc: read_request, schedule_response")])
p("K04", "A request carries exactly what was configured on its client",
  "Each call posts to the configured URI (the absolute URI through an HTTP proxy) with the configured virtual host and port, the credentials exactly when they are set, every client-wide and per-call extra header with per-call ones winning, the keep-alive choice, and nothing else that varies. This holds at the time of the call, also on a kept connection, and the message is complete with the exact length of its document. The connection goes to the proxy where one is set, and a proxy for HTTPS is only asked to connect to the configured server.",
  ["configurations", "histories"], "every combination of credentials, headers, virtual host, proxy and keep-alive, and changes between calls",
  "Combinations of settings and changes between calls on one connection multiply; servers ignore what they do not expect.",
  ["client.cc", "client.h", "client_opts.h", "client_conn.cc", "http_client.cc", "https_client.cc", "http.cc", "xheaders.cc"],
  [("request text", "client_conn.cc: Client_connection::process_session"), ("settings", "client_opts.h: Client_options"), ("proxies", "http_client.cc, https_client.cc")])
p("B01", "Binary data is encoded and decoded exactly as base64",
  "Encoding any data gives exactly its standard base64 text, with padding and without line breaks, each time it is asked for. Decoding a text of letters of that alphabet in groups of four, with white space anywhere and padding only at the end of its last group, gives exactly the data it stands for; up to the padding, any other text is refused as malformed. No data or text makes the coder read outside of its tables.",
  ["inputs"], "data of every length modulo three and every value of each byte; every text of up to four characters, longer ones of letters and white space",
  "Every byte value in every position, and every wrong character in every position, are far too many for examples.",
  ["value_type.cc", "value_type.h"],
  [("coder", "value_type.cc: Binary_data::encode, decode, decode_four, get_idx")])
p("V03", "A text is a date only if it has exactly the form of one",
  "A text is accepted as a date and time only if it has exactly the form YYYYMMDDThh:mm:ss with digits everywhere else than the separators and each field within its range; every such text from the year 1900 on is accepted, any other is refused as malformed. The fields of the date are exactly the numbers in the text, and the date is written as exactly the same text again. A date made of given fields keeps them and is written in the same form.",
  ["inputs"], "every text of 17 characters and texts of other lengths; every number in every field",
  "Wrong characters in each position and each field's limits multiply; lenient number parsing hides them.",
  ["value_type.cc", "value_type.h"],
  [("reading", "value_type.cc: Date_time::Date_time"), ("writing", "value_type.cc: Date_time::to_string")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    assert x["statement"].count(". ") <= 2, x["id"]
print(len(P))

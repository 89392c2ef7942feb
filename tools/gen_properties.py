#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as Python so that long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})
PG = "pkg/pg/"
MSGS = [PG+f for f in ("authentication_request_message.go","backend_key_data_message.go","command_complete_message.go",
  "data_row_message.go","empty_query_response_message.go","error_response_message.go","generic_message.go",
  "negotiate_protocol_version_message.go","notice_response_message.go","parameter_status_message.go","password_message.go",
  "query_message.go","ready_for_query_message.go","row_description_message.go","startup_message.go","terminate_message.go")]
BUF = [PG+"read_buffer.go", PG+"write_buffer.go"]
FR = [PG+"standard_frame.go", PG+"startup_frame.go"]

p("C01", "Decoding an encoded message returns the same message",
  "For every message of every kind the wire package defines, provided it is representable on the wire (strings without NUL bytes, counts that fit their field), serialising it and parsing the result yields an equal message. NULL and empty column values stay distinct, and the order and duplicates of startup parameters, error fields, columns and options are kept.",
  ["inputs"], "every field value of every message kind",
  "Each kind is tested with one captured packet; extreme integers, NULL/empty, repeated or empty strings, zero or many elements are never tried.",
  MSGS+BUF+FR, [("Parse*/Frame pairs", "pkg/pg/*_message.go")], ["Parse*Message(m.Frame()) for every message kind"])
p("C02", "An accepted message is re-emitted byte for byte",
  "Whatever frame the decoder accepts, serialising the decoded message again gives the same message type and a body identical to the received one up to the end of the message's last field, with the length field matching; only surplus bytes after that point may be missing. Messages of kinds the proxy does not interpret are re-emitted identically, whole. Startup messages are covered too.",
  ["inputs"], "every byte sequence that is accepted as a message",
  "The proxy forwards re-serialised messages, so any lossy decode corrupts traffic; tests compare one golden packet per kind.",
  MSGS+FR, [("Parse* then Frame", "pkg/pg/*_message.go"), ("RecvMessage", PG+"conn.go")], ["RecvMessage(...).Frame().Bytes()"])
p("C03", "No input can crash the decoder or make it allocate without bound",
  "For every byte sequence a client or a database may send, receiving a startup message or a regular message ends with a message or an error; it never panics. Memory allocated while decoding is bounded by a small constant plus a small multiple of the bytes actually received, whatever counts and lengths the bytes announce.",
  ["inputs"], "every byte sequence on either connection",
  "A panic in a session goroutine takes down the whole proxy; tests feed only well-formed packets and wrong type bytes.",
  MSGS+BUF+FR+[PG+"conn.go"], [("element counts", PG+"data_row_message.go, row_description_message.go, negotiate_protocol_version_message.go"), ("ReadBytes", PG+"read_buffer.go")],
  ["RecvMessage, RecvStartupMessage, Parse*Message"])
p("C04", "Exactly the well-formed messages are accepted, with the right contents",
  "A message is accepted if and only if its body contains every field its kind requires by the protocol's format: complete integers, terminated strings, element counts and sizes that are not negative (minus one only marking a NULL column) and backed by data, terminators of lists, empty bodies where required, known authentication codes. Every field of an accepted message holds the value the bytes encode. Each message parser refuses a frame of another type.",
  ["inputs"], "every message type and every body",
  "Tests check acceptance of one golden packet per kind and no rejection other than a wrong type byte.",
  MSGS+BUF, [("Parse*Message", "pkg/pg/*_message.go")], ["Parse*Message results compared with an independent reference grammar"])
p("C05", "Frames are cut from the byte stream exactly",
  "Reading a frame consumes exactly the header and the announced number of bytes and returns precisely those bytes, however the network splits them into reads, so the next frame starts where the previous one ended. A stream ending inside a frame gives an error, never a short frame, and an announced length smaller than the length field itself is refused.",
  ["inputs", "schedules"], "every announced length, stream content, truncation point and chunking of reads",
  "Tests read one frame from an in-memory buffer in one piece.",
  FR, [("ReadStandardFrame, ReadStartupFrame", PG+"standard_frame.go, startup_frame.go")], ["ReadStandardFrame, ReadStartupFrame, Conn.Recv*"])
p("C06", "Built frames carry type, exact length and the body unchanged",
  "For every type byte and every body, the frame built from them is the type byte (none for startup frames), the big-endian length of the body plus four, and the body's bytes, and its accessors return that type and body. Building a frame or a message never alters the message it was built from, and building twice gives equal bytes.",
  ["inputs"], "every type byte, every body content and every body length that fits the length field",
  "Tests build one short frame of each sort.",
  FR+[PG+"write_buffer.go"], [("NewStandardFrame, NewStartupFrame", PG+"standard_frame.go, startup_frame.go")], ["New*Frame, MessageType, MessageBody, Bytes, Message.Frame"])
p("C07", "Every received message is decoded as its own kind",
  "A well-formed backend or password/query/terminate message received from a connection is decoded into the message kind its type byte stands for in the protocol, with the fields its bytes encode. A frame whose type byte the proxy has no kind for is returned as an opaque message holding that type and body, whatever they are.",
  ["inputs"], "all 256 type bytes and every body",
  "The only test of the dispatch sends one unknown type.",
  [PG+"conn.go"]+MSGS, [("RecvMessage type switch", PG+"conn.go")], ["Conn.RecvMessage"])
p("C08", "Decoding primitives read big-endian values or leave the buffer alone",
  "Each read primitive returns the value encoded by the next bytes (big-endian signed integers, NUL-terminated strings, raw byte runs, integer arrays of the requested size) and advances by exactly their size. If there are not enough bytes, no terminator, or the requested count is negative or too large, it returns an error and the buffer is unchanged. The bytes of the underlying buffer are never modified.",
  ["inputs"], "every buffer content and length, every requested count",
  "Tests read one value of each sort from one buffer.",
  [PG+"read_buffer.go"], [("ReadBuffer", PG+"read_buffer.go")], ["ReadBuffer methods"])
p("C09", "Encoding primitives append exactly the value's bytes",
  "Each write primitive leaves the bytes already in the buffer unchanged and appends exactly the big-endian encoding of the integer or integers, the raw bytes, or the string followed by one NUL, so that the matching read primitive returns the value written. Bytes already handed over as input are neither modified nor later changed by further writes.",
  ["inputs", "histories"], "every sequence of writes of bounded length with every value",
  "Tests write one or two values of each sort into an empty buffer.",
  [PG+"write_buffer.go"], [("WriteBuffer", PG+"write_buffer.go")], ["WriteBuffer methods"])
p("C10", "Sending writes the whole message once and reports failures",
  "Sending a message hands exactly the bytes of its serialised form, in order and once, to the network connection, and sending a single byte hands over exactly that byte. A write or read failure of the connection is returned to the caller, never swallowed. Closing closes the underlying connection and reports its error.",
  ["inputs", "fault_sequences"], "every message, every outcome of the connection's reads and writes",
  "Tests use an in-memory pipe that never fails.",
  [PG+"conn.go"], [("SendMessage, SendByte, Close", PG+"conn.go")], ["net.Conn below pg.Conn"])
p("C11", "A database URI yields exactly the connection settings it denotes",
  "For every URI with scheme postgres or postgresql, the settings are the URI's user, password, host, port and database, with host localhost, port 5432, the operating-system user and the user's name as database where the URI leaves them out, and every query parameter (the first of the same name) is added and takes precedence. Any other scheme or an unparsable URI gives an error and no settings.",
  ["inputs", "configurations"], "every combination of present and absent URI parts, with bounded symbolic contents",
  "Tests list eight URIs; combinations, empty parts and other schemes are not covered.",
  [PG+"dsn.go"], [("ParseDatabaseURI", PG+"dsn.go")], ["ParseDatabaseURI"])
SE = "pkg/server/session.go"
p("C12", "A client can only reach the configured database",
  "No connection to the database is opened unless the client's startup message has protocol version 3.0 and the database it would be connected to by PostgreSQL's rules (the last database parameter counts) is the one named in the configuration (which names one). Otherwise the session ends with an error and nothing is sent to the database.",
  ["inputs", "configurations"], "every sequence of startup-phase bytes, including repeated parameters and SSL requests before them",
  "No test drives the startup phase of a session at all.",
  [SE, PG+"startup_message.go"], [("negotiateSessionParams", SE)], ["Session.Start with observed dials"])
p("C13", "Startup reaches the configured database unchanged; SSL is declined",
  "After acceptance, the proxy connects to the host and port given by the configuration in force when the session starts and the first bytes the database receives are the client's startup message, byte for byte. Each SSL request is answered with the single byte N, however many precede the startup message, and never reaches the database; nothing else is sent to the client before the database answers. If the database cannot be reached, the session ends with that error.",
  ["inputs", "configurations", "fault_sequences"], "every accepted startup message, every number of SSL requests within the bound, dial and write failures",
  "No test drives the startup phase of a session.",
  [SE], [("negotiateSessionParams, establishDBConnection", SE)], ["Session.Start: bytes written to either side, dialled address"])
p("C14", "Messages are relayed unmodified, in order, exactly once",
  "While a session is up, the database receives exactly the messages the client sent and the client receives exactly the messages the database sent, each byte for byte, in order, once, under every schedule of the session's goroutines. Nothing is invented, dropped, duplicated or delivered to the wrong side.",
  ["schedules", "inputs"], "every interleaving of the session's goroutines, every message in the bounded scripts of both sides",
  "No test relays a message.",
  [SE], [("pumps and processing goroutines", SE)], ["bytes read from and written to both connections"])
p("C15", "A hang-up on either side ends the session completely",
  "When the client or the database hangs up, or a connection fails, the session ends: both connections get closed, the blocking call that serves the session returns, and none of the session's goroutines remains. Messages one side had sent before hanging up are still delivered to the other side if that side can take them. (A hang-up is noticed once what was sent before it has been read: a session that is full because one side does not read stays up until that side reads, hangs up or fails, or the session is closed.)",
  ["schedules", "fault_sequences"], "every interleaving, hang-up and I/O failure at every point of the script",
  "No test lets a session run to its end.",
  [SE], [("Start, Close, pumps", SE)], ["return of Session.Start, Close calls on both connections, remaining goroutines"])
p("C16", "Closing a session is safe at any moment",
  "A session may be closed at any moment, repeatedly and from several goroutines at once, also while it is starting or connecting to the database: nothing panics, every connection it opened or was given is closed, including a database connection whose set-up was under way, and the serving call returns. Closing reports a failure to close either connection. Starting a closed session returns the documented error without touching the network.",
  ["schedules"], "every interleaving of closing with every step of the session's life",
  "The only test closes an idle session that is waiting for its first byte.",
  [SE, "pkg/server/event.go"], [("Close, closed event", SE)], ["Session.Close, Session.Start"])
p("C17", "A stalled direction never blocks the other one",
  "If one peer stops reading, messages travelling in the other direction are still delivered as long as their receiver reads. In particular a client that keeps reading never deadlocks with a database that answers while it is still being sent requests, however many messages are under way.",
  ["schedules", "fault_sequences"], "every interleaving; one side stops reading at any point with queues of any fill level",
  "No test relays messages, let alone with full queues.",
  [SE], [("startProcessing, message channels", SE)], ["progress of one direction while the other is blocked"])
SV = "pkg/server/server.go"
p("C18", "Closing the server leaves nothing behind",
  "After the server has been closed, whatever it was doing at that moment, every listener it was given or created and every client connection it accepted is closed, no session is registered and none of its goroutines keeps running, and closing does not panic. Closing is idempotent, may be called concurrently, and reports the listener's close error on the first call.",
  ["schedules"], "every interleaving of closing with starting, serving, accepting, registering and listener changes",
  "Tests close an idle server once; races between closing and accepting, registering or changing listeners are never forced.",
  [SV], [("Close, changeListener, registerSession, do", SV)], ["Server.Close, Serve, ServeConn, Start"],
  [("listener", "active listener", SV), ("sessions", "live sessions", SV)])
p("C19", "The server follows its lifecycle and the configured listen address",
  "The server starts at most once and never after being closed, reporting the documented errors. It listens on the configured address; when a new configuration changes the address it serves the new one and closes the old listener, when the address cannot be bound it keeps serving the old one, and other changes leave the listener alone. Start returns only on an error or after the server is closed.",
  ["histories", "configurations", "fault_sequences"], "every bounded sequence of configurations, bind failures and lifecycle calls",
  "One test makes one address change; bind failures, unrelated changes and repeated or concurrent lifecycle calls are hardly covered.",
  [SV, "pkg/server/config_distributor.go"], [("Start, changeListener", SV)], ["Server.Start, observed net.Listen and listener Close calls"])
p("C20", "Every accepted connection is served exactly once",
  "Serving a listener hands each accepted connection to exactly one session and keeps accepting after temporary errors; it stops and returns the error on a permanent one. Each session is listed as active while it runs and removed when it ends, and one session's failure does not affect accepting or other sessions.",
  ["histories", "fault_sequences", "schedules"], "every bounded sequence of accepted connections, temporary and permanent errors",
  "The test accepts a single connection and sees no error.",
  [SV], [("Serve, ServeConn", SV)], ["Server.Serve with a scripted listener"])
p("C21", "A one-time event fires exactly once",
  "However many goroutines fire an event at once, exactly one call reports that it fired it, and once any call has returned the event reads as fired forever and its done channel is closed. Before that it reads as not fired and the channel is open; nothing panics.",
  ["schedules"], "every interleaving of concurrent firing and querying",
  "Tests fire sequentially from one goroutine.",
  ["pkg/server/event.go"], [("Fire, HasFired, Done", "pkg/server/event.go")], ["Event methods"])
CD = "pkg/server/config_distributor.go"
p("C22", "Reading the configuration returns the current one",
  "Asking for the configuration blocks until the first one exists, then returns the most recent one the distributor has processed: never nothing, never an older one than a previous call in the same goroutine returned. After the distributor is closed, asking returns the documented error, also for callers already waiting.",
  ["schedules", "histories"], "every interleaving of readers, updates and closing",
  "Tests order the calls with channels and sample one schedule.",
  [CD], [("Get, waitForNextConfig, monitorConfig", CD)], ["ConfigDistributor.Get"])
p("C23", "Subscribers get exactly the relevant configuration updates, in order",
  "A subscriber first receives the current configuration if there is one and its filters accept it, then every later update accepted by at least one of its filters (every update when it has none), each once and in order. Filters see the previous and the new configuration. After unsubscribing or closing nothing more is delivered.",
  ["schedules", "histories", "inputs"], "every bounded sequence of updates, filters, subscriptions and unsubscriptions, every interleaving",
  "Tests use one sequence of three updates and one filter.",
  [CD], [("Subscribe, notifySubscribersLocked, shouldSendUpdatedConfig", CD)], ["channels passed to Subscribe"])
p("C24", "The configuration distributor never deadlocks or panics",
  "Whatever the timing of readers, subscribers that consume their channel, updates, unsubscriptions and closing, no call on the distributor blocks forever, the distributor keeps processing updates until it is closed, and nothing panics. Closing is idempotent, also happens when the source of updates ends, and stops the distributor's goroutine.",
  ["schedules"], "every interleaving of readers, updates, unsubscription and closing",
  "Tests sequence the calls; the windows between checking, subscribing and unsubscribing are never forced.",
  [CD, SV], [("mutex, subscriptions, monitorConfig", CD)], ["ConfigDistributor methods"])
p("C25", "The exit status tells whether the proxy ran properly",
  "The command exits 0 only for help and version requests and when the server ended without error; bad arguments, an unreadable configuration or watch failure, and a server error each give exit status 1 and a message on standard error that contains the cause. The server is run exactly when arguments and configuration are good, and then exactly once.",
  ["inputs", "fault_sequences"], "every outcome of argument parsing, configuration loading, file watching and serving",
  "Tests cover five combinations with a mocked server.",
  ["pkg/cli/cli.go", "pkg/cli/run.go"], [("Run", "pkg/cli/cli.go")], ["cli.Run"])
p("C26", "Configuration file changes reach the server in order",
  "The server receives the configuration the file held at start, then, for every write to the file while the server runs that leaves a readable configuration, that configuration, in order (of writes that follow each other before the first is dealt with, the later content may stand for both). Errors of the watcher and unreadable content do not stop the watching. Unreadable content is skipped without losing the configuration in force; other file events deliver nothing and harm nothing.",
  ["histories", "fault_sequences", "schedules"], "every bounded sequence of file events and load outcomes",
  "A test makes one write and looks for one update.",
  ["pkg/cli/watch_server_config.go", "pkg/cli/file_watcher.go", "pkg/cli/read_server_config.go", "pkg/cli/cli.go"],
  [("watchServerConfig, fileWatcher.Watch", "pkg/cli/")], ["channel of configurations handed to the server"])
p("C27", "Database metadata is complete or an error is returned",
  "Inspecting returns either the full set of tables, views and materialised views outside the system's schemas, as reported by the database, each under its object id with the right schema and name, or an error: a failure of the query, of decoding a row or of reading further rows never yields a partial mapping without error. Result sets are always released, a failed connection attempt is closed and reported, and the database name is the one reported.",
  ["fault_sequences", "inputs"], "every bounded result set and every failure point",
  "The tests need a live PostgreSQL server, are not run here and never see a failure.",
  ["pkg/pgmeta/inspector.go"], [("Inspect, OIDTableMapping, DatabaseName", "pkg/pgmeta/inspector.go")], ["Inspector methods over a scripted database/sql"])
p("C28", "Server, session and configuration state is free of data races",
  "Under every schedule, no two goroutines access the same memory of the server, a session, the configuration distributor or the configuration file watching at the same time with one of them writing, unless by synchronised means.",
  ["schedules"], "every interleaving in every concurrency scenario of the other properties",
  "The stable tests run without the race detector and sample a few schedules.",
  [SV, SE, CD, "pkg/server/event.go", "pkg/cli/file_watcher.go"], [("mutexes, events, channels", "pkg/server, pkg/cli")], ["all shared memory cells"])
p("C29", "Client messages of every kind pass through to the database unchanged",
  "Any message a client may send after startup, of whatever type byte and content, including the extended-query, copy, function-call and password or SASL response messages whose type bytes backends use for other purposes, reaches the database byte for byte as long as it is well-formed; it neither ends the session nor gets altered.",
  ["inputs"], "all 256 type bytes and every body",
  "No test sends a client message through a session.",
  [SE, PG+"conn.go"], [("client pump and message dispatch", SE+", "+PG+"conn.go")], ["bytes written to the database connection"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

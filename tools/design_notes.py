T = {
'C01': "Decided: for every kind, a message whose fields are solver variables is serialised and parsed by the real code; equality of every field is asserted on every path. Oracle: the message itself. Tests have one example per kind.",
'C02': "Decided: a body of arbitrary bytes is parsed by the real parser; where it is accepted, the real Frame() of the result must be the same bytes. Oracle: the input. Tests never start from bytes a client chose.",
'C03': "Decided: every index, slice, conversion, nil dereference and make in the real decoder is a query for a panic; allocation is counted by the interpreter (`AllocBytes`, growth of append included) and asserted to be linear in what was received. Announced counts and lengths are arbitrary 32-bit or 16-bit integers.",
'C04': "Decided: accept or refuse, and the fields, against an independent decoder written in the harness from the protocol documentation (`hpg/ref.go`), for arbitrary bodies.",
'C05': "Decided: the real frame reader on a connection that cuts the stream into pieces of arbitrary size (also with the end of the stream reported together with data, and with empty reads), announced lengths arbitrary. Oracle: the first length+1 bytes.",
'C06': "Decided: frames and messages with arbitrary bytes whose backing arrays have spare capacity and neighbours (guards) which must stay untouched; equality with type, length, body.",
'C07': "Decided: RecvMessage on frames of every type byte gives the message the reference decoder gives, for known types their own kind, for others the generic one.",
'C08': "Decided: each ReadBuffer primitive on buffers of arbitrary bytes: value and remaining bytes against the reference, or an error and an untouched buffer; arbitrary (negative, huge) counts.",
'C09': "Decided: each WriteBuffer primitive with arbitrary values appends exactly the reference bytes, leaves what was there before, and does not alias its argument.",
'C10': "Decided: sending with a connection failing after an arbitrary number of bytes with one of several errors (for good or once); bytes on the wire are the message or a beginning of it, the failure is reported (errors.Is), closing reports the connection's error.",
'C11': "Decided: URIs assembled from parts with arbitrary characters (escaped or not) against the settings the parts denote; malformed ones and other schemes must be refused. The real net/url is executed. `net/url`'s reading of opaque URIs (postgres:foo) is outside.",
'C12': "Decided: startup messages with arbitrary parameters (names and values chosen so that `database`, `user`, repeated, empty and missing occur, values arbitrary bytes); where the session goes on, the database PostgreSQL would choose for the startup message that reaches it (reference: last `database`, else `user`) is the configured one. Assumes that the configured URI names a non-empty database.",
'C13': "Decided: the bytes that reach the database connection are the client's startup message, byte for byte, preceded by nothing; every SSL request is answered by one N; protocol prelude of the database is relayed.",
'C14': "Decided: what each peer receives is a prefix of, and without failure all of, what the other sent, for messages with arbitrary bytes, arbitrary cutting into reads, hang-ups and failures at any byte, under every schedule of the session's goroutines.",
'C15': "Decided: after a hang-up or failure of a peer at any moment, the session returns, both connections are closed, no goroutine is left (`verif.Running`). A hang-up is only noticed once earlier data has been read, as with TCP. Grace periods are waited for (time passes when nothing else can happen).",
'C16': "Decided: Close called by one or two goroutines at any moment of startup, dialling, relaying and ending: no panic, no deadlock, everything closed.",
'C17': "Decided: a peer that stops reading (its writes block for ever) does not hold up the other direction; assertion after everything that can happen has happened. Buffer sizes are not assumed: what was sent after the stall is compared with what the session had accepted.",
'C18': "Decided: closing the server in every state (listening, accepting, sessions starting, relaying, in the middle of a change of address, several closers): Serve and Start return, all connections and listeners end, no goroutine remains, and closing returns only then.",
'C19': "Decided: against a stand-in network and configuration store (HRun: the real distributor): after every history of configurations within the bound the listener is the one of the last usable configuration; failing listens and closes, closing at any moment; the documented errors of Start, Serve and Close.",
'C20': "Decided: accepted connections (with temporary and permanent accept errors anywhere) are each handed to exactly one session, which serves them.",
'C21': "Decided: Event under every schedule of several firing goroutines.",
'C22': "Decided: readers, updates and closing at any moment; every read returns a configuration not older than one read before by the same goroutine and not older than the one processed before the call.",
'C23': "Decided: what a subscriber receives equals the reference list computed by filters over the updates from the moment it subscribed (arbitrary changes, arbitrary filters, arbitrary moment), in order, once; nothing after Unsubscribe or Close returned (the harness closes the channel, so that a later send panics).",
'C24': "Decided: no call blocks for ever and nothing panics in any of these histories; the distributor's goroutines end. The source never sends a nil configuration.",
'C25': "Decided: cli.Run with command lines from a grammar with arbitrary characters (real kingpin), arbitrary outcomes of reading the configuration, of watching and of running the server; exit status and what was run against the reference.",
'C26': "Decided: histories of file events with arbitrary op bits, file contents (readable, malformed, partial, unreadable) and watcher errors, taken by the server at once or late. Outside: a write between the first reading and the start of watching; torn writes; replacing the file by renaming.",
'C27': "Decided: the inspector over a stand-in database/sql that evaluates the query text (a small SQL evaluator: select, join, where with and/or/not, =, <>, in, like, not like; other syntax makes the harness decline to judge the text) over catalogs with arbitrary object ids, and fails at any step (connect, ping, query, row, scan, end of rows, close). A mapping without error equals the catalog's.",
'C28': "Decided: happens-before race detection (vector clocks, Go memory model: channels, mutexes, atomics, WaitGroup, Once, Cond, goroutine start) on every explored schedule of the harnesses that share state; accesses with sync/atomic race with plain ones. Only races count under this property.",
'C29': "Decided: client messages of every type byte with arbitrary bodies reach the database byte for byte, in both the decoder and the running session.",
}

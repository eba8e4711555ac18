# Source of /verif/properties.jsonl (and of the ids in MANIFEST.json). Run: python3 tools/props.py
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

M = "memcache/"
prop("C01", "Only well-formed keys reach the wire, others are rejected with an error",
  "MGet, MGetFast, MSet and MDel reject a key that is empty, longer than 250 bytes, or contains any control character, whitespace or byte outside printable ASCII, and accept every other key. A rejected call returns a non-nil error and adds nothing to the pipeline, so no byte of a rejected key is ever sent and no key can end or split a command line.",
  ["inputs"], "all key strings, all operations taking a key",
  "Tests try a few keys on one operation; injection needs one forbidden byte at any position in any operation.",
  [M+"pipeline.go", M+"builder.go"],
  [("key validation before a command is added", "memcache/pipeline.go: validateKeyFormat, MGetFast, MSet, MDel"), ("key appended to the request", "memcache/builder.go: addMGet, addMSet, addMDel")],
  observe=["bytes written to the connection", "error returned by MGet/MSet/MDel"])
prop("C02", "Every operation is encoded as exactly the meta command its arguments ask for",
  "For all arguments, an operation appends exactly one complete CRLF-terminated command: mg/ms/md with the given key, each requested option (c, N, C, I, T) present if and only if it was requested and carrying the caller's number, version and flush_all bare. The length announced by ms is the length of the value block that follows that very line, and the block holds the value as it was when MSet was called, followed by CRLF.",
  ["inputs"], "all keys, values, option combinations and option values, any position in a pipeline",
  "Tests compare a few fixed command strings; options, widths and positions in a pipeline combine freely.",
  [M+"builder.go", M+"command.go"],
  [("command encoding", "memcache/builder.go: addMGet, addMSet, addMDel, addVersion, addFlushAll, appendNumber"), ("writing the encoded list", "memcache/command.go: writeToWriter")],
  observe=["bytes written to the connection"])
prop("C03", "Each response line decodes to the result and error its status code denotes",
  "The type returned for a response is the one its two-letter status denotes for that operation (mg: VA, HD, EN; ms: HD, NS, EX, NF; md: HD, NF, EX), lease flags W, X, Z and the CAS number are those on the line, the value is the block read for that line, SERVER_ERROR and CLIENT_ERROR become errors of their own kind with the server's message. Any other response yields a non-nil error, never a success.",
  ["inputs"], "all response byte strings, for each kind of operation",
  "Tests decode sample lines; the mapping must hold for every status, flag order and position in a batch.",
  [M+"parser.go", M+"pipeline.go"],
  [("response decoding", "memcache/parser.go: readMGet, readMSet, readMDel, readVersion, readFlushAll, readError"), ("command kind to decoder", "memcache/pipeline.go: parseCommandsForSingleCommandData")],
  observe=["values returned by the result functions"])
prop("C04", "No sequence of server bytes can crash the client or make it spin",
  "Whatever bytes the server sends and however they are split into reads, handling them never indexes or slices out of range, never converts to an invalid length, never reaches an explicit panic, and never loops without consuming input. A length announced by the server is bounded before memory is allocated for it.",
  ["inputs"], "all byte sequences from the server, all segmentations",
  "Tests feed a handful of malformed lines; a crash needs one specific truncated or oversized line.",
  [M+"reader.go", M+"parser.go", M+"pipeline.go", M+"pool.go"],
  [("incremental reader", "memcache/reader.go: recv and the handle* functions"), ("parsers", "memcache/parser.go"), ("bound on announced length", "memcache/reader.go: handleGetNum")])
prop("C05", "Reading a response conserves its bytes, wherever the stream is split",
  "Every byte handed to the response reader is, exactly once and in order, recorded as part of the current response, stored into the value being received, or kept for the next response, unless the reader reports an error. A value is complete only after its announced length plus the trailing CRLF were consumed, each piece being stored right after the previous one.",
  ["inputs", "schedules"], "all responses and all ways the stream is cut into reads",
  "Tests cut a few responses at chosen places; a lost or duplicated byte needs a specific cut in a specific state.",
  [M+"reader.go"],
  [("state machine", "memcache/reader.go: recv, handle*, setCompleted, handleBinaryData"), ("kept bytes", "memcache/reader.go: remainingData, readNextData")])
prop("C06", "Every published command is completed exactly once",
  "Each batch handed over by a pipeline is completed exactly once, with a response or an error, on every path: normal responses, connection errors, reconnects, shutdown and publishing after close. So no result function, Finish or Close blocks forever, and no batch is lost, skipped or completed twice.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of publishers, sender, receiver and Close, with a failure at any point",
  "Tests drive single-threaded sequences through mocks; losing a command needs a failure or close at one specific point.",
  [M+"core.go", M+"sender.go", M+"send_buffer.go", M+"input_selector.go", M+"pipeline.go"],
  [("receiver loop", "memcache/core.go: recvCommands, cmdListReader"), ("publish after close", "memcache/sender.go: publish"), ("hand-over to the receiver", "memcache/sender.go: sendToWriter, recvBuffer"), ("queues", "memcache/send_buffer.go, memcache/input_selector.go"), ("waiting for all batches", "memcache/pipeline.go: commandListWaitCompleted")])
prop("C07", "A response is only ever given to the command that caused it",
  "Commands are queued for the receiver in the order in which they are written, each before its bytes are written and each at most once, and each is written to and read from the one connection it was bound to; nothing is written to a connection that already failed. Bytes left over from one connection are never used for a command of another, and after a response that cannot be parsed no later command of that batch gets a response.",
  ["schedules", "fault_sequences", "inputs"], "all interleavings, failures and reconnects, all response bytes",
  "Misattribution needs a failure or reconnect with requests in flight; tests use one connection and whole responses.",
  [M+"sender.go", M+"core.go", M+"pipeline.go"],
  [("bind, queue, then write", "memcache/sender.go: sendToWriter, writeAndFlush"), ("reader reset on connection change or error", "memcache/core.go: recvSingleCommandData, recvCommands"), ("broken batch", "memcache/pipeline.go: parseCommandsForSingleCommandData")])
prop("C08", "A failed connection stays failed and every error is reported",
  "Any error from writing, flushing or reading a connection, and any response that is not understood, marks that connection as failed and closes its socket exactly once; the first error is kept and is what later operations on that connection report. No error on these paths is dropped and a failed connection is never read from or written to again.",
  ["fault_sequences", "schedules"], "an error at any write, flush, read or parse, with any interleaving",
  "Tests inject single errors into mocks; the rule must hold at every I/O call and under races between reader and writer.",
  [M+"sender.go", M+"core.go", M+"pipeline.go", M+"command.go"],
  [("first error wins, close once", "memcache/sender.go: setLastErrorAndCloseUnsafe"), ("error checks", "memcache/sender.go: readData, writeAndFlush; memcache/command.go: writeToWriter")])
prop("C09", "After a failure the client reconnects, and no socket is ever leaked",
  "Whenever a connection fails and the client is not closed, the background goroutine dials again, waiting the retry duration between failed attempts, until a connection is installed and used for later commands. Every socket obtained from dialing is either handed on or closed on every path, including when setup of the socket fails or the client is closed meanwhile.",
  ["fault_sequences", "schedules"], "all sequences of failures of dialing, setup and use, with Close at any point",
  "Reconnect paths need a real server in the existing tests and do not run in the reliable suite at all.",
  [M+"conn.go", M+"sender.go", M+"netconn/netconn.go", M+"netconn/auth.go"],
  [("reconnect loop", "memcache/conn.go: newConn"), ("installing a connection", "memcache/sender.go: resetNetConn"), ("dial and setup", "memcache/netconn/netconn.go: DialNewConn; memcache/netconn/auth.go: GetDialFunc")])
prop("C10", "Every network read and write runs under its configured deadline",
  "Each read from and each write to a dialed connection is immediately preceded by setting a fresh deadline of now plus the read (respectively write) timeout on that same connection, and does not happen if that fails. The password handshake runs under the connect timeout, which is removed before the connection is handed on; dialing uses the connect timeout.",
  ["inputs", "fault_sequences"], "every I/O call on every connection",
  "Tests check one read and one write timeout; a stalled peer at any other point would hang the client.",
  [M+"netconn/netconn.go", M+"netconn/auth.go"],
  [("deadline wrappers", "memcache/netconn/netconn.go: timeoutWriter, timeoutReader, DialNewConn"), ("handshake deadline", "memcache/netconn/auth.go: GetDialFunc")])
prop("C11", "Close stops everything it started and later use fails with ErrConnClosed",
  "Close may be called any number of times; it signals every background goroutine and returns only after the sender, receiver, reconnect and health-check goroutines of all connections have been told to stop and the ones it waits for have ended. After it no connection is dialed or left open, commands published later fail with ErrConnClosed and commands already accepted are still completed.",
  ["schedules", "histories"], "Close at any point relative to use, failures and reconnects, repeated and concurrent Close",
  "The shutdown tests need a server and check one quiet schedule.",
  [M+"memcache.go", M+"conn.go", M+"core.go", M+"sender.go", M+"send_buffer.go", M+"health.go"],
  [("shutdown order", "memcache/memcache.go: Close"), ("idempotent close", "memcache/conn.go: shutdown; memcache/health.go: shutdown"), ("drain then close", "memcache/sender.go: runSenderJob, shutdown; memcache/core.go: recvCommands")])
prop("C12", "Locks are balanced, never held while blocking, and cannot deadlock",
  "Every mutex acquired is released exactly once on every path, never re-acquired while held, and no lock is held while waiting for something other than its own condition variable or doing a blocking queue, channel or wait-group operation. Locks are nested in one consistent order.",
  ["schedules"], "all paths and interleavings",
  "A missing unlock or a blocking call under a lock only deadlocks on one schedule or error path.",
  [M+"sender.go", M+"send_buffer.go", M+"input_selector.go", M+"conn.go"],
  [("mutexes", "connMut, sendBuffer.mut, recvBuffer.mut, connWriteLimiter.readMut, clientConn.mut")])
prop("C13", "No wakeup is ever lost",
  "A goroutine that waits for queued commands, queue space, responses already read, a connection failure or shutdown re-checks its condition under the lock around every wait, and every change that can make such a condition true is made under that lock and followed by waking the waiter. In particular closing always wakes everyone waiting on what was closed.",
  ["schedules"], "all interleavings of waiters and updaters",
  "A lost wakeup hangs only on a narrow interleaving that tests do not force.",
  [M+"sender.go", M+"send_buffer.go", M+"input_selector.go"],
  [("condition variables", "sendBuffer.cond, recvBuffer.sendCond/recvCond, connWriteLimiter.readCond, sender.ncErrorCond")])
prop("C14", "Shared state is accessed without data races",
  "Every piece of state reachable from more than one of the client's goroutines is either never changed after it is published, accessed atomically, accessed only under the one lock that protects it, or handed over through a queue or channel so that one goroutine at a time uses it. A single Pipeline is confined to the goroutine that uses it; Clients may be shared.",
  ["schedules"], "all interleavings of all goroutines",
  "The race detector sees only executed schedules, and the networked paths do not run in the reliable suite.",
  [M+"sender.go", M+"send_buffer.go", M+"input_selector.go", M+"core.go", M+"conn.go", M+"memcache.go", M+"health.go"],
  [("protected fields", "sender.conn/closed under connMut; sendBuffer, recvBuffer fields under mut; connWriteLimiter under readMut/atomic; clientConn.closed under mut")])
prop("C15", "Recycled buffers are always as large as the slice made from them",
  "A buffer taken from a pool of a size class is never sliced beyond the size of every buffer that can be in that class, and a buffer is put only into a class whose size it has. For every request size the slice returned has exactly that length (or is empty with that much capacity), and a buffer not created by the pool can be released without harm.",
  ["inputs"], "all sizes and capacities, all sequences of get and release",
  "Tests sample sizes; one wrong class lets unsafe slicing read or overwrite unrelated memory.",
  [M+"pool.go", M+"command.go"],
  [("size classes", "memcache/pool.go: getByteSlice, releaseByteSlice, getResponseBinaries, putResponseBinaries, pipelineCommandListPool")])
prop("C16", "A buffer is never recycled while someone can still use it",
  "Request buffers are recycled only after they were written or their write was abandoned, response buffers only after they were parsed, each at most once and with its reference dropped; memory supplied by the caller is never recycled or modified and a value returned to the caller is never recycled by the client. Results handed out do not share memory with buffers that are recycled.",
  ["histories", "schedules", "inputs"], "all operation sequences and interleavings",
  "Premature recycling corrupts other requests only when the pool reuses the buffer at that moment.",
  [M+"command.go", M+"sender.go", M+"pipeline.go", M+"parser.go", M+"builder.go", M+"pool.go"],
  [("freeing request data", "memcache/command.go: freeCommandRequestData; memcache/sender.go: clearCmdList"), ("freeing response data", "memcache/command.go: freeCommandResponseData; memcache/pipeline.go: waitAndParseCmdData")])
prop("C17", "The write limit bounds the commands in flight and never leaks",
  "A batch that fits the write limit is sent only when the commands in flight plus its own do not exceed the limit; every batch sent is counted once when sent and once, with the same count, when its response or its error is seen. So the limit is never exceeded by such batches and errors never use it up.",
  ["schedules", "fault_sequences", "histories"], "all sequences of batches, responses, errors and reconnects",
  "A leak of the counters stalls a connection only after many errors; tests use a few commands.",
  [M+"input_selector.go", M+"core.go"],
  [("limiter", "memcache/input_selector.go: allowMoreWrite, addWriteCount, addReadCount, getNextCommand"), ("count on response or error", "memcache/core.go: readNextMemcacheCommandResponse")])
prop("C18", "Batches keep the pipeline's order, size bound and response count",
  "A pipeline is split into batches of at most the configured number of commands, in the order of the calls, each batch recording exactly how many commands it holds. The receiver takes exactly that many responses for a batch, and responses are given to the pipeline's commands in that same order, batch by batch.",
  ["inputs", "histories"], "all pipelines of any length and any batch size",
  "Tests use a few lengths and mostly one batch.",
  [M+"builder.go", M+"core.go", M+"pipeline.go"],
  [("splitting", "memcache/builder.go: internalIncreaseCount, addNewCommand"), ("reading a batch", "memcache/core.go: recvSingleCommandData"), ("distributing results", "memcache/pipeline.go: parseCommands")])
prop("C19", "Result functions wait, return their own result once, then ErrAlreadyGotten",
  "Calling the function returned by an operation sends the pipeline if it was not sent yet, waits for the responses, and returns the result of that very operation with its error. A second call returns ErrAlreadyGotten and no result, and a result is read as the type that was stored for that operation.",
  ["histories"], "all sequences of operations and result calls",
  "Almost all pipeline tests need a server, so these paths do not run in the reliable suite.",
  [M+"pipeline.go"],
  [("one shot results", "memcache/pipeline.go: pushAndWaitIfNotRead and the closures of MGet, MSet, MDel, Version, FlushAll"), ("typed results", "memcache/pipeline.go: parseCommandsForSingleCommandData")])
prop("C20", "A pipeline sends each of its commands exactly once and in order",
  "Execute, Finish and result calls publish the commands collected so far once; operations issued after that form a new session that is started only after the previous one was completed and parsed. Finish returns only after all responses of the pipeline were received, and all sessions of one pipeline use the same connection.",
  ["histories"], "all sequences of operations, Execute, Finish and result calls",
  "Almost all pipeline tests need a server, so these paths do not run in the reliable suite.",
  [M+"pipeline.go"],
  [("sessions", "memcache/pipeline.go: getCurrentSession, pushCommandsIfNotPublished, waitAndParseCmdData, Finish, Execute")])
prop("C21", "Every option takes effect where it is meant to and nowhere else",
  "Each configuration option stores the caller's value in the one setting it names, and that setting is what the corresponding mechanism uses: retry delay, buffer size, write limit, batch size, health-check period, dial error logger, keep-alive period, dial function, and read and write timeouts. Options passed through to the connection layer reach it for the first dial and for every reconnect.",
  ["configurations"], "all combinations and values of options",
  "Few options have a test; a swapped or ignored option is invisible with defaults.",
  [M+"options.go", M+"netconn/netconn.go", M+"conn.go", M+"core.go", M+"memcache.go"],
  [("options", "memcache/options.go; memcache/netconn/netconn.go"), ("consumers", "newConn, newCoreConnection, New, DialNewConn, newPipelineCommandListPool")])
prop("C22", "With password authentication only accepted connections are used",
  "The dial function made for a username and password sends one set command whose announced length is that of its payload, username, a space, and password, and returns a connection only if the complete answer was read and equals STORED. In every other case it returns an error and the socket is closed.",
  ["inputs", "fault_sequences"], "all credentials, all answers and failures of the server",
  "The authentication tests need a server with authentication enabled.",
  [M+"netconn/auth.go"], [("handshake", "memcache/netconn/auth.go: GetDialFunc, tryReadBytes")])
prop("C23", "The health check probes every connection when the client is idle, else none",
  "Each period the health check compares the number of pipelines started with the number at the previous check: if every connection got at least one turn it does nothing but remember the number, otherwise it sends a version command, and waits for the answer, on each connection in turn until every connection was covered. It stops when the client is closed.",
  ["histories", "schedules"], "all activity patterns and numbers of connections",
  "Tests check a few counter values; the loop must cover every connection for any history.",
  [M+"health.go"], [("probe loop", "memcache/health.go: runSingleLoop, runInBackground")])
prop("C24", "Every statistic is returned in the field named after it and never truncated",
  "For general, slab, slab-item and metadump output each field of the result comes from the statistic of its name and no other, of the slab class named on that line. Numbers are parsed with the width of the field they are stored in, so a number that does not fit is an error and not a wrong value.",
  ["inputs"], "all statistics and all values",
  "Tests compare one sample output; a swapped rarely set counter or a narrow parse is invisible.",
  [M+"stats/stats.go"], [("stat to field tables", "memcache/stats/stats.go: GetGeneralStats, parseSlabStat, parseSlabItemStat, parseMetaDumpKey")])
prop("C25", "Statistics calls never report success for a failed or truncated reply",
  "A statistics call returns a nil error only if its command was written, every line was understood and the terminating END was read; any write, read or parse error is returned. When a number on a line cannot be parsed the rest of that reply is still consumed, so it is not taken for the answer to the next command.",
  ["inputs", "fault_sequences"], "all replies, cut or corrupted anywhere",
  "Tests feed a few bad lines to the parser and never cut a dump.",
  [M+"stats/stats.go", M+"stats/parser.go"], [("reply parsing", "memcache/stats/parser.go: next; memcache/stats/stats.go: Get*, MetaDumpAll, writeCommand")])
prop("C26", "Pipelines are spread over all connections and the choice is always valid",
  "New returns an error for a non-positive number of connections and otherwise creates exactly that many; a pipeline picks its connection by a counter advanced atomically once per pick, modulo the number of connections. The index is always in range, also after the counter wraps around, and consecutive picks use consecutive connections.",
  ["inputs", "schedules"], "all connection counts, all counter values, concurrent picks",
  "Tests use a few picks with three connections.",
  [M+"memcache.go"], [("selection", "memcache/memcache.go: New, getNextConn")])
NA = [
 ("C27", "A value written with MSet is the value a later MGet returns",
  "If MSet of a value for a key is acknowledged and nobody changes or evicts it, every later MGet of that key returns the same bytes, and operations on one key are linearizable across pipelines and connections.",
  ["histories", "schedules"], "all histories of operations against a real server",
  "The property quantifies over the server's behaviour as well."),
 ("C28", "A short pipeline is not starved by a long one",
  "While one pipeline with very many commands is being sent, another short pipeline published later on the same connection is sent after at most a bounded number of batches of the long one.",
  ["schedules", "histories"], "all mixes of pipelines",
  "Tests check a few fixed mixes on the selector."),
 ("C29", "Close and every operation finish within a bounded time",
  "With a server that stops answering at any point, every result function, Finish and Close returns within a time bounded by the configured timeouts and the number of queued commands.",
  ["schedules", "fault_sequences"], "all stalls of the server",
  "Needs real time and real schedules."),
]
for i, t, s, o, q, w in NA:
    prop(i, t, s, o, q, w, [M], [("see DESIGN.md", M)])
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,title
    P.append(d)

p('C01','Parsing any byte sequence is memory-safe and stays inside the message',
 'Parsing an inbound message never panics, whatever its bytes, its length and the size of the message buffer are. Identifier, name, payload and sub-protocol name that a successfully parsed message exposes lie entirely inside the bytes of that very message, never in stale bytes of a previous message sharing the buffer. A message whose length flags do not fit its actual size, or that is shorter than its type requires, is rejected with an error.',
 ['inputs'],'every byte string of every length, every buffer size, every message type, through every reading entry point of the message package',
 'The tests parse a few dozen well-formed and slightly corrupted messages in a buffer of one size; the combinations of type, length flag, padding and buffer content are not enumerable.',
 ['message/parse.go','message/parse*.go','message/read.go','message/buffer.go'],
 [('length checks in front of every slice expression','message/parse*.go'),('Data() restricts parsers to the used part of the buffer','message/buffer.go')])

p('C02','Oversized messages are rejected and accepted messages are complete',
 'An inbound message that is bigger than the receiving message buffer is rejected with an error, never truncated or partially overwritten. A message that is accepted consists of exactly the bytes delivered by the reader, in order, independent of how the reader splits the data over calls, and failures of the reader other than end-of-file are reported.',
 ['inputs','fault_sequences'],'every message size, every buffer size, every way an io.Reader may split, end or fail the data (including data returned together with EOF)',
 'Tests use a byte buffer as reader, which always delivers everything in one call and never returns data together with an error.',
 ['message/buffer.go','message/read.go'],
 [('Buffer.Read loop and overflow probe','message/buffer.go'),('length check before the copy','message/read.go')])

p('C03','Whatever the writers emit, the parser accepts and reads back identically',
 'Every signal, request, reply, error reply, special reply, session notification, nameless request, heartbeat and configuration message a writer emits successfully is accepted by the parser (provided it fits the buffer) with the same type, identifier, name or error code, payload bytes and payload encoding (error replies excepted). UTF16 payloads always start at an even offset of the message. The message length calculation functions return exactly the number of bytes the respective writer emits.',
 ['inputs'],'every name (0..255 bytes), payload length and parity, encoding, identifier, code and message that the writers accept',
 'Tests compare a few literal examples for writer and parser separately; odd/even name lengths times encodings times empty payloads are only sampled.',
 ['message/writeMsg*.go','message/parse*.go','message/calcMsgLen.go','message/newAcceptConfMessage.go'],
 [('segment order and header padding in the writers','message/writeMsg*.go'),('offsets and padding in the parsers','message/parse*.go')])

p('C04','Message types are distinct, all parsed, and classified consistently',
 'All protocol message types have distinct type bytes and each of them is recognised by the parser with the payload encoding its name promises; any other type byte is rejected. Exactly the session closure, session restoration and the three request types require a reply. A connected client sending any other valid message type (or a heartbeat) neither gets a reply nor triggers a signal or request hook, unless it is one of the three signal types, which trigger the signal hook.',
 ['inputs'],'all 256 type bytes',
 'Tests exercise the types a well-behaved client sends; unexpected types and the classification of each type are not covered.',
 ['message/message.go','message/parse.go','handleMessage.go'],
 [('RequiresReply','message/message.go'),('dispatch switch','handleMessage.go')])

p('C05','Every request is answered exactly once, with its own identifier',
 'Every request, session restoration and session closure message received from a client is answered with exactly one reply carrying the identifier of that very message, whether the handler succeeds, returns any kind of error, returns a reply or error that cannot be encoded, or the message is refused because of a shutdown or a closing connection. A request only remains unanswered if the connection is broken. Signals and all other messages are never answered.',
 ['inputs','fault_sequences','schedules'],'every message, every outcome of the user hooks, every failure of the socket at any call, server shutting down or connection closing at any point',
 'Tests cover one success and one error reply; unencodable replies, refused messages, socket failures in the middle of error handling are not exercised.',
 ['handleMessage.go','handleRequest.go','handleSessionRestore.go','handleSessionClosure.go','registerHandler.go','failMsg.go','fulfillMsg.go'],
 [('fulfillMsg/failMsg/failMsgShutdown','failMsg.go, fulfillMsg.go')])

p('C06','Graceful shutdown waits for counted work and admits no new work',
 'A handler for a signal, request, session restoration or session closure only ever executes while it is counted as an ongoing operation, and it is only counted if no shutdown had been initiated before. Each counted operation is uncounted exactly once, after its handler returned and its reply was written. Shutdown closes the transport only after it observed, or was notified by the last operation, that no operation is ongoing; after the shutdown was initiated new signals are ignored and new requests are rejected with the shutdown reply.',
 ['schedules','histories'],'every interleaving of any number of connections, messages and calls to Shutdown, every handler outcome',
 'The graceful shutdown test runs one schedule with a handful of requests; counter imbalance on a rare path or a late notification only shows in specific interleavings.',
 ['registerHandler.go','deregisterHandler.go','server.go','handleMessage.go'],
 [('operation counter and shutdown flag under one lock','registerHandler.go, deregisterHandler.go, server.go')],
 [('currentOps','number of ongoing operations','server.go'),('shutdown','shutdown initiated','server.go'),('shutdownRdy','closed by the last operation','server.go')])

p('C07','Closing a connection is deferred until its work is done, then done once',
 'Closing a connection while handlers are running on it is deferred: its session registration is removed and its socket closed exactly once, by whoever finishes last, and only when no handler is running on it. Each handler registers on its connection exactly once before executing and deregisters exactly once afterwards. A connection that is closing accepts no new work; closing it again does nothing.',
 ['schedules','histories'],'every interleaving of Close calls, disconnects and handlers on one connection',
 'Tests close idle connections; the race between the last finishing handler and Close is only reachable by particular schedules.',
 ['connection.go','registerHandler.go','deregisterHandler.go'],
 [('task counter and active flag under the state lock','connection.go')],
 [('tasks','running handlers of the connection','connection.go'),('isActive','connection not closing','connection.go')])

p('C08','Concurrency limits are enforced and handler slots never leak',
 'With a concurrency limit of n>1 a handler of a connection only runs while holding one of exactly n slots, and every acquired slot is released exactly once on every path, including refusals. With a limit of 0 or 1 handlers of a connection never run concurrently; with a negative limit no slot is ever needed.',
 ['schedules','configurations','histories'],'every concurrency limit, every message history, every handler outcome',
 'A leaked slot only shows after n occurrences of a rare path as a connection that hangs; tests use the default limit.',
 ['registerHandler.go','deregisterHandler.go','handleMessage.go','connection.go'],
 [('weighted semaphore per connection','connection.go'),('goroutine dispatch by limit','handleMessage.go')])

p('C09','Pooled messages are released exactly once and never used afterwards',
 'Each message the server takes from the message pool is released exactly once on every path, whether it is handled, refused, ignored or failed to be read. Neither the message nor its identifier, name or payload is accessed by the server after the release, and it is not released before the user hook it was passed to has returned and its reply was written.',
 ['schedules','inputs','fault_sequences'],'every message type and handler outcome, sequential and concurrent handling',
 'A double release or late use corrupts an unrelated message only if the pool hands the buffer to another connection in that moment.',
 ['handleConnection.go','handleMessage.go','handleRequest.go','handleSignal.go','handleSessionRestore.go','handleSessionClosure.go'],
 [('release at the end of each handler','handle*.go')])

p('C10','Released messages are reset before reuse and guarded against late reads',
 'When a message is released all of its content (type, identifier, name, payload, configuration and used length) is cleared before the buffer becomes available for reuse; releasing it a second time has no effect. A message obtained from the pool returns to that same pool. Reading identifier, name, payload or encoding of a released message through the message interface panics rather than returning data.',
 ['histories'],'every sequence of reading, accessing and releasing a message',
 'Tests check single messages; leftovers of a previous message only show when a later message of another type leaves the field untouched.',
 ['message/message.go','message/syncPool.go','message/buffer.go'],
 [('Close','message/message.go'),('read after close guard','message/message.go')])

p('C11','Shared state is only accessed under its lock',
 'Every piece of mutable state shared between goroutines (connection state, its session, the session registry, the operation counter and shutdown flag, the connection lists, pending requests, socket channels, message pools) is consistently protected: each access outside of initialisation holds the same lock, exclusively in case of a modification, or is atomic.',
 ['schedules'],'every pair of concurrently executed operations',
 'Races need a particular interleaving of particular operations; the tests run few concurrent combinations, mostly without the race detector.',
 ['connection.go','server.go','sessionRegistry.go','requestManager/requestManager.go','transport/memchan/socket.go','transport/memchan/transport.go','transport/memchan/buffer.go'],
 [('mutexes next to the fields they protect','all packages')])

p('C12','Locks are balanced on every path and acquired in one order',
 'Every API call, hook invocation and connection handler returns with exactly the locks held it started with, on every path including errors and, where user code is called with a lock held, panics of that user code. No lock is acquired while the same goroutine already holds it, none is released without being held, and all nested acquisitions follow one acyclic order.',
 ['schedules','fault_sequences'],'every control path through every entry point, every error and user code panic',
 'A lock leaked on an error path or an order inversion only deadlocks later, under a second operation or particular interleaving.',
 ['connection.go','server.go','sessionRegistry.go','defaultSessionManager.go','requestManager/requestManager.go','transport/memchan/*.go'],
 [('lock/unlock pairing and nesting','all packages')])

p('C13','No user hook or blocking operation runs under a server-wide lock',
 'While a lock that is shared by all connections of a server (operation counter, connection list, session registry, transport connection list, pending requests) is held, no user hook is invoked, no socket is read, written or closed, no channel operation that may block and no semaphore acquisition is performed. One slow or misbehaving client or hook therefore never blocks unrelated clients, and hooks may call back into the server.',
 ['schedules','histories'],'every hook and socket operation reachable while a server-wide lock is held',
 'Test hooks return immediately and do not call back into the server, so a hook running under a lock goes unnoticed.',
 ['server.go','sessionRegistry.go','handleConnection.go','transport/memchan/transport.go','requestManager/requestManager.go'],
 [('locks released before hooks are called','sessionRegistry.go')])

p('C14','The session registry respects its limit and never loses or leaks entries',
 'A connection is added to a session only if, in the same atomic step, the session has no limit or its number of connections stays within the limit; otherwise registration fails leaving everything unchanged. Removing a connection removes exactly that connection, and the session entry disappears exactly when its last connection is removed; removing a connection that is not registered changes nothing. The session destruction hook runs exactly when an explicit closure removed the last connection, and the reported numbers and connections of a session are exactly those registered.',
 ['schedules','histories'],'every interleaving and history of registrations and deregistrations, every limit',
 'Tests register a few connections sequentially; check-then-act races and non-member removals are not exercised.',
 ['sessionRegistry.go'],
 [('register/deregister under the registry lock','sessionRegistry.go')],
 [('registry','session key to set of connections','sessionRegistry.go')])

p('C15','A connection is registered for exactly the session it has',
 'Whenever no operation is in progress on a connection it is registered in the session registry under the key of its session if it has one, and not registered at all if it has none. This holds after creating, closing and restoring sessions (including restoring over another session and failing at the connection limit), after failed creations, and after the connection is closed, which also prevents any later session creation on it.',
 ['histories','schedules','fault_sequences'],'every history of session creations, restorations, closures, disconnects, notification failures and limit violations, and their interleavings',
 'Tests follow single happy paths; stale registrations only show as sessions that are never destroyed.',
 ['connection.go','handleSessionRestore.go','handleSessionClosure.go','sessionRegistry.go'],
 [('session assignment and (de)registration under the session lock','connection.go, handleSessionRestore.go, handleSessionClosure.go')])

p('C16','Disabled sessions disable every session operation',
 'When sessions are disabled no session hook, session key generator or session info parser is ever invoked, no session is ever assigned or registered; restoration and closure requests are answered with the sessions-disabled reply and session creation and closure through the connection return the sessions-disabled error. When sessions are enabled none of these refusals occur.',
 ['inputs','configurations'],'every message and API call under both settings',
 'Tests check one creation and one restoration attempt.',
 ['connection.go','handleSessionRestore.go','handleSessionClosure.go','newServer.go'],
 [('sessionsEnabled gates','connection.go, handleSessionRestore.go, handleSessionClosure.go')])

p('C17','Disconnecting never destroys a session, closing its last one does',
 'Losing or closing a connection, or restoring another session on it, never invokes the session destruction hook. Closing a session explicitly (through the connection, the server or by client request) invokes the hook, with the key of that session, exactly if the closed connection was its last one, and afterwards the connection has no session.',
 ['histories','schedules'],'every way a connection or session can end',
 'Tests check the session manager calls of a few scenarios.',
 ['connection.go','sessionRegistry.go','handleSessionClosure.go','server.go'],
 [('destroy flag of deregister','sessionRegistry.go')])

p('C18','Internal errors and hook failures are never disclosed to clients',
 'Only error codes and messages of explicit request errors are transmitted to clients. Any other error returned by a request handler or a session hook, and any failure inside the server, reaches the client merely as an internal-error reply that carries nothing but the request identifier.',
 ['inputs','fault_sequences'],'every error type and value returned by user code or libraries, every path to a reply',
 'Tests check a single internal error.',
 ['handleRequest.go','failMsg.go','handleSessionRestore.go'],
 [('error type switch','handleRequest.go, failMsg.go')])

p('C19','Client-supplied session keys cannot escape the session directory',
 'The default session manager only ever reads, writes, renames or deletes files directly inside its session directory, whatever session key a client supplies. Different keys never map to the same file.',
 ['inputs'],'every session key (path separators, dot segments, absolute paths, empty)',
 'Tests use generated keys only.',
 ['defaultSessionManager.go'],[('escaping of the key in the file path','defaultSessionManager.go')])

p('C20','Session files are replaced atomically and closed sessions stay deleted',
 'A session file under its final name is at any time absent or completely written: it is only replaced by an atomic rename of a fully and successfully written, synced and closed temporary file in the same directory, and write errors are reported instead of replacing the old file. A lookup, including its update of the file, never overlaps with the deletion of the session, so that a lookup cannot bring back a session deleted in the meantime.',
 ['crash_points','schedules','fault_sequences'],'a crash or I/O error at any step, every interleaving of lookup and closure',
 'Tests neither crash nor inject I/O errors.',
 ['defaultSessionManager.go'],[('temporary file, sync and rename','defaultSessionManager.go'),('manager lock','defaultSessionManager.go')])

p('C21','Session keys are unguessable and empty keys are refused',
 'The default session key generator encodes at least 16 bytes, completely filled by the cryptographically secure random source, without dropping any of them, and never returns a key if the source fails. Every created session uses exactly one freshly generated key of the configured generator, and an empty key is never used.',
 ['inputs','fault_sequences'],'every generated key, failures of the random source',
 'Tests see keys but cannot judge their entropy.',
 ['session.go','connection.go'],[('generateSessionKey','session.go'),('NewSession','session.go')])

p('C22','Session data handed out never aliases internal session state',
 'Session objects obtained from a connection are copies: modifying them does not affect the session. Copies made by the default session info implementation, as well as the field values it returns, are deep: slices and maps, at any nesting depth, share no memory with the original, and every element is copied with its value.',
 ['inputs','histories'],'every session info value built from scalars, slices, maps and interfaces',
 'Tests use fixed values and depths.',
 ['session.go','connection.go','genericSessionInfo.go'],[('Clone','session.go'),('deepCopy','genericSessionInfo.go')])

p('C23','Pending requests are resolved exactly once with their own reply',
 'Each tracked request has a unique identifier, is resolved at most once with the very reply or error that was delivered for its identifier, and is no longer pending as soon as it is resolved, canceled or timed out. Delivering a reply never blocks, reports success exactly if it resolved a pending request, and a canceled or timed out request returns the corresponding error.',
 ['schedules','histories'],'every interleaving of creations, replies, failures and cancellations',
 'Tests run sequential scenarios.',
 ['requestManager/requestManager.go','requestManager/request.go','translateContextError.go'],
 [('lookup and removal in one critical section','requestManager/requestManager.go'),('buffered reply channel','requestManager/requestManager.go')])

p('C24','The in-memory transport establishes and refuses connections consistently',
 'Dialing succeeds only on a disconnected client socket of an active server that accepted the connection and is not shutting down; exactly then the connection handler is started once with the accepted options and the socket is connected. A refused or failed dial leaves the socket disconnected. Shutting the transport down closes every connection accepted before and admits none afterwards.',
 ['schedules','histories'],'every interleaving of dialing, closing and shutting down',
 'Tests dial sequentially.',
 ['transport/memchan/socket.go','transport/memchan/transport.go'],[('Dial','transport/memchan/socket.go'),('onConnect/Shutdown','transport/memchan/transport.go')])

p('C25','Closing an in-memory socket wakes everybody and never panics',
 'Closing an in-memory socket takes effect once, marks both ends disconnected and wakes every reader and writer blocked on either end. No data channel is ever closed while it may be written to, nothing is closed twice, and a message accepted by the receiving end is always confirmed to the sending end, so that neither side blocks forever.',
 ['schedules'],'every interleaving of closing, reading and writing on both ends',
 'The windows are a few instructions wide.',
 ['transport/memchan/socket.go','transport/memchan/buffer.go'],[('closed channel and synchronous handover','transport/memchan/socket.go')])

p('C26','Connection hooks run exactly once and in order',
 'A client first receives the server configuration; only after that was successfully sent is the connected hook invoked, once, and only after this hook returned are messages read. When the connection ends the disconnected hook is invoked exactly once with the reason, the connection is closed and forgotten by the server, and no message is read afterwards. If the configuration cannot be sent neither hook is invoked and the socket is closed.',
 ['fault_sequences','schedules'],'every failure of the socket at any call',
 'Tests cover normal connects and disconnects only.',
 ['handleConnection.go'],[('handleConnection','handleConnection.go')])

p('C27','Every read has a fresh deadline and advertised limits are the enforced ones',
 'Every read from a client socket is given a deadline computed from the current time and the configured read timeout, so that silent clients are disconnected. The read timeout, message buffer size and sub-protocol advertised to clients are exactly the (defaulted) options the server enforces, are encoded without overflow, and out-of-range options are rejected when the server is created.',
 ['configurations','histories'],'every server configuration, every number of messages on a connection',
 'Tests use one configuration.',
 ['handleConnection.go','newServer.go','serverOptions.go','message/newAcceptConfMessage.go'],[('deadline','handleConnection.go'),('configuration message','newServer.go'),('Prepare','serverOptions.go')])

p('C28','Writers are always closed exactly once and never send partial messages',
 'Every message writing function closes the given writer exactly once on every path and never writes after a failed write or after closing. It returns an error exactly if its input was invalid or any operation on the writer failed, and in case of invalid input it writes nothing. An overflowing or empty outbound buffer of the in-memory transport sends nothing, reports an error and leaves the socket usable.',
 ['inputs','fault_sequences'],'every input, every failing call of the writer',
 'Tests use writers that never fail.',
 ['message/writeMsg*.go','transport/memchan/buffer.go','transport/memchan/socket.go','handleConnection.go','connection.go'],[('error handling after each write','message/writeMsg*.go'),('Buffer','transport/memchan/buffer.go')])

p('C29','Errors of hooks and internal operations are logged or returned, not lost',
 'Whenever a session hook or request handler returns an unexpected error, a session hook panics during session destruction, or a reply or configuration cannot be written, the error is written to the error log or returned to the caller on every path. Abnormal socket failures are logged; normal closures are not.',
 ['fault_sequences'],'every failing call on every path',
 'Tests do not inspect the logs.',
 ['handleConnection.go','handleRequest.go','handleSessionRestore.go','connection.go','newServer.go','sessionRegistry.go','failMsg.go','fulfillMsg.go'],[('error log calls','handle*.go')])

p('C30','UTF16 payloads are converted to UTF8 as a whole',
 'Converting a UTF16 payload to UTF8 decodes the complete sequence of little-endian code units at once, so that surrogate pairs are preserved, and rejects payloads of odd length with an error. Payloads in other encodings are returned unmodified.',
 ['inputs'],'every payload',
 'Tests use characters of the basic plane only.',
 ['payload/payload.go'],[('Utf8','payload/payload.go')])

p('C31','The kind of reply tells the client why a request was refused',
 'A request handler returning a request error makes the client receive exactly its code and message; returning no error makes it receive the returned payload with the returned encoding. A restoration of an unknown session is answered with session-not-found, one exceeding the limit with max-connections-reached, with sessions disabled with sessions-disabled, during shutdown with shutdown, and with internal-error in all other failure cases; each of these replies is given for no other reason.',
 ['inputs','configurations'],'every message and hook outcome',
 'Tests cover single cases.',
 ['failMsg.go','fulfillMsg.go','handleRequest.go','handleSessionRestore.go','message/writeMsgSpecialRequestReply.go'],[('failMsg type switch','failMsg.go')])

p('C32','Closing a session through the server closes it on all its connections',
 'Closing a session through the server closes the session on every connection registered for it at that time, returns exactly these connections with the error of each at the same position, and reports a general error exactly if any of them failed. An unknown session closes nothing and returns nothing.',
 ['inputs','fault_sequences'],'every number of connections and every subset of them failing',
 'Tests use one connection and no failures.',
 ['server.go','sessionRegistry.go'],[('CloseSession','server.go'),('sessionConnections','sessionRegistry.go')])

p('C33','A restored session equals the stored one',
 'After a successful restoration the connection has a session with the requested key and the creation time, last lookup time and (parsed) info returned by the session manager, and the reply describes the same session. The default session manager persists key, creation time and info of a session unchanged through any number of lookups, returns the previous and stores the current time as last lookup, and deletes exactly the file of a closed session.',
 ['inputs','histories'],'every stored session, any number of lookups',
 'Tests check a single restoration through a test session manager.',
 ['handleSessionRestore.go','defaultSessionManager.go'],[('session assignment','handleSessionRestore.go'),('session file handling','defaultSessionManager.go')])

p('C34','Client behaviour and socket failures never panic the server',
 'No message, message sequence, socket failure, hook result or concurrent disconnect makes code of the server itself panic: no reachable explicit panic, no dereference of a reference that may be absent there, no failed type assertion, no invalid semaphore or lock release.',
 ['inputs','fault_sequences','schedules'],'every path through the connection handler and the connection and server API',
 'Tests do not combine failures with error handling paths.',
 ['handle*.go','connection.go','failMsg.go','fulfillMsg.go','sessionRegistry.go','server.go'],[('nil checks and error returns','all files')])

p('C35','Requests and signals of one client take effect in some sequential order',
 'The observable history of concurrent session operations on several connections of one session is linearizable with respect to a sequential session registry.',
 ['histories','schedules'],'every concurrent history',
 'Needs enumeration of histories.',
 ['sessionRegistry.go','connection.go'],[('locks','sessionRegistry.go')])

p('C36','Blocked operations of the in-memory transport finish in bounded time',
 'A read with a deadline returns no later than shortly after its deadline, and a flush completes as soon as the peer reads, for every scheduling of the participating goroutines.',
 ['schedules'],'every schedule and clock behaviour',
 'Timing of all schedules.',
 ['transport/memchan/socket.go'],[('read timer','transport/memchan/socket.go')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))

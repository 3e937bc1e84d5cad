NOTE = ("Every value of the symbolic inputs (and, for concurrent harnesses, every schedule up to partial-order equivalence) within the "
        "bounds stated in the harness comments and repeated in the evidence file is decided by the solver; outside the bounds nothing is claimed. "
        "Trusts the engine's model of Go and of the standard library (sequential consistency, stubs listed in DESIGN.md), spot-checked on every run "
        "by replaying solver assignments through the compiled code.")

NOTAPP = {}

PROPS = []
def P(id, title, statement, over, text, why, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, mech=mech, **kw))

P('C01', 'Any received byte sequence is parsed without a crash',
  'Handing any byte sequence of any length to a message for parsing terminates without a panic or an out-of-range access and reports either a parsed message or an error. '
  'A sequence that does not fit the message buffer is refused, and decoding the payload of any accepted message as UTF-8 terminates without a panic.',
  'inputs', 'every byte sequence (bounded length), every buffer size relation',
  'The tests feed a few dozen hand-made corrupt messages per type; a length flag inconsistent in an untested way crashes the server remotely.',
  'type switch and per-type length checks@message/parse.go:parse;buffer bound@message/read.go:ReadBytes;UTF16 decoding@payload/payload.go:Utf8',
  observe=['message.Message.ReadBytes', 'message.Message.PayloadUtf8'])

P('C02', 'The parser accepts exactly the documented layouts and reports their fields',
  'A byte sequence is accepted exactly when it has the documented binary layout of one of the protocol\'s message types, and then the reported type, identifier, name, payload, '
  'payload encoding, handshake settings and reply requirement are exactly the ones the layout assigns to its bytes. Anything else is reported as an error.',
  'inputs', 'every byte sequence (bounded length) of every message type, names of 0 to 255 bytes',
  'The tests round-trip random names and payloads of a few lengths; off-by-one errors at padding, empty payload, name length 255 or unaligned boundaries are not sampled.',
  'per-type field extraction@message/parseRequest.go:parseRequest;UTF16 alignment and padding@message/parseRequestUtf16.go:parseRequestUtf16;signals@message/parseSignal.go:parseSignal;'
  'signals UTF16@message/parseSignalUtf16.go:parseSignalUtf16;replies@message/parseReply.go:parseReply;error replies@message/parseErrorReply.go:parseErrorReply;handshake@message/parseAcceptConf.go:parseAcceptConf',
  observe=['message.Message accessors'])

P('C03', 'Everything the writers emit parses back to the same message',
  'For every message kind, when composing a message from an identifier, name, payload and encoding (or error code and text, session JSON, or handshake settings) succeeds, parsing the emitted bytes succeeds and yields '
  'exactly the same kind, identifier, name, payload and encoding.',
  'inputs', 'every identifier, printable name, payload and encoding of bounded length, for every writer; every handshake configuration',
  'Round trips are tested for sampled lengths; empty payloads, odd names and 255-byte names with UTF16 payloads are combinations no test enumerates.',
  'request layout@message/writeMsgRequest.go:WriteMsgRequest;signal layout@message/writeMsgSignal.go:WriteMsgSignal;reply layout@message/writeMsgReply.go:WriteMsgReply;'
  'error reply layout@message/writeMsgErrorReply.go:WriteMsgReplyError;handshake layout@message/newAcceptConfMessage.go:NewAcceptConfMessage;session notifications@message/writeMsgSessionCreated.go:WriteMsgNotifySessionCreated;'
  'special replies@message/writeMsgSpecialRequestReply.go:WriteMsgSpecialRequestReply',
  observe=['the bytes passed to the writer', 'message.Message accessors'])

P('C04', 'Unencodable messages are refused whole and every writer is closed once',
  'Composing a message that the protocol cannot represent (name or error code too long, empty code, unprintable character, odd UTF-16 payload, name and payload both missing, unknown reply kind) returns an error and emits no byte. '
  'Whatever happens, including write and close failures at any point, the writer is closed exactly once, nothing is written after a failed write, and the failure is reported to the caller.',
  'inputs fault_sequences', 'every name, payload and encoding of bounded length; every position of a write or close failure',
  'The tests check a handful of invalid inputs against a buffer that never fails; they never inject a write or close fault in the middle of a message.',
  'validation before writing@message/writeMsgRequest.go:WriteMsgRequest;signal validation@message/writeMsgSignal.go:WriteMsgSignal;UTF16 checks@message/writeMsgReply.go:WriteMsgReply;'
  'code checks@message/writeMsgErrorReply.go:WriteMsgReplyError;nameless requests@message/writeMsgNamelessRequest.go:WriteMsgNamelessRequest',
  observe=['calls on the io.WriteCloser', 'returned error'])

P('C05', 'The precomputed message length equals the bytes actually written',
  'For every encoding, name and payload, the length announced beforehand for a signal or a request is exactly the number of bytes that writing that signal or request emits. '
  'A message announced to fit a buffer therefore always fits it.',
  'inputs', 'every name, payload (bounded length) and encoding',
  'Two fixed lengths are compared in the tests; the alignment padding depends on parity of name length and encoding.',
  'length calculation@message/calcMsgLen.go:CalcMsgLenSignal;writers@message/writeMsgSignal.go:WriteMsgSignal;request writer@message/writeMsgRequest.go:WriteMsgRequest',
  observe=['message.CalcMsgLenSignal', 'message.CalcMsgLenRequest'])

P('C06', 'Streamed reading equals parsing the same bytes at once, however it is chunked',
  'Reading a message from a stream that delivers it in any sequence of chunks, ends it with or after the last chunk, or fails at any point gives exactly the result of parsing the delivered bytes at once when the stream ends cleanly within the buffer, '
  'and otherwise an error. A message longer than the buffer is always reported as too long and never truncated, overwritten or mis-parsed.',
  'inputs fault_sequences', 'every message content, buffer size, chunking and fault position within the bounds',
  'Tests read from in-memory buffers that deliver everything in one call; chunk boundaries at the buffer limit are never exercised.',
  'stream loop and overflow detection@message/buffer.go:Read;message read@message/read.go:Read',
  observe=['message.Message.Read'])

P('C07', 'Reusing a message never exposes data of an earlier message',
  'After a message object has been closed and reused, or simply read into again, every accessor reports only what the latest message carries, whatever was read before. '
  'A pool never hands the same message object to two holders, every object it hands out is empty, and closing a message more than once has no effect.',
  'inputs histories', 'every pair or triple of consecutive messages of bounded length, every open/close history of bounded length',
  'Tests read one message into a fresh object; residue shows only for particular pairs of messages.',
  'reset on close@message/message.go:Close;pool@message/syncPool.go:Get;re-read@message/read.go:Read',
  observe=['message.Message accessors'])

P('C08', 'Payload decoding to UTF-8 is exact',
  'Decoding a payload as UTF-8 returns a binary or UTF-8 payload unchanged and for a UTF-16 payload returns exactly the UTF-8 encoding of the text it holds, in little-endian units, including characters outside the basic plane. '
  'A UTF-16 payload of odd length is reported as an error.',
  'inputs', 'every payload of bounded length and every encoding',
  'The tests convert a few ASCII strings; surrogate pairs and unpaired surrogates are not covered.',
  'conversion@payload/payload.go:Utf8',
  observe=['payload.Payload.Utf8', 'message.Message.PayloadUtf8'])

P('C09', 'The handshake comes first, is correct, and leaves nothing behind if it fails',
  'On every accepted connection the first bytes the server sends are the handshake that carries its protocol version, read timeout, message buffer size and sub-protocol name, before any hook of the implementation runs. '
  'When the handshake cannot be sent, the socket is closed, no hook runs, nothing is read from the client and the server accounts for no connection.',
  'configurations fault_sequences', 'every read timeout, buffer size and sub-protocol name within the bounds; a failure at each step of sending',
  'One configuration is tested with a transport that never fails.',
  'handshake writing@handleConnection.go:writeConfMessage;connection entry@handleConnection.go:handleConnection;handshake composition@newServer.go:NewServer',
  observe=['socket calls', 'ServerImplementation hooks'])

P('C10', 'Every request gets exactly one reply, carrying its identifier',
  'For every request the server accepts it sends exactly one reply, which carries the identifier of that request and the result of the handler: the returned payload, the request error\'s code and message, or a bare internal-error notice for any other error or a result that cannot be sent. '
  'Concurrent requests never receive each other\'s replies, and the text of an unexpected error never reaches the client.',
  'inputs schedules fault_sequences', 'every identifier, name, payload and handler outcome within the bounds; every interleaving of two concurrent requests',
  'Tests run single requests with one identifier at a time over a reliable transport; no test explores the interleavings of concurrent handlers writing to one socket.',
  'request handling@handleRequest.go:handleRequest;success reply@fulfillMsg.go:fulfillMsg;failure reply@failMsg.go:failMsg',
  observe=['bytes written to the socket', 'OnRequest'])

P('C11', 'Each incoming message reaches exactly its handler, once, with intact content',
  'Every well-formed signal or request reaches the matching hook exactly once with its connection and with exactly the name, payload and encoding sent, and messages of every other type or malformed ones reach no hook. '
  'Heartbeats and messages a client has no business sending neither produce a reply nor disturb the connection. A malformed message ends at most the connection it arrived on: everybody else is served as before.',
  'inputs histories', 'every byte sequence of bounded length as one message, and sequences of messages on one connection',
  'Tests send well-formed messages through the reference client; arbitrary bytes in the connected state are not exercised.',
  'dispatch@handleMessage.go:handleMessage;read loop@handleConnection.go:handleConnection;signals@handleSignal.go:handleSignal',
  observe=['OnSignal', 'OnRequest', 'bytes written'])

P('C12', 'Connection hooks run once each, in order, around all other activity',
  'For every accepted connection the connected hook runs exactly once before any message of that connection is handled, and the disconnected hook runs exactly once after it has ended, with the reason it ended. '
  'However the connection ends (peer closes, read fails, the server closes it, it is refused), the socket is closed, the connection reports itself inactive, and a session it held no longer lists it.',
  'schedules histories fault_sequences', 'every way and moment of ending a connection, every concurrency limit, every message content of bounded length and every position of a failing socket operation',
  'Tests end connections politely; a close racing with a message in flight is scheduled one way only.',
  'connection loop@handleConnection.go:handleConnection;close and unlink@connection.go:Close',
  observe=['OnClientConnected', 'OnClientDisconnected', 'Connection.IsActive', 'Server.SessionConnectionsNum'])

P('C13', 'Concurrent handlers stay within the connection\'s limit and no slot leaks',
  'At no time do more handlers of one connection run concurrently than the concurrency limit set for it (0 and 1 mean one at a time, negative means no limit), and without a limit a message is not delayed by another one\'s handler. '
  'Whatever way handlings end, the slot they held becomes available again, so a connection never stops serving.',
  'schedules histories configurations', 'every concurrency limit (the whole type), every interleaving of up to 3 messages of every kind and content, rejected, failing and panicking paths, a failure at every socket operation',
  'One test runs one limit with timing; leaks on refused messages need particular histories.',
  'slots@registerHandler.go:registerHandler;release@deregisterHandler.go:deregisterHandler;limit@connection.go:newConnection',
  observe=['OnSignal', 'OnRequest'])

P('C14', 'Shutdown is graceful: it waits for handlers, refuses new work, and completes',
  'A shutdown returns only after every handler that was running has finished and its reply has been sent; work that arrives meanwhile is not handled: requests are answered with a shutdown notice and signals dropped, and new connections are refused. '
  'Shutdown always completes once the running handlers have finished, whatever arrived meanwhile, and never crashes.',
  'schedules histories', 'every interleaving of shutdown with up to 2 running handlers and 2 arriving messages, every concurrency limit, identifier and payload',
  'The tests arrange a few timings with sleeps; counter races show only in particular interleavings.',
  'accounting@registerHandler.go:registerHandler;release@deregisterHandler.go:deregisterHandler;shutdown@server.go:Shutdown;refusal@failMsg.go:failMsgShutdown',
  observe=['Server.Shutdown', 'replies', 'hooks'])

P('C15', 'Closing a connection waits for its handlers and takes effect exactly once',
  'Closing a connection from the server lets handlers that are running finish and send their replies first, handles no message afterwards (requests that still arrive are refused with a shutdown notice), and then closes the socket exactly once, immediately when nothing is running. '
  'Closing again, or from within a handler, is harmless and never deadlocks.',
  'schedules histories', 'every interleaving of close calls with up to 3 handlers, every concurrency limit, identifier and payload',
  'The deferral depends on a counter raced by readers and closers; tests close at one chosen moment.',
  'deferral@connection.go:Close;task accounting@connection.go:deregisterTask;admission@registerHandler.go:registerHandler',
  observe=['socket Close', 'Connection.IsActive', 'replies'])

P('C16', 'The session registry always equals the set of live session connections',
  'At every quiescent moment the sessions reported active, and the connections and connection counts reported for each, are exactly the open connections that currently hold that session. '
  'Removing a connection never removes another one\'s entry, and no entry outlives its connection.',
  'histories schedules', 'every bounded history of session creation, restoration, closure and disconnection over up to 3 connections with arbitrary keys, maxima and limits; races of two operations',
  'Tests follow a few fixed histories.',
  'registry@sessionRegistry.go:register;removal@sessionRegistry.go:deregister;unlink@connection.go:unlink',
  observe=['Server.ActiveSessionsNum', 'Server.SessionConnectionsNum', 'Server.SessionConnections'])

P('C17', 'A session never has more concurrent connections than the configured maximum',
  'At no moment does a session have more connections than the configured maximum, even when clients race to restore it. '
  'A client that would exceed it is told so, gains no session, and everything else carries on unharmed.',
  'schedules configurations histories', 'every maximum (the whole type), every interleaving of up to 3 simultaneous restorations, histories',
  'The limit test is sequential; the check-then-act window needs two simultaneous restorations.',
  'limit check@sessionRegistry.go:register;restoration@handleSessionRestore.go:handleSessionRestore',
  observe=['Server.SessionConnectionsNum', 'replies'])

P('C18', 'A session ends exactly once, when its last holder closes it',
  'The session-closed hook runs exactly once for a session, with its key, when the last connection that holds it explicitly closes it, and not when a connection merely disconnects or while others still hold the session. '
  'A failing or panicking hook neither crashes the server nor leaves the session in place.',
  'histories schedules fault_sequences', 'every bounded history and race of explicit closures and disconnections over up to 3 connections with arbitrary keys; hook outcomes ok, error, panic',
  'The tests cover one and two connections in one order with a well-behaved manager.',
  'destruction@sessionRegistry.go:deregister;client request@handleSessionClosure.go:handleSessionClosure;server call@connection.go:CloseSession',
  observe=['SessionManager.OnSessionClosed'])

P('C19', 'Creating a session is all or nothing',
  'When session creation succeeds, the manager has been told (its failure is logged and changes nothing), the client has been notified with exactly the key, creation time and info, and the connection and the registry report the new session. '
  'When it fails (sessions disabled, a session already present, connection ended, registration or notification failure) the connection has no session, the registry lists none, and an error is returned.',
  'inputs fault_sequences histories schedules', 'every failure point, with symbolic info; creation racing with disconnection',
  'Tests cover the success path and two failures without injecting write faults.',
  'creation@connection.go:CreateSession;notification@connection.go:notifySessionCreated;registration@sessionRegistry.go:register',
  observe=['Connection.CreateSession', 'bytes written', 'SessionManager.OnSessionCreated'])

P('C20', 'Restoring a session gives exactly the stored session or a precise refusal',
  'A restoration request is answered exactly once: with the stored key, creation time and info when the session exists, and otherwise with the refusal that matches the reason (sessions disabled, not found, limit reached, internal error), in which case nothing changes. '
  'After a successful restoration the connection reports exactly that session and is listed under its key only.',
  'inputs fault_sequences histories', 'every key of bounded length, every lookup outcome, previous session or none',
  'The tests restore once per outcome on fresh connections.',
  'restoration@handleSessionRestore.go:handleSessionRestore;registration@sessionRegistry.go:register',
  observe=['replies', 'Connection.Session', 'SessionManager.OnSessionLookup'])

P('C21', 'The default session store returns what was saved and touches only its directory',
  'With the default session manager a saved session is found again under its key with the same creation time and info and an updated lookup time until it is closed, and never afterwards, also when operations overlap. '
  'No key supplied by a client makes the server read, write or delete a file outside the session directory, and a failure to write is reported and never loses a session that was saved.',
  'inputs histories schedules fault_sequences', 'every key of bounded length, every bounded history, a write failure at each operation, two overlapping operations',
  'Tests use well-formed generated keys and a healthy disk.',
  'path construction@defaultSessionManager.go:filePath;creation@defaultSessionManager.go:OnSessionCreated;lookup@defaultSessionManager.go:OnSessionLookup;removal@defaultSessionManager.go:OnSessionClosed',
  observe=['file system operations', 'lookup results'])

P('C22', 'Generated session keys carry all the randomness they are drawn from',
  'A generated session key is a printable URL-safe string of fixed length from which every random byte drawn can be recovered, so that different random draws give different keys. '
  'A new session uses exactly the key its generator returned and refuses an empty one.',
  'inputs', 'every value of the random bytes',
  'A test checks a few keys for collisions; injectivity concerns all 2^256 draws.',
  'random bytes@session.go:generateRandomBytes;encoding@session.go:generateSessionKey;construction@session.go:NewSession',
  observe=['DefaultSessionKeyGenerator.Generate'])

P('C23', 'Session data handed out is isolated from the server\'s own',
  'What a caller does with a session, its info or the connection lists it got never changes what the server or any other caller sees. '
  'Copies are complete: every field, with lists and maps nested at any depth, is equal to the original.',
  'inputs histories', 'info structures of bounded depth and size with symbolic contents and every mutation of a returned copy',
  'One fixed structure is tested.',
  'deep copy@genericSessionInfo.go:deepCopy;clone@session.go:Clone;getters@connection.go:Session;variable map@sessionInfoToVarMap.go:SessionInfoToVarMap',
  observe=['Connection.Session', 'Connection.SessionInfo', 'GenericSessionInfo.Copy'])

P('C24', 'Each pending request is resolved exactly once, with its own reply',
  'Pending requests always have distinct identifiers; a reply or failure resolves exactly the request whose identifier it carries, at most once, and anything else is refused without effect. '
  'A waiter always gets its own reply, failure, timeout or cancellation, after which the request is no longer pending, and resolving it never blocks.',
  'schedules histories inputs', 'every identifier in the reply, every interleaving of create, fulfil, fail, wait and cancel over up to 3 requests',
  'Tests resolve requests one after another.',
  'creation@requestManager/requestManager.go:Create;fulfilment@requestManager/requestManager.go:Fulfill;failure@requestManager/requestManager.go:Fail;waiting@requestManager/request.go:AwaitReply;context errors@translateContextError.go:TranslateContextError',
  observe=['Request.AwaitReply', 'RequestManager.PendingRequests'])

P('C25', 'The in-memory transport delivers each message once, intact and in order',
  'On an in-memory connection every message written by one side is read by the other exactly once, byte for byte and in writing order, never mixed with a concurrent writer\'s message. '
  'Closing either side at any time, at any point of a write or read, unblocks everybody, makes later reads and writes fail with a closed error, and never deadlocks, crashes or wedges the writer.',
  'inputs schedules fault_sequences', 'every content of bounded length, every interleaving of up to 3 of writers, readers and closers; empty messages, messages exceeding the buffer',
  'The tests move a few messages in one order; close races show in few schedules.',
  'buffer@transport/memchan/buffer.go:Write;flush@transport/memchan/socket.go:onBufferFlush;read@transport/memchan/socket.go:Read;close@transport/memchan/socket.go:Close',
  observe=['Socket.Read', 'Socket.GetWriter', 'Socket.Close'])

P('C26', 'In-memory connecting and shutdown leave consistent sockets',
  'Connecting succeeds only against a serving transport, and then both ends are connected to each other; a refused attempt leaves the client disconnected and the server without a connection. '
  'Shutting the transport down closes every connection, refuses new ones, makes serving return and never deadlocks or crashes, whatever connects or disconnects meanwhile.',
  'schedules histories', 'every interleaving of up to 3 of dial, close, shutdown; every sequence of 3 dials with arbitrary answers of the server',
  'The tests shut down idle transports.',
  'dialling@transport/memchan/socket.go:Dial;accept@transport/memchan/transport.go:onConnect;shutdown@transport/memchan/transport.go:Shutdown',
  observe=['Socket.Dial', 'Socket.IsConnected', 'Transport.Shutdown'])

P('C27', 'Server options are validated and completed without surprises',
  'Preparing server options keeps every valid explicit setting and fills every unset one with its default: sessions enabled, the default key generator, info parser and loggers, a message buffer of 8192 bytes, and a read timeout of 60 seconds, which also replaces one below a second. '
  'A message buffer below 32 bytes, a read timeout that does not fit the handshake (2^32 ms or more), a missing implementation or transport and a transport that fails to initialise are refused with an error and no server is created. '
  'Everything else is accepted, and exactly those settings are passed to the transport and announced to clients.',
  'configurations inputs', 'every value of every numeric option, names of bounded length',
  'Tests set one option at a time.',
  'preparation@serverOptions.go:Prepare;creation@newServer.go:NewServer',
  observe=['ServerOptions', 'the handshake'])

P('C28', 'Connections can be used from many goroutines without data races',
  'All methods of a connection and of the server may be called concurrently with each other, with handlers and with the connection ending, and no two of them access memory in conflict without synchronisation. '
  'No call observes a half-made state: a session is either entirely there or not at all.',
  'schedules', 'every pair and chosen triples of the methods, every interleaving within the bounds, every concurrency limit, key and identifier',
  'The race detector sees only the executions that happen to run.',
  'session lock@connection.go:setSession;state lock@connection.go:IsActive;registry lock@sessionRegistry.go:register',
  observe=['Connection methods', 'Server methods'])

P('C29', 'Closing a session from the server side reaches every one of its connections',
  'Closing a session by key closes it on exactly the connections that hold it, notifies each of them, destroys it exactly once and returns exactly those connections with their individual outcomes; for an unknown key it reports nothing to close. '
  'Failures to notify one connection do not keep the others from being closed.',
  'histories schedules fault_sequences inputs', 'up to 3 connections over 2 keys, notification failure at each of them, races with everything that changes a session',
  'One test closes one session with healthy connections.',
  'administrative closure@server.go:CloseSession;per connection@connection.go:CloseSession',
  observe=['Server.CloseSession', 'bytes written', 'SessionManager.OnSessionClosed'])

P('C30', 'Signals sent by the server arrive exactly as given or are refused whole',
  'A signal sent on a connection reaches exactly that connection\'s client, once, as one message with exactly the given name, payload and encoding, whatever else is sent at the same time. '
  'A signal that the protocol cannot represent, that exceeds the message buffer size, or that is sent on an ended connection is refused with an error and nothing of it is sent; one that just fits is sent. '
  'A failure while sending is reported and does not keep later signals from being sent.',
  'inputs fault_sequences schedules', 'every name, payload and encoding of bounded length, sizes around the buffer size, every position of a failure, signals and replies sent at the same time',
  'The tests send one signal per encoding and one that is far too long; sizes at the boundary, failures and concurrent sending are not tried.',
  'server-side signals@connection.go:Signal;composition@message/writeMsgSignal.go:WriteMsgSignal;length@message/calcMsgLen.go:CalcMsgLenSignal',
  observe=['bytes written to the socket', 'error returned by Connection.Signal'])

P('C31', 'A silent client is disconnected after the read timeout, a live one never',
  'Whenever the server waits for a message of a client it does so for exactly the configured read timeout from then, whatever was received or handled before. '
  'A client that sends anything valid in time, a heartbeat included, stays connected and gets a full new period; one that stays silent for the whole period is disconnected.',
  'inputs schedules', 'every read timeout, messages of every kind and in various rhythms, quick and slow handlers',
  'No test waits for a read timeout to expire or checks that traffic renews it.',
  'deadline of each read@handleConnection.go:handleConnection;expiry@transport/memchan/socket.go:readWithDeadline;heartbeats@handleMessage.go:handleMessage',
  observe=['deadline passed to Socket.Read', 'OnClientDisconnected'])

P('C32', 'A connection reports what its transport said about it',
  'The connected hook receives exactly the connection options its transport determined, and the connection reports exactly the information given there under each key and nothing under any other, the remote address of its socket, '
  'and a creation time between its acceptance and the connected hook. None of this changes during or after the life of the connection or is affected by other connections.',
  'inputs histories', 'every key and value, with or without information and address, before and after each way to end a connection',
  'One test looks up two constant keys of one open connection.',
  'construction@connection.go:newConnection;information@connection.go:Info;address@connection.go:RemoteAddr;options@handleConnection.go:handleConnection',
  observe=['Connection.Info', 'Connection.RemoteAddr', 'Connection.Creation', 'OnClientConnected'])

P('C33', 'What has ended is let go: nothing piles up in a running server',
  'When a connection, a session, a request or a message handling has ended, however it ended, the server, the in-memory transport and the request manager keep no entry or object of it and no goroutine serving it remains. '
  'Repeating any history of connections, sessions and requests therefore does not make a running server grow.',
  'histories schedules fault_sequences', 'every bounded history of gaining and losing connections, sessions and requests, repeated three times; every interleaving of 2 (thorough 3) endings; a failure at every socket operation',
  'Tests run briefly and look at results, not at what stays behind.',
  'connection loop@handleConnection.go:handleConnection;registry entries@sessionRegistry.go:deregister;in-memory connections@transport/memchan/transport.go:onDisconnect;pending requests@requestManager/requestManager.go:deregister',
  observe=['memory reachable from the server', 'goroutines'])


P('C34', 'Hooks may use the server and its connections',
  'Every hook of the application (connected, disconnected, signal, request, session created, looked up, closed, info parser) may call any method of its connection, of another connection or of the server - signals, creating and closing sessions, closing connections, getters - and returns: nothing waits for itself. '
  'What it sees is coherent (a session that exists is listed, a closed connection is inactive), and the server goes on serving everyone.',
  'histories schedules', 'any 2 (thorough 3) of 8 hooks calling any of 7 kinds of methods throughout the life of a connection with any limit; every interleaving of such a hook with 4 other events on its connection',
  'The tests\' hooks call one method in a few places; which locks are held during which hook is not visible to them.',
  'session creation@connection.go:CreateSession;closure hook@sessionRegistry.go:deregister;detaching@connection.go:detachSession;restoration@handleSessionRestore.go:handleSessionRestore',
  observe=['return of the hooks', 'Connection and Server getters', 'bytes written to the socket'])

P('C35', 'Requests, signals and sessions work end to end over the in-memory transport',
  'Over the in-memory transport a client gets exactly its own reply or error to each of its requests, each signal arrives once and intact in its direction, session notifications and restorations tell the client what the server has, '
  'and a request whose connection or server ends meanwhile is replied to, refused, or lost with a closed connection - never left waiting on an open one. Everything ends with the shutdown.',
  'histories schedules inputs', 'two requests at once on one connection (any content and limit, schedules with up to 2, thorough 3, deviations) or on two (every interleaving); histories of 3 (thorough 4) of 9 operations on two clients; three ways to end during a request',
  'The tests run each feature once, over a real clock, with whatever interleaving happens.',
  'server side@handleMessage.go:handleMessage;transport@transport/memchan/socket.go:onBufferFlush;reading@transport/memchan/socket.go:Read;matching@requestManager/requestManager.go:Fulfill',
  observe=['outcome of the client\'s requests', 'messages received at both ends', 'Server.Run'])

P('C36', 'Connections do not affect one another',
  'What a client gets from the server, which hooks run for it, what the getters say of it and how its socket is used is the same whatever other clients do or suffer: arbitrary bytes, handlers that fail or never return, failing sockets, hang-ups, closures, refused handshakes, other sessions and their closures.',
  'inputs histories schedules fault_sequences', 'two runs compared: any 2 steps of a client alone and with any 2 of 12 disturbances by another client (any content, identifiers and limit); every interleaving of a step and a disturbance',
  'No test has a misbehaving client next to another one.',
  'per-connection state@connection.go:newConnection;shared buffers@message/syncPool.go:Get;shared registry@sessionRegistry.go:register;shared counters@registerHandler.go:registerHandler',
  observe=['bytes written to the client\'s socket', 'hooks', 'getters'])

P('C37', 'The server runs as long as its transport serves and reports what it reports',
  'Run returns exactly when and what the transport\'s Serve returns; Address is the transport\'s at any time; a server that can\'t be created leaves the transport untouched and a transport that can\'t be initialised yields no server but its reason. '
  'Connections are refused from the call of Shutdown on and never before; Shutdown shuts the transport down once the handlers returned, reports its failure and can then be repeated. Over the in-memory transport Run serves until the shutdown and fails afterwards.',
  'inputs schedules fault_sequences', 'every error and address the transport may return; Run and Shutdown up to twice each in every interleaving; a shutdown during a request with any limit',
  'The tests start and stop healthy servers; failures of the transport and overlapping Run and Shutdown are not tried.',
  'serving@server.go:Run;address@server.go:Address;shutdown@server.go:Shutdown;creation@newServer.go:NewServer;in-memory@transport/memchan/transport.go:Serve',
  observe=['Server.Run', 'Server.Shutdown', 'Server.Address', 'NewServer', 'IsShuttingDown'])

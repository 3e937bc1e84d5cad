"""How each property is decided: included in DESIGN.md by gen.py."""
METHOD = {
'C01': 'The bytes and the length are symbolic; `ReadBytes` and the payload decoding are executed on them. Every index and slice expression is an implicit assertion of the engine (out of range = panic = violation). ~5 s. A length byte that is inconsistent with the rest is one path among all, not a sample.',
'C02': 'Differential: the parser against `ref.Decode`, a 100-line decoder written from the protocol documentation (docs/), on the same symbolic bytes. Acceptance, type, identifier, name, payload, encoding, handshake fields and reply requirement must agree. The reference is straight-line over symbolic bytes, so the solver compares both for all values of a length at once. ~5 s.',
'C03': 'Symbolic fields go through the writer into a recording `io.WriteCloser` and the recorded bytes through the parser; the fields must come back. The read timeout is all 64 bits (solver: division by constants). ~12 s.',
'C04': 'The writer stub fails at a symbolic position (n-th write, close). Refused messages must leave it without a byte; Close exactly once, nothing after a failure, error returned. What is refused is defined by the harness (protocol limits), not by the writers. ~8 s.',
'C05': 'Announced length and number of bytes recorded, both terms over the same symbolic lengths; equal for all. ~7 s.',
'C06': 'The stream stub delivers symbolic bytes in chunks of symbolic sizes and ends in every way; the outcome is compared with `ReadBytes` of the same bytes into a second message. ~4 s.',
'C07': 'Two symbolic messages one after another through one object compared with a fresh object; the pool by bounded histories over three holders. ~13 s.',
'C08': 'Differential against a UTF-16LE to UTF-8 reference (surrogate pairs, lone surrogates to U+FFFD) on symbolic code units. ~60 s (the widest arithmetic of all checks).',
'C09': 'A real server with a stub transport and socket; the options are symbolic, the emitted handshake is decoded by the reference. Failures are injected at each operation of sending. ~2 s.',
'C10': 'A real server; the identifier, the payload and the error are symbolic, the kind of outcome a choice. Replies decoded by the reference. Concurrency: every interleaving of two handlers. The encoding of an empty payload of encoding Binary and the text of internal errors are as the tests fix them. ~60 s.',
'C11': 'Symbolic bytes are received by a live connection; which hook they belong to is decided by `ref.Decode`. Sequences and overlapping handlers check that content stays intact until the handler returns (pooled buffers). ~30 s.',
'C12': 'Connection options (any concurrency limit, any info), messages and the position of an injected fault are symbolic; every ending of a connection crossed with what it was doing, as a choice; hooks append to a log whose order is asserted; quiescent state checked (socket closed, registry empty, inactive). ~30 s.',
'C13': 'The concurrency limit is any int (negative, 0, 1, more): paths split on how it compares with the number of messages, by the solver. Handlers block on channels the harness controls; the number of handlers inside is a counter with an assertion, liveness ("a message with room is handled") is asserted at quiescence, where nobody can move without the harness. ~30 s.',
'C14': 'Shutdown runs as a goroutine against blocked handlers and arriving messages, the limits of the connections and the identifiers and payloads symbolic; at quiescence it must not have returned before they finish, and must have returned afterwards; a deadlock is reported by the scheduler. ~75 s.',
'C15': 'As C14 for `Connection.Close`: calls, handlers and arrivals in every order, on connections with any limit; close counts on the socket. ~40 s.',
'C16': 'Bounded histories of session operations on up to 3 connections, with symbolic keys (equal or not: the solver splits), any maximum and any limit, against a set model; pairs of concurrent operations: after every schedule the registry must equal the sessions the connections report. ~90 s.',
'C17': 'Concurrent restorations and creations against a symbolic maximum (all 64 bits); the number of holders is asserted inside the lookup hook and at the end. ~20 s.',
'C18': 'Histories with symbolic keys against a model that counts holders; the closure hook logs its keys; hook outcome (nil, error, panic) is a choice. ~40 s.',
'C19': 'Info with symbolic contents; the notification is decoded as JSON by the harness; each failure is injected in turn; creation races with everything that ends or replaces a session. ~15 s.',
'C20': 'Key, creation time and info of the stored session symbolic; the reply is decoded by the reference; each refusal injected, then retried. ~5 s.',
'C21': 'The manager runs on a modelled file system (a map of symbolic paths), so "outside the directory" is a property of all paths it can produce from a symbolic key. Write failures at every operation. Keys of up to 3 arbitrary bytes. ~45 s.',
'C22': 'The 48 random bytes of two keys are symbolic; equality of the base64 texts must imply equality of the bytes: a single UNSAT query over 96 variables. ~2 s.',
'C23': 'Values of bounded depth with symbolic leaves are copied, the copy is modified at every place, and the original compared. Pointers and structs inside an info are outside the claim (the session info is documented as JSON compliant data). ~20 s.',
'C24': 'Goroutines create, wait for, resolve, time out and cancel requests in every interleaving, data races included; identifiers offered by a peer are symbolic. ~15 s.',
'C25': 'Writers, readers and closers on both ends in every interleaving up to equivalence, contents symbolic; a deadlock or panic on any schedule is a violation. ~45 s.',
'C26': 'Dial, close, Serve and Shutdown as goroutines in every interleaving; consistency of both ends asserted at quiescence. What the transport answers (refuse, shutting down, the limit) symbolic. ~20 s.',
'C27': 'All numeric options symbolic over their whole type, the others set or unset by choice; results compared with a table of defaults written from the documentation. ~15 s.',
'C28': 'Vector clocks over every memory access of the executed code: two conflicting accesses that no synchronisation orders are reported, for every pair (and chosen triples) of public methods and events, over schedules up to equivalence, for every limit, key and identifier. ~25 s.',
'C29': 'Which connections hold which session and which notifications fail are choices, the key is symbolic; races with leaving, joining and switching. ~10 s.',
'C30': 'Symbolic name and payload through `Connection.Signal`; the bytes on the socket compared with the reference encoder, refusals with the protocol limits and the buffer size; the failure position is symbolic; concurrent senders in every interleaving. ~15 s.',
'C31': 'The stub socket receives the deadline: its difference to the (virtual) time is compared with the symbolic read timeout. End to end over the in-memory transport with the virtual clock. ~5 s (and native replay with a real clock).',
'C32': 'Keys, values and port symbolic; getters compared with what the transport passed, before and after each ending. ~5 s.',
'C33': 'Every history is performed three times; after each, `nd.Size` counts the map entries, slice elements, queued messages and objects reachable from the server (transport, request manager) in the symbolic heap, without passing through the harness, and `nd.Live` the goroutines. Steady growth is a violation; what is created once and kept (caches, warm-ups) is not. Races: after an ordinary round and a racing one, which must leave no more. The repeated rounds run on a fixed schedule (`nd.Calm`), the racing part on every one. ~20 s.',
'C34': 'Which hooks act and what they do are choices, limits and identifiers symbolic; a hook that waits for itself is a deadlock reported by the scheduler, and each hook entered must have been left at quiescence. Results of the calls are compared with the getters. Races of an acting hook with closing, hanging up, creating and closing sessions in every interleaving. ~10 s.',
'C35': 'A real server on the real in-memory transport with a minimal client around the real request manager; payloads and limits symbolic, names and operations choices. Schedules: with at most `delays` deviations from a fixed one where up to 9 goroutines are involved (stated in the harness), every interleaving for two connections. A request timer of virtual 30 s decides who waits on an open connection. ~100 s.',
'C36': 'Self-composition: on each path the same symbolic steps of a client are executed in two servers, alone and disturbed, and everything observable of the client is asserted equal. Set-up and sequences on a fixed schedule, the concurrent harness over every interleaving. ~50 s.',
'C37': 'A stub transport with symbolic errors and address, compared with what the server returns; the moment of the transport shutdown is asserted inside the stub. The real in-memory transport with Run and Shutdown as goroutines in every interleaving. ~3 s.',
}

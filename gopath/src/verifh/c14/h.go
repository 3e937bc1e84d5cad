// Package c14: shutdown is graceful: it waits for handlers, refuses new work, and
// completes.
package c14

import (
	"sync"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

type state struct {
	lock     sync.Mutex
	running  int
	handled  int
	started  bool // Shutdown was called
	returned int  // calls of Shutdown that returned
}

func (st *state) enter() {
	st.lock.Lock()
	st.running++
	st.handled++
	nd.Assert(st.returned == 0, "nothing is handled after the shutdown returned")
	st.lock.Unlock()
}

func (st *state) leave() {
	st.lock.Lock()
	nd.Assert(st.returned == 0, "the shutdown waits for running handlers")
	st.running--
	st.lock.Unlock()
}

func (st *state) shutdown(s *hx.Server) {
	st.lock.Lock()
	st.started = true
	st.lock.Unlock()
	err := s.S.Shutdown()
	st.lock.Lock()
	nd.Assert(err == nil, "shut down")
	nd.Assert(st.running == 0, "no handler is running when the shutdown returns")
	nd.Assert(s.Shutdowns > 0, "the transport is shut down")
	st.returned++
	st.lock.Unlock()
}

// install makes handlers of messages named 'w' wait at the gate
func (st *state) install(s *hx.Server, gate chan struct{}) {
	s.Signal = func(_ wwr.Connection, m wwr.Message) {
		st.enter()
		if gate != nil && m.Name()[0] == 'w' {
			<-gate
		}
		st.leave()
	}
	s.Request = func(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		st.enter()
		if gate != nil && m.Name()[0] == 'w' {
			<-gate
		}
		st.leave()
		return wwr.Payload{Data: m.Payload()}, nil
	}
}

// reply composes the expected reply to a request
func reply(id []byte, payload byte) []byte {
	return append(append([]byte{ref.ReplyBinary}, id...), payload)
}

// sentOnce counts how often a message was sent
func sentOnce(sock *hx.Sock, m []byte) (n int) {
	for _, x := range sock.Sent() {
		n = nd.IteInt(nd.EqBytes(x, m), n+1, n)
	}
	return
}

// H_Waits: up to 2 handlers are running, with any limit, when the shutdown
// starts; one message (2 thorough) of any kind, identifier and payload arrives
// meanwhile, on the same or another connection; then the handlers finish
func H_Waits() {
	s := hx.NewServer(hx.Plain(64))
	st := &state{}
	gate := make(chan struct{})
	st.install(s, gate)
	limit := hx.Limit()
	a, b := hx.NewSock(64), hx.NewSock(64)
	s.Connect(a, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	single := limit == 0 || limit == 1
	two := single || nd.Choice("two", 2) == 1
	if two {
		s.Connect(b, wwr.ConnectionOptions{})
	}
	running := 1
	if !single {
		running += nd.Choice("running", 2)
	}
	var replies [][]byte // of the running handlers
	for i := 0; i < running; i++ {
		if i == 1 || nd.Choice("request", 2) == 1 {
			id, data := append(nd.Bytes("id", 7), byte(i)), nd.Byte("payload")
			replies = append(replies, reply(id, data))
			a.In <- hx.Request(0, id, []byte("w"), []byte{data})
		} else {
			a.In <- hx.Signal(0, []byte("w"), nil)
		}
		nd.Quiesce()
	}
	nd.Assert(st.handled == running, "handlers are running")
	go st.shutdown(s)
	arriving := nd.Choice("arriving", 2+nd.Tier())
	if arriving == 0 && nd.Choice("twice", 2) == 1 {
		go st.shutdown(s)
	}
	nd.Quiesce()
	nd.Assert(st.returned == 0, "the shutdown waits")
	nd.Assert(s.Shutting(), "the transport is told to refuse connections")
	nd.Assert(a.IsConnected(), "connections remain open while handlers are running")
	// messages arriving meanwhile
	var refusedA, refusedB [][]byte // identifiers
	for i := 0; i < arriving; i++ {
		on, refused := a, &refusedA
		if two {
			on, refused = b, &refusedB
		}
		id := hx.AnyID()
		kind := nd.Choice("kind", 5)
		switch kind {
		case 0:
			on.In <- hx.Signal(0, []byte("n"), nd.Bytes("payload", 1))
		case 1:
			on.In <- hx.Request(0, id, []byte("n"), nd.Bytes("payload", 1))
		case 2:
			on.In <- hx.Restore(id, nd.String("key", 2))
		case 3:
			on.In <- []byte{ref.Heartbeat}
		case 4:
			on.In <- hx.CloseSession(id)
		}
		if kind == 1 || kind == 2 || kind == 4 {
			*refused = append(*refused, id)
		}
		nd.Quiesce()
	}
	nd.Assert(st.handled == running, "messages arriving meanwhile are not handled")
	full := !single && nd.And(limit >= 0, limit <= running)
	check := func(sock *hx.Sock, ids [][]byte) {
		var got [][]byte
		for _, m := range sock.Sent() {
			if m[0] == ref.ReplyShutdown {
				got = append(got, m)
			}
		}
		nd.Assert(len(got) == len(ids), "requests arriving meanwhile get the shutdown notice")
		for i, id := range ids {
			nd.Assert(nd.EqBytes(got[i], append([]byte{ref.ReplyShutdown}, id...)), "notice carries the request's identifier")
		}
	}
	check(b, refusedB)
	if !full {
		check(a, refusedA)
	}
	for i := 0; i < running; i++ {
		nd.Assert(st.returned == 0, "the shutdown waits for all")
		gate <- struct{}{}
		nd.Quiesce()
	}
	nd.Assert(st.returned > 0 && nd.Live() == 0, "the shutdown completes and nobody is left")
	nd.Assert(s.Shutdowns > 0 && !a.IsConnected() && (!two || !b.IsConnected()), "connections closed")
	for _, m := range replies {
		nd.Assert(sentOnce(a, m) == 1, "replies of the running handlers were sent")
	}
	nd.Assert(st.handled == running, "nothing else was handled")
	nd.Assert(s.S.Shutdown() == nil, "shutting down again is harmless")
}

// H_Race: a shutdown, and 2 messages of any identifier and payload received at
// the same time on a connection with any limit (none is as good as 2): every
// interleaving
//
//verif:opts quick=100
func H_Race() {
	s := hx.NewServer(hx.Plain(64))
	st := &state{}
	st.install(s, nil)
	sock := hx.NewSock(64)
	var answers [][2][]byte // the possible replies to each request
	for i := 0; i < 2; i++ {
		data := nd.Byte("payload")
		if nd.Choice("request", 2) == 1 {
			id := append(nd.Bytes("id", 7), byte(i))
			answers = append(answers, [2][]byte{reply(id, data), append([]byte{ref.ReplyShutdown}, id...)})
			sock.Script = append(sock.Script, hx.Request(0, id, []byte("n"), []byte{data}))
		} else {
			sock.Script = append(sock.Script, hx.Signal(0, []byte("n"), []byte{data}))
		}
	}
	limit := hx.Limit()
	nd.Assume(limit >= 0)
	s.Start(sock, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	go st.shutdown(s)
	nd.Quiesce()
	nd.Assert(st.returned == 1, "the shutdown completes")
	nd.Assert(st.running == 0, "handlers finished")
	if sock.IsConnected() {
		// accepted after the transport was shut down: the stub lets it in
		nd.Assert(st.handled == 0, "nothing handled")
	}
	replies := 0
	for _, a := range answers {
		n := sentOnce(sock, a[0]) + sentOnce(sock, a[1])
		nd.Assert(n <= 1, "at most one reply per request")
		replies += n
	}
	nd.Assert(replies == len(sock.Sent()), "replies or notices")
}

// H_Sessions: session requests in progress are waited for as well
func H_Sessions() {
	m := hx.NewMgr("K")
	s := hx.NewServer(hx.Sessions(512, m))
	st := &state{}
	st.install(s, nil)
	gate := make(chan struct{})
	m.OnLookup = func(string) (wwr.SessionLookupResult, error) {
		st.enter()
		<-gate
		st.leave()
		return nil, nil
	}
	m.OnClosed = func(string) error {
		st.enter()
		<-gate
		st.leave()
		return nil
	}
	sock := hx.NewSock(512)
	con := s.Connect(sock, wwr.ConnectionOptions{ConcurrencyLimit: hx.Limit()})
	closing := nd.Choice("closing", 2) == 1
	id := hx.AnyID()
	if closing {
		nd.Assert(con.CreateSession(nil) == nil, "session created")
		sock.In <- hx.CloseSession(id)
	} else {
		sock.In <- hx.Restore(id, nd.String("key", 2))
	}
	nd.Quiesce()
	go st.shutdown(s)
	nd.Quiesce()
	nd.Assert(st.returned == 0 && st.running == 1, "the shutdown waits")
	gate <- struct{}{}
	nd.Quiesce()
	nd.Assert(st.returned == 1, "the shutdown completes")
	if closing {
		nd.Assert(sentOnce(sock, append([]byte{ref.ReplyBinary}, id...)) == 1, "confirmation sent")
	} else {
		nd.Assert(sentOnce(sock, append([]byte{ref.ReplySessNotFound}, id...)) == 1, "reply sent")
	}
}

// H_Idle: shutting down an idle server with up to 2 connections returns at once
// and closes them; hooks run
func H_Idle() {
	s := hx.NewServer(hx.Plain(64))
	st := &state{}
	st.install(s, nil)
	gone := 0
	s.OnDisconnected = func(wwr.Connection, error) { gone++ }
	n := nd.Choice("connections", 3)
	for i := 0; i < n; i++ {
		sock := hx.NewSock(64)
		s.Connect(sock, hx.Options())
		if nd.Choice("message", 2) == 1 {
			sock.In <- hx.Request(0, hx.AnyID(), []byte("n"), nd.Bytes("payload", 1))
		}
		nd.Quiesce()
	}
	nd.Assert(!s.Shutting(), "not shutting down")
	st.shutdown(s)
	nd.Assert(s.Shutting(), "shutting down")
	nd.Quiesce()
	nd.Assert(gone == n && nd.Live() == 0, "connections ended")
	st.returned = 0
	st.shutdown(s)
	nd.Quiesce()
	nd.Assert(st.returned == 1, "again")
}

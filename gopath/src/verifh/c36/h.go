// Package c36: connections don't affect one another: what a client gets is the
// same whatever other clients do and suffer.
package c36

import (
	"errors"
	"time"

	"verifh/hx"
	"verifh/nd"

	wwr "github.com/qbeon/webwire-go"
)

const stored = "stored"

// script is what happens to the observed connection
type script struct {
	limit int
	ops   []int
	enc   []int
	data  [][]byte
	ids   [][]byte
}

// observed operations
const (
	opRequest = iota
	opFail
	opSignal
	opPush
	opRestore
	opMissing
	opClose
	opEnd
	ops
)

func anyScript(n int) *script {
	s := &script{limit: hx.Limit()}
	for i := 0; i < n; i++ {
		op := nd.Choice("op", ops)
		// the first of two steps need not be one that changes nothing
		nd.Assume(i == n-1 || nd.Tier() > 0 || op == opRequest || op == opRestore || op == opPush)
		s.ops = append(s.ops, op)
		s.data = append(s.data, nd.Bytes("data", 2))
		s.ids = append(s.ids, hx.AnyID())
	}
	return s
}

// disturbances by the other connection
const (
	disNothing = iota
	disRaw
	disBlock
	disHangup
	disReadErr
	disClose
	disFault
	disSession
	disRestore
	disKill
	disConnect
	disRefused
	dists
)

type dist struct {
	kind int
	raw  []byte
	pos  int
}

func anyDist(n int) dist {
	d := dist{kind: nd.Choice("disturbance", n)}
	if d.kind == disRaw {
		d.raw = nd.Bytes("raw", 12)
	}
	if d.kind == disFault {
		d.pos = nd.Choice("fault", 3)
	}
	return d
}

var errOther = errors.New("hook failed")

// world is one run
type world struct {
	*hx.Server
	m       *hx.Mgr
	b       *hx.Sock
	con     wwr.Connection
	a       *hx.Sock
	acon    wwr.Connection
	limit   int
	seen    []string // what the hooks saw of the observed connection
	state   []string // what the getters said of it after each step
	release chan bool
	gone    int
	blocked int
}

// note records what a hook sees
func (w *world) note(c wwr.Connection, what string) {
	if w.con != nil && c == w.con {
		w.seen = append(w.seen, what)
	}
}

func newWorld(s *script) *world {
	w := &world{m: hx.NewMgr("k1", "k2", "k3", "k4"), release: make(chan bool), limit: s.limit}
	at := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	w.m.OnLookup = func(key string) (wwr.SessionLookupResult, error) {
		switch key {
		case stored, "other":
			return wwr.NewSessionLookupResult(at, at, map[string]interface{}{"owner": key}), nil
		}
		return nil, nil
	}
	w.m.OnClosed = func(key string) error {
		if key == stored {
			w.seen = append(w.seen, "destroyed")
		}
		return nil
	}
	w.Server = hx.NewServer(hx.Sessions(256, w.m))
	nd.Assert(w.Err == nil, "server created")
	w.OnConnected = func(_ wwr.ConnectionOptions, c wwr.Connection) { w.note(c, "connected") }
	w.OnDisconnected = func(c wwr.Connection, _ error) {
		if c == w.con {
			w.gone++
		}
		w.note(c, "disconnected")
	}
	w.Server.Signal = func(c wwr.Connection, m wwr.Message) {
		w.note(c, "signal "+string(m.Name())+string(m.Payload())+string([]byte{byte(m.PayloadEncoding())}))
	}
	w.Request = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		if c != w.con {
			if string(m.Name()) == "blocks" {
				w.blocked++
				<-w.release
				return wwr.Payload{}, errOther
			}
			return wwr.Payload{}, wwr.ErrRequest{Code: "OTHER", Message: "other"}
		}
		w.note(c, "request "+string(m.Name())+string(m.Payload()))
		if m.Name()[0] == 'f' {
			return wwr.Payload{}, wwr.ErrRequest{Code: "C", Message: string(m.Payload())}
		}
		return wwr.Payload{Data: append([]byte{'r'}, m.Payload()...)}, nil
	}
	return w
}

// other connects another client
func (w *world) other(d dist) {
	w.a = hx.NewSock(256)
	if d.kind == disFault {
		switch d.pos {
		case 0:
			w.a.FailGet = 2
		case 1:
			w.a.FailWrite = 2
		default:
			w.a.FailClose = 2
		}
	}
	w.acon = w.Connect(w.a, wwr.ConnectionOptions{ConcurrencyLimit: w.limit})
	nd.Quiesce()
}

// disturb lets the other client do something
func (w *world) disturb(d dist) {
	if !w.a.IsConnected() && d.kind != disNothing {
		w.other(d)
	}
	switch d.kind {
	case disRaw:
		w.a.In <- d.raw
	case disBlock:
		for i := byte(0); i < 3; i++ {
			w.a.In <- hx.Request(0, hx.ID(i), []byte("blocks"), []byte{1, 2, 3})
		}
	case disHangup:
		w.a.In <- nil
	case disReadErr:
		w.a.In <- []byte{}
	case disClose:
		w.acon.Close()
	case disFault:
		w.acon.Signal([]byte("x"), wwr.Payload{Data: []byte{9, 9}})
	case disSession:
		w.acon.CreateSession(nil)
	case disRestore:
		w.a.In <- hx.Restore(hx.ID(2), "other")
	case disKill:
		if k := w.acon.SessionKey(); k != "" {
			w.S.CloseSession(k)
		}
	case disConnect:
		w.other(d)
	case disRefused:
		k := hx.NewSock(256)
		k.FailGet = 1
		w.Serve(k, wwr.ConnectionOptions{})
	}
}

// step performs a step of the observed connection
func (w *world) step(s *script, i int) {
	switch s.ops[i] {
	case opRequest:
		w.b.In <- hx.Request(0, s.ids[i], []byte("r"), s.data[i])
	case opFail:
		w.b.In <- hx.Request(1, s.ids[i], []byte("f"), s.data[i])
	case opSignal:
		w.b.In <- hx.Signal(0, []byte("s"), s.data[i])
	case opPush:
		w.con.Signal([]byte("p"), wwr.Payload{Data: s.data[i]})
	case opRestore:
		w.b.In <- hx.Restore(s.ids[i], stored)
	case opMissing:
		w.b.In <- hx.Restore(s.ids[i], "missing")
	case opClose:
		w.b.In <- hx.CloseSession(s.ids[i])
	case opEnd:
		w.con.Close()
	}
}

// look records what the getters say
func (w *world) look() {
	x := "open "
	if !w.con.IsActive() {
		x = "ended "
	}
	if w.S.SessionConnectionsNum(stored) == 1 {
		x += "listed "
	}
	w.state = append(w.state, x+w.con.SessionKey())
}

// connect connects the observed client
func (w *world) connect(s *script) {
	w.b = hx.NewSock(256)
	w.con = w.Connect(w.b, wwr.ConnectionOptions{ConcurrencyLimit: s.limit})
	nd.Quiesce()
}

// end lets everything end
func (w *world) end() {
	nd.Quiesce()
	for ; w.blocked > 0; w.blocked-- {
		w.release <- true
		nd.Quiesce()
	}
	if w.b.IsConnected() {
		w.b.In <- nil
		nd.Quiesce()
	}
	nd.Assert(w.b.Finished && w.gone == 1, "the observed connection ended once")
	w.look()
}

// same asserts that the observed client was treated the same in both runs
func same(x, y *world) {
	nd.Assert(len(x.b.Out) == len(y.b.Out), "as many messages to the client")
	for i := range x.b.Out {
		nd.Assert(len(x.b.Out[i]) == len(y.b.Out[i]) && nd.EqBytes(x.b.Out[i], y.b.Out[i]), "the same messages to the client")
	}
	nd.Assert(len(x.seen) == len(y.seen), "as many calls of the hooks")
	for i := range x.seen {
		nd.Assert(len(x.seen[i]) == len(y.seen[i]) && nd.EqString(x.seen[i], y.seen[i]), "the same calls of the hooks")
	}
	for i := range x.state {
		nd.Assert(x.state[i] == y.state[i], "the same state")
	}
	nd.Assert(x.b.Closes == y.b.Closes && x.b.Reads == y.b.Reads, "the same use of the socket")
}

// H_Alone: 2 steps of one client (quick: the first a request, a restoration or a
// signal), and before and between them (thorough: and after
// them) anything another client does or suffers: both with any limit, arbitrary
// bytes received (quick: only as the single disturbance), handlers that don't return, failures of the
// socket, any ending, sessions, further connections. The first client is treated
// as if it were alone
func H_Alone() {
	nd.Calm(true)
	s := anyScript(2)
	x := newWorld(s)
	x.connect(s)
	for i := range s.ops {
		x.step(s, i)
		nd.Quiesce()
		x.look()
	}
	x.end()

	y := newWorld(s)
	var ds []dist
	ds = append(ds, anyDist(dists), anyDist(dists))
	if nd.Tier() > 0 {
		ds = append(ds, anyDist(dists))
	} else {
		nd.Assume(ds[1].kind != disRaw && ds[0].kind != disRaw || ds[1].kind == disNothing || ds[0].kind == disNothing)
	}
	if nd.Choice("first", 2) == 0 {
		y.other(ds[0])
		y.connect(s)
	} else {
		y.connect(s)
		y.other(ds[0])
	}
	for i := range s.ops {
		y.disturb(ds[i])
		nd.Quiesce()
		y.step(s, i)
		nd.Quiesce()
		y.look()
	}
	if len(ds) > 2 {
		y.disturb(ds[2])
	}
	y.end()
	same(x, y)
}

// H_Concurrent: something happens to another client at the same time as one step
// of a client, in every interleaving
func H_Concurrent() {
	nd.Calm(true)
	s := anyScript(1)
	restored := nd.Choice("session", 2) == 1
	prepare := func(w *world) {
		w.connect(s)
		if restored {
			w.b.In <- hx.Restore(hx.ID(7), stored)
			nd.Quiesce()
		}
	}
	x := newWorld(s)
	prepare(x)
	x.step(s, 0)
	nd.Quiesce()
	x.look()
	x.end()

	y := newWorld(s)
	d := anyDist(disKill)
	nd.Assume(d.kind != disNothing)
	prepare(y)
	y.other(d)
	nd.Calm(false)
	done := make(chan bool)
	go func() {
		y.disturb(d)
		done <- true
	}()
	y.step(s, 0)
	<-done
	nd.Quiesce()
	nd.Calm(true)
	y.look()
	y.end()
	same(x, y)
}

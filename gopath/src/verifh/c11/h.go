// Package c11: each incoming message reaches exactly its handler, once, with
// intact content.
package c11

import (
	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

var limits = []int{0, 2, -1}

type call struct {
	con     wwr.Connection
	request bool
	id      [8]byte
	name    []byte
	data    []byte
	enc     wwr.PayloadEncoding
}

// record makes the server record every call of a message hook
func record(s *hx.Server) *[]call {
	calls := &[]call{}
	add := func(c wwr.Connection, m wwr.Message, request bool) {
		*calls = append(*calls, call{c, request, m.Identifier(), append([]byte{}, m.Name()...), append([]byte{}, m.Payload()...), m.PayloadEncoding()})
	}
	s.Signal = func(c wwr.Connection, m wwr.Message) { add(c, m, false) }
	s.Request = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		add(c, m, true)
		return wwr.Payload{}, nil
	}
	return calls
}

func isSignal(t byte) bool  { return t >= ref.SignalBinary && t <= ref.SignalUtf16 }
func isRequest(t byte) bool { return t >= ref.RequestBinary && t <= ref.RequestUtf16 }

// H_Any: every byte sequence of up to 13 bytes (16 thorough) received as one
// message of an established connection: reaches exactly the hook the protocol
// assigns to it, or none
//
//verif:opts quick=60
func H_Any() {
	s := hx.NewServer(hx.Plain(32))
	nd.Assert(s.Err == nil, "server created")
	calls := record(s)
	sock := hx.NewSock(64)
	con := s.Connect(sock, wwr.ConnectionOptions{ConcurrencyLimit: limits[nd.Choice("limit", 3)]})
	max := 13
	if nd.Tier() > 0 {
		max = 16
	}
	b := nd.BytesUpTo("message", max)
	nd.Assume(len(b) > 0)
	m := ref.Decode(b)
	sock.In <- b
	nd.Quiesce()
	out := sock.Sent()
	switch {
	case !m.OK:
		nd.Cover("malformed")
		nd.Assert(len(*calls) == 0 && len(out) == 0, "malformed: reaches nobody")
		nd.Assert(!sock.IsConnected() && !con.IsActive() && sock.Finished, "malformed: its connection ends")
		// others are served
		sock = hx.NewSock(64)
		s.Connect(sock, wwr.ConnectionOptions{})
	case isSignal(m.Type) || isRequest(m.Type):
		nd.Cover("handled")
		nd.Assert(len(*calls) == 1, "handled exactly once")
		c := (*calls)[0]
		nd.Assert(c.con == con, "with its connection")
		nd.Assert(c.request == isRequest(m.Type), "by the matching hook")
		hx.Same(c.name, b[m.NameOff:m.NameOff+m.NameLen], "name")
		hx.Same(c.data, b[m.PayOff:m.PayOff+m.PayLen], "payload")
		nd.Assert(int(c.enc) == m.Enc, "encoding")
		if c.request {
			hx.Same(c.id[:], b[1:9], "identifier")
			nd.Assert(len(out) == 1, "request answered")
		} else {
			nd.Assert(len(out) == 0, "signal not answered")
		}
	case m.Type == ref.RestoreSession || m.Type == ref.CloseSession:
		nd.Cover("session request")
		nd.Assert(len(*calls) == 0, "session request: reaches no hook")
		nd.Assert(len(out) == 1 && out[0][0] == ref.ReplySessDisabled, "session request: refused")
		hx.Same(out[0][1:], b[1:9], "session request: identifier")
	default:
		nd.Cover("ignored")
		nd.Assert(len(*calls) == 0 && len(out) == 0, "ignored: reaches nobody, no reply")
		nd.Assert(con.IsActive() && sock.IsConnected(), "ignored: connection undisturbed")
	}
	n := len(*calls)
	sock.In <- hx.Signal(1, []byte("probe"), []byte{1})
	nd.Quiesce()
	nd.Assert(len(*calls) == n+1 && string((*calls)[n].name) == "probe", "the next message is handled")
}

// item returns one of the messages that may arrive and whether it's handled
func item(i int) ([]byte, bool) {
	name := []byte{'a' + byte(i)}
	switch nd.Choice("item", 6) {
	case 0:
		return []byte{ref.Heartbeat}, false
	case 1:
		return append([]byte{ref.ReplyBinary, 0, 0, 0, 0, 0, 0, 0, 1}, nd.Bytes("stray", 2)...), false
	case 2:
		return hx.Signal(0, name, nd.Bytes("data", 2)), true
	case 3:
		return hx.Signal(2, name, nd.Bytes("data", 2)), true
	case 4:
		return hx.Request(1, nd.Bytes("id", 8), name, nd.Bytes("data", 1)), true
	}
	return []byte{ref.SessionClosed}, false
}

// H_Sequence: sequences of 3 messages (4 thorough) on a connection without concurrency: all
// handled, in order, unmixed, one at a time
func H_Sequence() {
	s := hx.NewServer(hx.Plain(32))
	calls := record(s)
	sock := hx.NewSock(64)
	n := 3 + nd.Tier()
	var want [][]byte
	for i := 0; i < n; i++ {
		b, handled := item(i)
		sock.Script = append(sock.Script, b)
		if handled {
			want = append(want, b)
		}
	}
	sock.End = true
	s.Serve(sock, wwr.ConnectionOptions{ConcurrencyLimit: nd.Choice("limit", 2)})
	nd.Assert(len(*calls) == len(want), "each handled once")
	for i, c := range *calls {
		m := ref.Decode(want[i])
		nd.Assert(c.request == isRequest(m.Type), "in order")
		hx.Same(c.name, want[i][m.NameOff:m.NameOff+m.NameLen], "name")
		hx.Same(c.data, want[i][m.PayOff:m.PayOff+m.PayLen], "payload")
	}
}

// H_Concurrent: a connection with concurrent handlers receives two messages and a
// heartbeat: each is handled once with its own content, which stays intact until
// its handler returns
//
//verif:opts quick=60
func H_Concurrent() {
	s := hx.NewServer(hx.Plain(32))
	sock := hx.NewSock(64)
	data := [][]byte{nd.Bytes("data", 2), nd.Bytes("data", 3)}
	var seen [2]int
	handle := func(m wwr.Message) {
		nd.Assert(len(m.Name()) == 1, "name")
		i := int(m.Name()[0] - 'a')
		seen[i]++
		hx.Same(m.Payload(), data[i], "payload at the start")
		nd.Point("working")
		nd.Assert(m.Name()[0] == byte('a'+i), "name at the end")
		hx.Same(m.Payload(), data[i], "payload at the end")
	}
	s.Signal = func(_ wwr.Connection, m wwr.Message) { handle(m) }
	s.Request = func(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) { handle(m); return wwr.Payload{}, nil }
	sock.Script = [][]byte{hx.Signal(0, []byte("a"), data[0]), {ref.Heartbeat}, hx.Request(1, hx.ID(1), []byte("b"), data[1])}
	s.Start(sock, wwr.ConnectionOptions{ConcurrencyLimit: limits[1+nd.Choice("limit", 2)]})
	nd.Quiesce()
	nd.Assert(seen[0] == 1 && seen[1] == 1, "each handled once")
	nd.Assert(len(sock.Sent()) == 1, "request answered")
}

// H_TwoConnections: messages of two connections, received at the same time,
// reach the hooks with their own connection
//
//verif:opts quick=60
func H_TwoConnections() {
	s := hx.NewServer(hx.Plain(32))
	calls := record(s)
	a, b := hx.NewSock(64), hx.NewSock(64)
	ca := s.Connect(a, wwr.ConnectionOptions{})
	cb := s.Connect(b, wwr.ConnectionOptions{ConcurrencyLimit: -1})
	x, y := nd.Bytes("data", 2), nd.Bytes("data", 3)
	a.In <- hx.Signal(0, []byte("x"), x)
	b.In <- hx.Request(0, hx.ID(1), []byte("y"), y)
	nd.Quiesce()
	nd.Assert(len(*calls) == 2, "each handled once")
	p, q := (*calls)[0], (*calls)[1]
	if p.request {
		p, q = q, p
	}
	nd.Assert(p.con == ca && q.con == cb && ca != cb, "with their connections")
	hx.Same(p.data, x, "payload")
	hx.Same(q.data, y, "payload")
	nd.Assert(len(a.Sent()) == 0 && len(b.Sent()) == 1, "answered on its connection")
}

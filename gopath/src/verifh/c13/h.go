// Package c13: concurrent handlers stay within the connection's limit and no
// slot leaks.
package c13

import (
	"sync"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

// gauge counts running handlers
type gauge struct {
	lock             sync.Mutex
	running, handled int
	order            []byte
}

func (g *gauge) run(limit int, name byte, during func()) {
	g.lock.Lock()
	g.running++
	g.handled++
	g.order = append(g.order, name)
	nd.Assert(g.running <= hx.Room(limit, g.running), "within the limit")
	g.lock.Unlock()
	if during != nil {
		during()
	}
	g.lock.Lock()
	g.running--
	g.lock.Unlock()
}

func (g *gauge) install(s *hx.Server, limit int, during func(name byte)) {
	d := func(n byte) func() { return func() { during(n) } }
	if during == nil {
		d = func(byte) func() { return nil }
	}
	s.Signal = func(_ wwr.Connection, m wwr.Message) { n := m.Name()[0]; g.run(limit, n, d(n)) }
	s.Request = func(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		n := m.Name()[0]
		g.run(limit, n, d(n))
		return wwr.Payload{}, nil
	}
}

func msg(i int) []byte {
	if nd.Choice("kind", 2) == 0 {
		return hx.Signal(0, []byte{'a' + byte(i)}, nd.Bytes("payload", 1))
	}
	return hx.Request(0, hx.AnyID(), []byte{'a' + byte(i)}, nd.Bytes("payload", 1))
}

// H_Limit: 3 messages (4 thorough) with any limit below 3: never more handlers
// than the limit, all messages handled; in order without concurrency
//
//verif:opts quick=90
func H_Limit() {
	s := hx.NewServer(hx.Plain(64))
	limit := hx.Limit()
	nd.Assume(nd.And(limit >= 0, limit < 3)) // H_Overlap covers the others
	g := &gauge{}
	g.install(s, limit, nil)
	sock := hx.NewSock(64)
	n := 3 + nd.Tier()
	for i := 0; i < n; i++ {
		if i == 1 {
			sock.Script = append(sock.Script, msg(i))
		} else {
			sock.Script = append(sock.Script, hx.Signal(0, []byte{'a' + byte(i)}, nil))
		}
	}
	s.Start(sock, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	nd.Quiesce()
	nd.Assert(g.handled == n && g.running == 0, "all handled")
	if limit < 2 {
		for i, c := range g.order {
			nd.Assert(int(c-'a') == i, "in order without concurrency")
		}
	}
}

// H_Overlap: 3 messages arrive (4 thorough) while handlers are stuck: as many
// are handled at once as the limit, whatever it is, allows; the others wait for
// a slot and get it afterwards, one by one
func H_Overlap() {
	s := hx.NewServer(hx.Plain(64))
	limit := hx.Limit()
	g := &gauge{}
	gate := make(chan struct{})
	g.install(s, limit, func(n byte) { <-gate })
	sock := hx.NewSock(64)
	n := 3 + nd.Tier()
	for i := 0; i < n; i++ {
		sock.In <- msg(i)
	}
	s.Start(sock, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	for left := n; left > 0; left-- {
		nd.Quiesce()
		nd.Assert(g.running == hx.Room(limit, left), "as many handlers as the limit allows, no message is delayed without need")
		nd.Assert(g.handled == n-left+g.running, "freed slot is used")
		gate <- struct{}{}
	}
	nd.Quiesce()
	nd.Assert(g.running == 0 && g.handled == n, "all handled")
}

// H_NoLeak: histories of 2 messages (3 thorough) of every kind (handled, ignored,
// session requests, heartbeats) with any identifier, payload and key, any of the
// operations on the socket failing, one after another: at the end as many
// handlers as the limit allows run at once
//
//verif:opts quick=90
func H_NoLeak() {
	s := hx.NewServer(hx.Plain(64))
	limit := hx.Limit()
	g := &gauge{}
	g.install(s, limit, nil)
	sock := hx.NewSock(64)
	s.Connect(sock, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	sock.FailGet, sock.FailWrite, sock.FailClose = hx.AnyFault()
	for i := 0; i < 2+nd.Tier(); i++ {
		switch nd.Choice("message", 6) {
		case 0:
			sock.In <- hx.Signal(0, []byte("s"), nd.Bytes("payload", 1))
		case 1:
			sock.In <- hx.Request(0, hx.AnyID(), []byte("r"), nd.Bytes("payload", 1))
		case 2:
			sock.In <- []byte{ref.Heartbeat}
		case 3:
			sock.In <- hx.CloseSession(hx.AnyID())
		case 4:
			sock.In <- hx.Restore(hx.AnyID(), nd.String("key", 1))
		case 5:
			sock.In <- append([]byte{ref.ReplyInternalError}, hx.AnyID()...)
		}
		nd.Quiesce()
	}
	gate := make(chan struct{})
	g.install(s, limit, func(byte) { <-gate })
	n := g.handled
	for i := 0; i < 3; i++ {
		sock.In <- hx.Signal(0, []byte("p"), nil)
		nd.Quiesce()
	}
	nd.Assert(g.handled == n+hx.Room(limit, 3) && g.running == g.handled-n, "exactly the limit's handlers run at once")
	for i := 0; i < 3; i++ {
		gate <- struct{}{}
		nd.Quiesce()
	}
	nd.Assert(g.handled == n+3 && g.running == 0, "all handled")
}

// H_Independent: a connection whose slots are all taken doesn't keep another
// connection from being served
func H_Independent() {
	s := hx.NewServer(hx.Plain(64))
	limit := hx.Limit()
	g := &gauge{}
	gate := make(chan struct{})
	g.install(s, -1, func(n byte) {
		if n == 'x' {
			<-gate
		}
	})
	a, b := hx.NewSock(64), hx.NewSock(64)
	for i := 0; i < 3; i++ {
		a.In <- hx.Signal(0, []byte("x"), nil)
	}
	s.Connect(a, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	s.Connect(b, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	nd.Quiesce()
	n := g.handled
	nd.Assert(n == hx.Room(limit, 3), "slots taken")
	b.In <- hx.Signal(0, []byte("y"), nil)
	nd.Quiesce()
	nd.Assert(g.handled == n+1, "the other connection is served")
	for i := 0; i < 3; i++ {
		gate <- struct{}{}
		nd.Quiesce()
	}
	nd.Assert(g.handled == 4 && g.running == 0, "all handled")
}

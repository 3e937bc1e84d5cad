// Package c26: dialling, accepting and shutting down the in-memory transport.
package c26

import (
	"time"

	"verifh/hx"
	"verifh/nd"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/transport/memchan"
)

const size = 16

type server struct {
	t        *memchan.Transport
	shutting bool
	refuse   bool
	opts     wwr.ConnectionOptions
	hooks    int
	accepted chan wwr.Socket
	got      []wwr.ConnectionOptions
}

func newServer() *server {
	s := &server{accepted: make(chan wwr.Socket, 8)}
	s.t = &memchan.Transport{OnBeforeCreation: func() wwr.ConnectionOptions {
		s.hooks++
		o := s.opts
		o.Connection = wwr.Accept
		if s.refuse {
			o.Connection = wwr.Refuse
		}
		return o
	}}
	nd.Assert(s.t.Initialize(
		wwr.ServerOptions{MessageBufferSize: size, ReadTimeout: time.Minute},
		func() bool { return s.shutting },
		func(o wwr.ConnectionOptions, sock wwr.Socket) {
			s.got = append(s.got, o)
			s.accepted <- sock
		},
	) == nil, "initialised")
	return s
}

func (s *server) client() wwr.ClientSocket {
	c, err := (&memchan.ClientTransport{Server: s.t}).NewSocket(time.Second)
	nd.Assert(err == nil && c != nil, "client socket created")
	return c
}

// usable asserts that a message gets through in both directions
func usable(a, b wwr.Socket, what string) {
	for i := 0; i < 2; i++ {
		data := nd.Bytes("probe", 1)
		res := make(chan error, 1)
		w := a
		go func() { res <- hx.Send(w, nil, data) }()
		m, err := hx.Recv(b, size)
		nd.Assert(err == nil && <-res == nil, what+": connection usable")
		nd.Assert(nd.EqBytes(m.Payload(), data), what+": message intact")
		a, b = b, a
	}
}

// dead asserts that an end is disconnected
func dead(s wwr.Socket, what string) {
	nd.Assert(!s.IsConnected(), what+": not connected")
	_, err := hx.Recv(s, size)
	nd.Assert(err != nil && err.IsCloseErr(), what+": read reports closure")
	nd.Assert(hx.Send(s, nil, []byte{1}) != nil, what+": write refused")
}

// H_DialAccept: any connection options returned by OnBeforeCreation reach the
// server with the connection, exactly once; both ends are connected
func H_DialAccept() {
	s := newServer()
	s.opts.ConcurrencyLimit = nd.Int("limit", -1<<31, 1<<31)
	s.opts.Info = map[int]interface{}{1: nd.Int("info", -1<<31, 1<<31)}
	c := s.client()
	dead(c, "before")
	nd.Assert(c.Dial(time.Time{}) == nil, "dialled")
	nd.Assert(c.IsConnected(), "client connected")
	sock := <-s.accepted
	nd.Assert(sock.IsConnected(), "server side connected")
	nd.Assert(c.RemoteAddr() != nil && sock.RemoteAddr() != nil, "addresses")
	usable(c, sock, "accepted")
	nd.Quiesce()
	nd.Assert(s.hooks == 1 && len(s.got) == 1 && len(s.accepted) == 0, "accepted exactly once")
	nd.Assert(s.got[0].ConcurrencyLimit == s.opts.ConcurrencyLimit, "limit passed on")
	nd.Assert(s.got[0].Info[1] == s.opts.Info[1], "info passed on")
	nd.Assert(c.Dial(time.Time{}) != nil, "dialling twice refused")
	nd.Assert(c.IsConnected() && sock.IsConnected(), "still connected")
	nd.Assert(len(s.got) == 1, "no second connection")
}

// H_DialRefused: every reason to refuse a connection leaves the client
// disconnected and the server unaware; dialling works once the reason is gone
func H_DialRefused() {
	s := newServer()
	c := s.client()
	why := nd.Choice("why", 4)
	switch why {
	case 0:
		s.refuse = true
	case 1:
		s.shutting = true
	case 2:
		nd.Assert(s.t.Shutdown() == nil, "shut down")
	case 3:
		var err error
		c, err = (&memchan.ClientTransport{}).NewSocket(time.Second)
		nd.Assert(err == nil, "client without a server")
	}
	for i := 0; i < 2; i++ {
		nd.Assert(c.Dial(time.Time{}) != nil, "refused")
		nd.Quiesce()
		nd.Assert(len(s.got) == 0, "nothing accepted")
		dead(c, "refused")
		nd.Assert(c.Close() == nil, "closing is harmless")
	}
	s.refuse, s.shutting = false, false
	if why < 2 {
		nd.Cover("later")
		nd.Assert(c.Dial(time.Time{}) == nil, "accepted later")
		usable(c, <-s.accepted, "later")
	}
}

// H_DialAny: up to 3 dials (4 thorough) of one client, the server refusing or
// shutting down arbitrarily each time: accepted exactly if it does neither and
// the client isn't connected
func H_DialAny() {
	s := newServer()
	c := s.client()
	accepted := 0
	var sock wwr.Socket
	for i := 0; i < 3+nd.Tier(); i++ {
		s.refuse, s.shutting = nd.Bool("refuse"), nd.Bool("shutting")
		s.opts.ConcurrencyLimit = hx.Limit()
		was := c.IsConnected()
		err := c.Dial(time.Time{})
		nd.Quiesce()
		nd.Assert((err == nil) == nd.Not(nd.Or(was, nd.Or(s.refuse, s.shutting))), "accepted exactly if nothing is against it")
		if err == nil {
			accepted++
			nd.Assert(len(s.got) == accepted && len(s.accepted) == 1, "the server gets it")
			nd.Assert(s.got[accepted-1].ConcurrencyLimit == s.opts.ConcurrencyLimit, "with its options")
			sock = <-s.accepted
		} else {
			nd.Assert(len(s.got) == accepted && c.IsConnected() == was, "nothing changed")
		}
		if nd.Bool("close") {
			nd.Assert(c.Close() == nil, "closed")
			dead(c, "closed")
			if sock != nil {
				dead(sock, "closed")
			}
		}
	}
	if c.IsConnected() {
		usable(c, sock, "accepted")
	}
}

// H_ServerSocketDial: the server's end can't be dialled
func H_ServerSocketDial() {
	s := newServer()
	c := s.client()
	nd.Assert(c.Dial(time.Time{}) == nil, "dialled")
	sock := <-s.accepted
	if d, ok := sock.(wwr.ClientSocket); ok {
		nd.Assert(d.Dial(time.Time{}) != nil, "refused while connected")
		nd.Assert(sock.Close() == nil, "closed")
		nd.Assert(d.Dial(time.Time{}) != nil, "refused while disconnected")
		dead(sock, "server's end")
		dead(c, "client")
	}
}

// H_DoubleDial: of concurrent dials on one socket exactly one succeeds and
// exactly one connection is accepted
func H_DoubleDial() {
	s := newServer()
	c := s.client()
	n := 2 + nd.Tier()
	ok := 0
	for i := 0; i < n; i++ {
		go func() {
			if c.Dial(time.Time{}) == nil {
				ok++
			}
		}()
	}
	nd.Quiesce()
	nd.Assert(ok == 1, "exactly one dial succeeds")
	nd.Assert(len(s.got) == 1, "exactly one connection accepted")
	usable(c, <-s.accepted, "double dial")
	nd.Quiesce()
	nd.Assert(nd.Live() == 0, "nobody left waiting")
}

// H_TwoClients: two clients dialling at the same time get separate connections
func H_TwoClients() {
	s := newServer()
	a, b := s.client(), s.client()
	go func() { nd.Assert(a.Dial(time.Time{}) == nil, "dialled") }()
	go func() { nd.Assert(b.Dial(time.Time{}) == nil, "dialled") }()
	nd.Quiesce()
	nd.Assert(len(s.got) == 2, "two connections")
	x, y := <-s.accepted, <-s.accepted
	data := nd.Bytes("data", 2)
	go hx.Send(a, nil, data)
	go hx.Send(b, nil, []byte("other"))
	m, err := hx.Recv(x, size)
	nd.Assert(err == nil, "read")
	if len(m.Payload()) == 5 {
		x, y = y, x
		m, err = hx.Recv(x, size)
		nd.Assert(err == nil, "read other")
	} else {
		_, err = hx.Recv(y, size)
		nd.Assert(err == nil, "read other")
	}
	nd.Assert(nd.EqBytes(m.Payload(), data), "message of the right client")
	nd.Assert(a.Close() == nil, "closed")
	dead(a, "closed client")
	dead(x, "its server side")
	usable(b, y, "the other connection")
}

// H_CloseDial: closing either end while the client dials: consistent afterwards
func H_CloseDial() {
	s := newServer()
	c := s.client()
	var derr error
	go func() { derr = c.Dial(time.Time{}) }()
	if nd.Choice("closer", 2) == 0 {
		go func() { nd.Assert(c.Close() == nil, "closed") }()
	} else {
		go func() {
			sock := <-s.accepted
			nd.Assert(sock.Close() == nil, "closed")
			s.accepted <- sock
		}()
	}
	nd.Quiesce()
	nd.Assert(derr == nil, "dialled")
	nd.Assert(len(s.got) == 1, "accepted")
	sock := <-s.accepted
	nd.Assert(c.IsConnected() == sock.IsConnected(), "both ends agree")
	if c.IsConnected() {
		nd.Cover("connected")
		usable(c, sock, "close dial")
	} else {
		nd.Cover("closed")
		dead(c, "close dial")
		dead(sock, "close dial")
		nd.Assert(c.Dial(time.Time{}) == nil, "dialled again")
		sock = <-s.accepted
		usable(c, sock, "again")
	}
	nd.Assert(s.t.Shutdown() == nil, "shut down")
	dead(c, "shut down")
	dead(sock, "shut down")
}

// H_Redial: a client reconnects while the transport is shut down: no connection
// survives the shutdown
func H_Redial() {
	s := newServer()
	c := s.client()
	nd.Assert(c.Dial(time.Time{}) == nil, "dialled")
	<-s.accepted
	go func() {
		c.Close()
		c.Dial(time.Time{})
	}()
	go func() { nd.Assert(s.t.Shutdown() == nil, "shut down") }()
	nd.Quiesce()
	dead(c, "redial")
	for len(s.accepted) > 0 {
		dead(<-s.accepted, "redial")
	}
	nd.Assert(c.Dial(time.Time{}) != nil, "dial refused")
}

// H_Shutdown: Serve, a dial, and one or two shutdowns at the same time: all
// return, every connection is closed, and nothing is accepted later
func H_Shutdown() {
	s := newServer()
	c, old := s.client(), s.client()
	nd.Assert(old.Dial(time.Time{}) == nil, "dialled")
	oldSock := <-s.accepted
	go func() { s.t.Serve() }()
	var derr error
	go func() { derr = c.Dial(time.Time{}) }()
	reader := nd.Choice("busy", 3)
	switch reader {
	case 1:
		go func() {
			_, err := hx.Recv(oldSock, size)
			nd.Assert(err != nil && err.IsCloseErr(), "reader told")
		}()
	case 2:
		go func() { nd.Assert(hx.Send(old, nil, []byte{1}) != nil, "writer told") }()
	}
	for i, n := 0, nd.Choice("twice", 2)+1; i < n; i++ {
		go func() { nd.Assert(s.t.Shutdown() == nil, "shut down") }()
	}
	nd.Quiesce()
	nd.Assert(nd.Live() == 0, "Serve, Dial and Shutdown returned")
	if derr == nil {
		nd.Cover("dialled")
		nd.Assert(len(s.got) == 2, "accepted")
		dead(<-s.accepted, "accepted socket")
	} else {
		nd.Cover("refused")
		nd.Assert(len(s.got) == 1, "not accepted")
	}
	dead(c, "dialling client")
	dead(old, "old client")
	dead(oldSock, "old socket")
	nd.Assert(c.Dial(time.Time{}) != nil && s.client().Dial(time.Time{}) != nil, "dial refused")
	nd.Assert(s.t.Serve() != nil, "serving refused")
	nd.Assert(s.t.Shutdown() == nil, "again harmless")
}

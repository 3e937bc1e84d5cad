// Package c12: connection hooks run once each, in order, around all other
// activity.
package c12

import (
	"sync"

	"verifh/hx"
	"verifh/nd"

	wwr "github.com/qbeon/webwire-go"
)

type rec struct {
	lock                       sync.Mutex
	connected, gone, handled   int
	con                        wwr.Connection
	reason                     error
	goneWhileHandling, running int
}

// watch records the hooks of a server and checks their order
func watch(s *hx.Server, opts wwr.ConnectionOptions, during func(string, wwr.Connection)) *rec {
	r := &rec{}
	do := func(what string, c wwr.Connection) {
		if during != nil {
			during(what, c)
		}
	}
	s.OnConnected = func(o wwr.ConnectionOptions, c wwr.Connection) {
		r.lock.Lock()
		nd.Assert(r.connected == 0 && r.handled == 0 && r.gone == 0, "connected hook runs first, once")
		nd.Assert(o.ConcurrencyLimit == opts.ConcurrencyLimit, "with the connection's options")
		nd.Assert(len(o.Info) == len(opts.Info) && o.Info[1] == opts.Info[1], "and its info")
		nd.Assert(c.IsActive(), "active when connected")
		r.con = c
		r.lock.Unlock()
		do("connected", c)
		nd.Point("connecting")
		r.lock.Lock()
		nd.Assert(r.handled == 0 && r.gone == 0, "nothing is handled before the connected hook returned")
		r.connected++
		r.lock.Unlock()
	}
	s.OnDisconnected = func(c wwr.Connection, err error) {
		r.lock.Lock()
		nd.Assert(r.connected == 1 && r.gone == 0, "disconnected hook runs last, once")
		nd.Assert(c == r.con, "same connection")
		nd.Assert(!c.IsActive(), "inactive when disconnected")
		r.gone++
		r.reason = err
		r.lock.Unlock()
		do("disconnected", c)
	}
	handle := func(c wwr.Connection) {
		r.lock.Lock()
		nd.Assert(r.connected == 1, "connected before handling")
		nd.Assert(c == r.con, "same connection")
		r.handled++
		r.lock.Unlock()
		do("handling", c)
	}
	s.Signal = func(c wwr.Connection, m wwr.Message) { handle(c) }
	s.Request = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		handle(c)
		return wwr.Payload{}, nil
	}
	return r
}

// ended asserts the state after a connection ended
func ended(s *hx.Server, r *rec, sock *hx.Sock, what string) {
	nd.Assert(r.connected == 1, what+": connected hook ran")
	nd.Assert(r.gone == 1, what+": disconnected hook ran once")
	nd.Assert(!sock.IsConnected(), what+": socket closed")
	nd.Assert(!r.con.IsActive(), what+": inactive")
	nd.Assert(!r.con.HasSession() && r.con.SessionKey() == "", what+": no session")
	nd.Assert(s.S.ActiveSessionsNum() == 0 && s.S.SessionConnectionsNum("K") == -1, what+": not listed")
	nd.Assert(sock.Finished, what+": reader gone")
	n := len(sock.Sent())
	nd.Assert(r.con.Signal([]byte("late"), wwr.Payload{}) != nil, what+": late signal refused")
	nd.Assert(r.con.CreateSession(nil) != nil, what+": late session refused")
	r.con.Close()
	nd.Assert(len(sock.Sent()) == n && s.S.ActiveSessionsNum() == 0, what+": nothing happens afterwards")
}

func options() wwr.ConnectionOptions {
	o := hx.Options()
	o.Info = map[int]interface{}{1: nd.Uint64("info")}
	return o
}

// H_End: every way to end a connection, with up to two messages handled before
// and a session or none
func H_End() {
	s := hx.NewServer(hx.Sessions(512, hx.NewMgr("K")))
	nd.Assert(s.Err == nil, "server created")
	how := nd.Choice("how", 8)
	sess := nd.Choice("session", 2) == 1
	o := options()
	sock := hx.NewSock(512)
	r := watch(s, o, func(what string, c wwr.Connection) {
		if what == "connected" && sess {
			nd.Assert(c.CreateSession(nil) == nil || how == 7, "session created")
		}
		if how == 4 && what == "connected" || how == 5 && what == "handling" {
			c.Close()
		}
		if what == "disconnected" {
			c.Close()
		}
	})
	for i, n := 0, nd.Choice("messages", 2)+nd.Tier(); i < n; i++ {
		sock.Script = append(sock.Script, hx.Signal(0, nil, nd.Bytes("payload", 1)))
	}
	if how == 5 || nd.Choice("request", 2) == 1 {
		sock.Script = append(sock.Script, hx.Request(0, hx.AnyID(), nil, nd.Bytes("payload", 1)))
	}
	graceful := true
	switch how {
	case 0: // peer closes
		sock.End = true
	case 1: // read fails
		sock.End, sock.EndErr = true, true
		graceful = false
	case 2: // malformed message
		sock.Script = append(sock.Script, []byte{0xee})
		graceful = false
	case 3: // server closes the connection
	case 6: // server shuts down
	case 7: // peer closes while the server closes
		sock.End = true
	}
	s.Start(sock, o)
	if how == 7 {
		go func() { s.S.Shutdown() }()
	}
	nd.Quiesce()
	if how == 3 {
		r.con.Close()
	}
	if how == 6 {
		nd.Assert(s.S.Shutdown() == nil, "shut down")
	}
	nd.Quiesce()
	if how == 7 && r.connected == 0 {
		nd.Assert(r.gone == 0 && r.handled == 0 && !sock.IsConnected(), "refused")
		return
	}
	ended(s, r, sock, "end")
	if how != 7 {
		e, ok := r.reason.(wwr.ErrSockRead)
		nd.Assert(ok && e.IsCloseErr() == graceful, "reason")
	}
}

// H_Race: the peer's hangup, a message being handled and the server's close at
// the same time
//
//verif:opts quick=90
func H_Race() {
	s := hx.NewServer(hx.Sessions(512, hx.NewMgr("K")))
	o := options()
	sess := nd.Choice("session", 2) == 1
	sock := hx.NewSock(512)
	ch := make(chan wwr.Connection, 1)
	r := watch(s, o, func(what string, c wwr.Connection) {
		if what == "connected" {
			if sess {
				nd.Assert(c.CreateSession(nil) == nil, "session created")
			}
			ch <- c
		}
	})
	sock.Script = [][]byte{hx.Signal(0, nil, nd.Bytes("payload", 1))}
	sock.End = nd.Choice("hangup", 2) == 1
	s.Start(sock, o)
	go func() { (<-ch).Close() }()
	nd.Quiesce()
	nd.Assert(r.handled <= 1, "handled at most once")
	ended(s, r, sock, "race")
}

// H_Refused: a connection accepted while the server is shutting down or whose
// handshake fails at any point gets either no hook at all or both
func H_Refused() {
	s := hx.NewServer(hx.Plain(64))
	o := options()
	r := watch(s, o, nil)
	sock := hx.NewSock(64)
	sock.End = true
	if nd.Choice("why", 2) == 0 {
		nd.Assert(s.S.Shutdown() == nil, "shut down")
	} else {
		sock.FailGet, sock.FailWrite, sock.FailClose = hx.AnyFault()
	}
	s.Serve(sock, o)
	nd.Assert(r.connected == r.gone, "both hooks or none")
	nd.Assert(!sock.IsConnected(), "socket closed")
}

// H_Arbitrary: a message of 1, 2, 9, 10 or 12 arbitrary bytes, well-formed or
// not, then the peer hangs up
func H_Arbitrary() {
	s := hx.NewServer(hx.Sessions(512, hx.NewMgr("K")))
	o := options()
	r := watch(s, o, nil)
	sock := hx.NewSock(512)
	n := []int{1, 2, 9, 10, 12}[nd.Choice("length", 5)]
	sock.Script = [][]byte{nd.Bytes("message", n)}
	sock.End = true
	s.Start(sock, o)
	nd.Quiesce()
	ended(s, r, sock, "arbitrary")
	_, ok := r.reason.(wwr.ErrSockRead)
	nd.Assert(ok, "reason")
}

// H_Many: three connections one after another or at once: each has its own hooks
func H_Many() {
	s := hx.NewServer(hx.Plain(64))
	var lock sync.Mutex
	up, down := map[wwr.Connection]int{}, map[wwr.Connection]int{}
	s.OnConnected = func(_ wwr.ConnectionOptions, c wwr.Connection) {
		lock.Lock()
		up[c]++
		lock.Unlock()
	}
	s.OnDisconnected = func(c wwr.Connection, _ error) {
		lock.Lock()
		nd.Assert(up[c] == 1, "connected first")
		down[c]++
		lock.Unlock()
	}
	atOnce := nd.Choice("at once", 2) == 1
	n := 3
	if atOnce {
		n = 2
	}
	o := hx.Options()
	for i := 0; i < n; i++ {
		sock := hx.NewSock(64)
		sock.End = true
		if atOnce {
			s.Start(sock, o)
		} else {
			s.Serve(sock, o)
		}
	}
	nd.Quiesce()
	nd.Assert(len(up) == n && len(down) == n, "every connection its own hooks")
	for c := range up {
		nd.Assert(up[c] == 1 && down[c] == 1, "once each")
	}
}

package hx

import (
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

// World is a server with sessions and some connections
type World struct {
	*Server
	M     *Mgr
	Keys  []string
	Socks []*Sock
	Cons  []wwr.Connection
}

// NewWorld creates a server with n connections. The keys are generated in order
func NewWorld(n int, max uint, keys ...string) *World { return NewWorldLimit(n, max, 0, keys...) }

// NewWorldLimit creates a server with n connections of a concurrency limit
func NewWorldLimit(n int, max uint, limit int, keys ...string) *World {
	w := &World{M: NewMgr(keys...), Keys: keys}
	o := Sessions(256, w.M)
	o.MaxSessionConnections = max
	w.Server = NewServer(o)
	nd.Assert(w.Err == nil, "server created")
	for i := 0; i < n; i++ {
		w.Add(limit)
	}
	return w
}

// Add adds a connection
func (w *World) Add(limit int) int {
	s := NewSock(256)
	c := w.Connect(s, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	nd.Quiesce()
	w.Socks, w.Cons = append(w.Socks, s), append(w.Cons, c)
	return len(w.Socks) - 1
}

// operations on connection i or key k
const (
	OpCreate     = iota // the server creates a session on connection i
	OpRestore           // client i asks for session k
	OpCloseSess         // the server closes the session of connection i
	OpClientSess        // client i closes its session
	OpHangup            // client i disconnects
	OpClose             // the server closes connection i
	OpKill              // the server closes session k
	Ops
)

// Do performs an operation
func (w *World) Do(op, i, k int) { w.DoKey(op, i, w.Keys[k]) }

// DoKey performs an operation with any key
func (w *World) DoKey(op, i int, key string) {
	switch op {
	case OpCreate:
		w.Cons[i].CreateSession(nil)
	case OpRestore:
		w.Socks[i].In <- Restore(AnyID(), key)
	case OpCloseSess:
		w.Cons[i].CloseSession()
	case OpClientSess:
		w.Socks[i].In <- CloseSession(AnyID())
	case OpHangup:
		w.Socks[i].In <- nil
	case OpClose:
		w.Cons[i].Close()
	case OpKill:
		w.S.CloseSession(key)
	}
}

// Holders returns the connections that hold a session
func (w *World) Holders(key string) (out []wwr.Connection) {
	for _, c := range w.Cons {
		if c.SessionKey() == key {
			out = append(out, c)
		}
	}
	return
}

// Check asserts that the registry equals the connections' sessions
func (w *World) Check(what string) {
	active := 0
	for i, c := range w.Cons {
		if !w.Socks[i].IsConnected() {
			nd.Assert(c.SessionKey() == "" && !c.HasSession() && c.Session() == nil, what+": no session on an ended connection")
		}
		nd.Assert(c.HasSession() == (c.SessionKey() != ""), what+": has a session exactly if it has a key")
		if s := c.Session(); s != nil {
			nd.Assert(s.Key == c.SessionKey(), what+": session and key agree")
		}
	}
	for _, k := range w.Keys {
		h := w.Holders(k)
		n := w.S.SessionConnectionsNum(k)
		l := w.S.SessionConnections(k)
		if len(h) == 0 {
			nd.Assert(n == -1 && l == nil, what+": a session nobody holds is not listed")
			continue
		}
		active++
		nd.Assert(n == len(h) && len(l) == len(h), what+": as many connections as holders")
		for _, c := range h {
			found := 0
			for _, x := range l {
				if x == c {
					found++
				}
			}
			nd.Assert(found == 1, what+": every holder is listed once")
		}
	}
	nd.Assert(w.S.ActiveSessionsNum() == active, what+": active sessions are the ones held")
}

// Restored reports whether the last message sent to client i is the reply to a
// successful restoration
func (w *World) Restored(i int) bool {
	out := w.Socks[i].Sent()
	return len(out) > 0 && out[len(out)-1][0] == ref.ReplyUtf8
}

// Last returns the type of the last message sent to client i
func (w *World) Last(i int) byte {
	out := w.Socks[i].Sent()
	if len(out) == 0 {
		return 255
	}
	return out[len(out)-1][0]
}

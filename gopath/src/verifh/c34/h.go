// Package c34: hooks may use the server and its connections.
package c34

import (
	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

// the hooks
const (
	hookConnected = iota
	hookSignal
	hookRequest
	hookCreated
	hookLookup
	hookClosed
	hookDisconnected
	hookParser
	hooks
)

// what they do
const (
	actSignal = iota
	actCreate
	actCloseSession
	actClose
	actObserve
	actKill
	actBystander
	acts
)

// reg is a server whose hooks call its own methods
type reg struct {
	*hx.Server
	m              *hx.Mgr
	sock, aside    *hx.Sock
	con, bystander wwr.Connection
	act            [hooks]int // what each hook does, -1: nothing
	entered, left  [hooks]int
	calm           bool
	moving         bool // the bystander's session is being replaced
	disconnects    int
}

// enter performs the action of a hook
func (r *reg) enter(h int, c wwr.Connection) {
	if r.act[h] < 0 || r.con == nil && c == nil {
		return
	}
	if c == nil {
		c = r.con
	}
	if c == r.bystander {
		return
	}
	a := r.act[h]
	r.act[h] = -1
	r.entered[h]++
	r.perform(a, c)
	r.left[h]++
}

func (r *reg) perform(a int, c wwr.Connection) {
	switch a {
	case actSignal:
		before := len(r.sock.Out)
		open := r.sock.IsConnected()
		err := c.Signal([]byte("s"), wwr.Payload{Data: []byte{1}})
		if r.calm {
			nd.Assert((err == nil) == open && (err != nil || len(r.sock.Out) == before+1), "the signal is sent unless the connection ended")
		}
	case actCreate:
		had := c.HasSession()
		err := c.CreateSession(nil)
		if r.calm && err == nil && r.act[hookCreated] < 0 && r.left[hookCreated] == r.entered[hookCreated] && r.entered[hookCreated] == 0 {
			nd.Assert(!had && c.HasSession(), "the created session is there")
			nd.Assert(r.S.SessionConnectionsNum(c.SessionKey()) == 1, "the created session is listed")
		}
	case actCloseSession:
		c.CloseSession()
		if r.calm && r.entered[hookClosed] == 0 {
			nd.Assert(!c.HasSession(), "the session is gone")
		}
	case actClose:
		c.Close()
		nd.Assert(!c.IsActive(), "closed")
	case actObserve:
		nd.Assert(c.Info(0) == nil && c.RemoteAddr() == nil, "static information")
		c.Creation()
		c.IsActive()
		key := c.SessionKey()
		if r.calm {
			s := c.Session()
			nd.Assert((s != nil) == c.HasSession() && (s == nil) == (key == ""), "the session is there or not")
			nd.Assert(s == nil || s.Key == key && s.Creation.Equal(c.SessionCreation()), "the same session")
			nd.Assert(c.SessionInfo("x") == nil, "no session information")
			n := r.S.SessionConnectionsNum(key)
			nd.Assert((n > 0) == (key != "") && len(r.S.SessionConnections(key)) == nd.IteInt(n < 0, 0, n), "listed exactly with a session")
			nd.Assert(r.moving || r.S.ActiveSessionsNum() == nd.IteInt(key != "", 2, 1), "active sessions")
		}
	case actKill:
		key := c.SessionKey()
		affected, _, _ := r.S.CloseSession(key)
		if r.calm {
			nd.Assert(len(affected) == nd.IteInt(key == "", 0, 1), "exactly its connections are affected")
		}
	case actBystander:
		before := len(r.aside.Out)
		nd.Assert(r.bystander.Signal([]byte("b"), wwr.Payload{}) == nil, "a signal to another connection")
		nd.Assert(len(r.aside.Out) == before+1, "sent")
		if r.moving {
			return
		}
		r.moving = true
		affected, _, err := r.S.CloseSession(r.bystander.SessionKey())
		nd.Assert(err == nil && len(affected) == 1 && !r.bystander.HasSession(), "another session is closed")
		nd.Assert(r.bystander.CreateSession(nil) == nil && r.bystander.HasSession(), "another session is created")
		r.moving = false
	}
}

func start(limit int) *reg {
	r := &reg{m: hx.NewMgr("k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9"), calm: true}
	for h := range r.act {
		r.act[h] = -1
	}
	o := hx.Sessions(256, r.m)
	o.SessionInfoParser = func(map[string]interface{}) wwr.SessionInfo {
		r.enter(hookParser, nil)
		return nil
	}
	r.Server = hx.NewServer(o)
	nd.Assert(r.Err == nil, "server created")
	r.OnConnected = func(_ wwr.ConnectionOptions, c wwr.Connection) { r.enter(hookConnected, c) }
	r.OnDisconnected = func(c wwr.Connection, _ error) {
		r.disconnects++
		r.enter(hookDisconnected, c)
	}
	r.Signal = func(c wwr.Connection, _ wwr.Message) { r.enter(hookSignal, c) }
	r.Request = func(c wwr.Connection, _ wwr.Message) (wwr.Payload, error) {
		r.enter(hookRequest, c)
		return wwr.Payload{}, nil
	}
	r.m.OnCreate = func(c wwr.Connection) error { r.enter(hookCreated, c); return nil }
	r.m.OnLookup = func(key string) (wwr.SessionLookupResult, error) {
		r.enter(hookLookup, nil)
		return wwr.NewSessionLookupResult(r.bystander.Creation(), r.bystander.Creation(), map[string]interface{}{"x": 1}), nil
	}
	r.m.OnClosed = func(string) error { r.enter(hookClosed, nil); return nil }
	nd.Calm(true)
	r.aside = hx.NewSock(256)
	r.bystander = r.Connect(r.aside, wwr.ConnectionOptions{})
	nd.Assert(r.bystander.CreateSession(nil) == nil, "session of another connection")
	r.sock = hx.NewSock(256)
	for i := range r.act {
		r.act[i] = -1
	}
	return r
}

// finish ends the connection and asserts that everything still works
func (r *reg) finish() {
	nd.Quiesce()
	if r.sock.IsConnected() {
		r.sock.In <- nil
		nd.Quiesce()
	}
	for h := range r.entered {
		nd.Assert(r.entered[h] == r.left[h], "hooks return")
	}
	nd.Assert(r.sock.Finished && r.disconnects == 1, "the connection ended")
	nd.Assert(!r.con.IsActive() && !r.con.HasSession(), "no session on an ended connection")
	nd.Assert(r.S.ActiveSessionsNum() == 1 && r.S.SessionConnectionsNum(r.bystander.SessionKey()) == 1, "the other connection's session is untouched")
	n := len(r.aside.Sent())
	r.aside.In <- hx.Request(0, hx.ID(9), []byte("r"), nil)
	nd.Quiesce()
	nd.Assert(len(r.aside.Sent()) == n+1 && r.aside.Sent()[n][0] == ref.ReplyBinary, "the other connection is served")
	nd.Assert(r.S.Shutdown() == nil, "shut down")
}

// H_Hooks: any two (3 thorough) of the hooks call any method of the connection, of another
// connection or of the server each, throughout the life of a connection with any
// limit
func H_Hooks() {
	limit := hx.Limit()
	r := start(limit)
	a := nd.Choice("hook", hooks)
	r.act[a] = nd.Choice("act", acts)
	for n := nd.Tier(); n >= 0; n-- {
		b := nd.Choice("hook", hooks)
		if r.act[b] >= 0 {
			break
		}
		r.act[b] = nd.Choice("act", acts)
	}
	go r.Serve(r.sock, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	prev := r.OnConnected
	r.OnConnected = func(o wwr.ConnectionOptions, c wwr.Connection) {
		r.con = c
		prev(o, c)
	}
	nd.Quiesce()
	for step := 0; step < 7 && r.sock.IsConnected(); step++ {
		switch step {
		case 0:
			r.sock.In <- hx.Signal(0, []byte("s"), nil)
		case 1:
			r.con.CreateSession(nil)
		case 2:
			r.sock.In <- hx.CloseSession(hx.AnyID())
		case 3:
			r.sock.In <- hx.Request(0, hx.AnyID(), []byte("r"), nil)
		case 4:
			r.sock.In <- hx.Restore(hx.AnyID(), "stored")
		case 5:
			if k := r.con.SessionKey(); k != "" {
				r.S.CloseSession(k)
			}
		}
		nd.Quiesce()
	}
	r.finish()
}

// H_Race: a hook calls a method of its connection while something else happens
// to the connection, in every interleaving: the hook returns
func H_Race() {
	r := start(0)
	r.calm = false
	a := 1 + nd.Choice("hook", 5)
	r.act[a] = nd.Choice("act", acts-1)
	r.con = r.Connect(r.sock, wwr.ConnectionOptions{ConcurrencyLimit: hx.Limit()})
	nd.Quiesce()
	if a == hookClosed {
		nd.Assert(r.con.CreateSession(nil) == nil, "created")
	}
	op := nd.Choice("op", 4)
	nd.Calm(false)
	go func() {
		switch a {
		case hookSignal:
			r.sock.In <- hx.Signal(0, []byte("s"), nil)
		case hookRequest:
			r.sock.In <- hx.Request(0, hx.ID(1), []byte("r"), nil)
		case hookCreated:
			r.con.CreateSession(nil)
		case hookLookup:
			r.sock.In <- hx.Restore(hx.ID(1), "stored")
		case hookClosed:
			r.con.CloseSession()
		}
	}()
	switch op {
	case 0:
		r.con.Close()
	case 1:
		r.sock.In <- nil
	case 2:
		r.con.CloseSession()
	case 3:
		r.con.CreateSession(nil)
	}
	nd.Quiesce()
	nd.Calm(true)
	r.finish()
}

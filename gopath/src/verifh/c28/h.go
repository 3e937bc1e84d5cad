// Package c28: connections can be used from many goroutines without data races.
package c28

import (
	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

type fields = map[string]interface{}

func world(n int) *hx.World {
	limit := hx.Limit()
	nd.Assume(limit >= 0) // 2 is as good as none
	w := hx.NewWorldLimit(n, 0, limit, "K0", "K1", "K2", "K3")
	w.Keys = append(w.Keys, "S")
	w.Signal = func(c wwr.Connection, m wwr.Message) {
		observe(c)
	}
	w.Request = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		observe(c)
		return wwr.Payload{Data: m.Payload()}, nil
	}
	return w
}

// observe looks at the session of a connection. It is there entirely or not at
// all
func observe(c wwr.Connection) {
	if s := c.Session(); s != nil {
		nd.Assert(s.Key != "" && !s.Creation.IsZero() && !s.LastLookup.IsZero(), "a session is complete")
		if s.Key == "K0" {
			nd.Assert(s.Info != nil && s.Info.Value("a") == true, "with its info")
		}
	}
}

const (
	opSession = iota
	opKey
	opHas
	opCreation
	opInfo
	opActive
	opStatic
	opSignal
	opCreate
	opCloseSess
	opClose
	opNum
	opConsNum
	opCons
	opKill
	opShutdown
	opInSignal
	opInRequest
	opInRestore
	opInRestoreOther
	opInCloseSess
	opHangup
	opOther // another connection
	ops
)

func do(w *hx.World, op int) {
	c, s := w.Cons[0], w.Socks[0]
	switch op {
	case opSession:
		observe(c)
	case opKey:
		k := c.SessionKey()
		nd.Assert(k == "" || k == "K0" || k == "K1" || k == "K2" || k == "S", "a known key")
	case opHas:
		c.HasSession()
	case opCreation:
		c.SessionCreation()
	case opInfo:
		v := c.SessionInfo("a")
		nd.Assert(v == nil || v == true, "info of the session")
	case opActive:
		c.IsActive()
	case opStatic:
		c.Info(1)
		c.RemoteAddr()
		nd.Assert(!c.Creation().IsZero(), "creation time")
	case opSignal:
		c.Signal([]byte("n"), wwr.Payload{Data: nd.Bytes("payload", 1)})
	case opCreate:
		c.CreateSession(wwr.GenericSessionInfoParser(fields{"a": true}))
	case opCloseSess:
		c.CloseSession()
	case opClose:
		c.Close()
	case opNum:
		w.S.ActiveSessionsNum()
	case opConsNum:
		w.S.SessionConnectionsNum(nd.String("key", 2))
	case opCons:
		for _, x := range w.S.SessionConnections("K0") {
			nd.Assert(x == w.Cons[0] || x == w.Cons[1], "a connection of the session")
		}
	case opKill:
		w.S.CloseSession(nd.String("key", 2))
	case opShutdown:
		w.S.Shutdown()
	case opInSignal:
		s.In <- hx.Signal(0, nil, nd.Bytes("payload", 1))
	case opInRequest:
		s.In <- hx.Request(0, hx.AnyID(), nil, nd.Bytes("payload", 1))
	case opInRestore:
		s.In <- hx.Restore(hx.AnyID(), "K0")
	case opInRestoreOther:
		s.In <- hx.Restore(hx.AnyID(), "S")
	case opInCloseSess:
		s.In <- hx.CloseSession(hx.AnyID())
	case opHangup:
		s.In <- nil
	case opOther:
		w.Socks[1].In <- hx.Restore(hx.AnyID(), "K0")
	}
}

// H_Pairs: every pair of methods and events on a connection with a session or
// none and any concurrency limit
//
//verif:opts races quick=300
func H_Pairs() {
	w := world(2)
	if nd.Choice("session", 2) == 1 {
		do(w, opCreate)
		nd.Quiesce()
	}
	w.M.Stored["S"] = wwr.NewSessionLookupResult(w.Cons[0].Creation(), w.Cons[0].Creation(), fields{"a": true})
	a := nd.Choice("a", ops)
	b := nd.Choice("b", ops)
	nd.Assume(a <= b)
	var da, db bool
	go func() { do(w, a); da = true }()
	go func() { do(w, b); db = true }()
	nd.Quiesce()
	nd.Assert(da && db, "both return")
	w.Check("pair")
}

// H_Triples: two events that change the connection, with an observer or
// (thorough) a third one
//
//verif:opts races quick=300
func H_Triples() {
	w := world(2)
	do(w, opCreate)
	nd.Quiesce()
	changes := []int{opCloseSess, opClose, opInRequest, opInRestoreOther, opHangup, opKill}
	i := nd.Choice("a", len(changes))
	j := nd.Choice("b", len(changes))
	k := len(changes)
	if nd.Tier() > 0 {
		k = nd.Choice("c", len(changes)+1)
	}
	nd.Assume(i < j && j < k)
	w.M.Stored["S"] = wwr.NewSessionLookupResult(w.Cons[0].Creation(), w.Cons[0].Creation(), fields{"a": true})
	n := 0
	var ok [3]bool
	go func() { do(w, changes[i]); ok[0] = true }()
	go func() { do(w, changes[j]); ok[1] = true }()
	go func() {
		if k < len(changes) {
			do(w, changes[k])
		} else {
			observe(w.Cons[0])
		}
		ok[2] = true
	}()
	nd.Quiesce()
	for _, x := range ok {
		if x {
			n++
		}
	}
	nd.Assert(n == 3, "all return")
	w.Check("triple")
}

// H_Connect: connections come and go
//
//verif:opts races quick=300
func H_Connect() {
	w := world(0)
	a, b := hx.NewSock(256), hx.NewSock(256)
	a.Script, b.Script = [][]byte{hx.Signal(0, nil, nd.Bytes("payload", 1))}, [][]byte{hx.Request(0, hx.AnyID(), nil, nd.Bytes("payload", 1))}
	a.End, b.End = true, nd.Choice("stay", 2) == 0
	o := hx.Options()
	nd.Assume(o.ConcurrencyLimit >= 0) // 2 is as good as none
	w.Start(a, o)
	w.Start(b, o)
	down := nd.Choice("shutdown", 2) == 1
	if down {
		go w.S.Shutdown()
	}
	nd.Quiesce()
	nd.Assert((a.Finished || down) && (b.Finished || !b.End || down), "connections end")
	for _, m := range b.Sent() {
		nd.Assert(m[0] == ref.ReplyBinary || m[0] == ref.ReplyShutdown, "replies only")
	}
}

// Package c18: a session ends exactly once, when its last holder closes it.
package c18

import (
	"errors"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"
)

// outcome makes the closure hook succeed, fail or panic
func outcome(w *hx.World) {
	w.M.OnClosed = func(key string) error {
		switch nd.Choice("hook", 3) {
		case 1:
			return errors.New("hook fails")
		case 2:
			panic("hook panics")
		}
		return nil
	}
}

func closed(w *hx.World, key string) (n int) {
	for _, k := range w.M.Closed {
		if k == key {
			n++
		}
	}
	return
}

// H_History: every history of 3 operations (4 thorough) on 2 connections with any
// keys of 2 bytes against a model, the closure hook succeeding, failing or panicking
//
//verif:opts quick=150
func H_History() {
	const cons = 2
	w := hx.NewWorld(cons, 0, "K0", "K1", "K2", "K3", "K4", "K5")
	outcome(w)
	var holds [cons]int // session of each connection or -1
	var alive [cons]bool
	for i := range holds {
		holds[i], alive[i] = -1, true
	}
	var want []string // expected closures
	next := 0
	holders := func(k int) (n int) {
		for _, h := range holds {
			if h == k {
				n++
			}
		}
		return
	}
	end := func(i int) { // connection i closes its session
		k := holds[i]
		holds[i] = -1
		if k >= 0 && holders(k) == 0 {
			want = append(want, w.Keys[k])
		}
	}
	start := nd.Choice("start", 3)
	if start > 0 {
		w.Do(hx.OpCreate, 0, 0)
		holds[0], next = 0, 1
		nd.Quiesce()
	}
	if start > 1 {
		w.Do(hx.OpRestore, 1, 0)
		holds[1] = 0
		nd.Quiesce()
	}
	for step := 0; step < 3+nd.Tier(); step++ {
		op := nd.Choice("op", hx.Ops)
		i, k := 0, 0
		if op != hx.OpKill {
			i = nd.Choice("con", cons)
			if !alive[i] {
				continue
			}
		}
		key := ""
		if op == hx.OpKill || op == hx.OpRestore {
			key, k = nd.String("key", 2), -1
			for x := 0; x < next; x++ {
				if nd.EqString(key, w.Keys[x]) {
					k = x
				}
			}
		}
		sent := len(w.Socks[i].Sent())
		had := holds[i]
		w.DoKey(op, i, key)
		nd.Quiesce()
		switch op {
		case hx.OpCreate:
			if had < 0 {
				holds[i] = next
				next++
			}
		case hx.OpRestore:
			was := k < 0 // ... closed before
			for _, x := range want {
				was = was || x == w.Keys[k]
			}
			if !was {
				holds[i] = k
				nd.Assert(w.Restored(i), "a session that wasn't closed is restored")
			} else {
				nd.Assert(w.Last(i) == ref.ReplySessNotFound, "a closed session is not found")
			}
		case hx.OpCloseSess, hx.OpClientSess:
			end(i)
			switch {
			case op == hx.OpClientSess:
				nd.Assert(len(w.Socks[i].Sent()) == sent+1, "the client's closure is confirmed")
				nd.Assert(hx.ParseReply(w.Socks[i].Sent()[sent]).PayLen == 0, "by an empty reply")
			case had >= 0:
				nd.Assert(len(w.Socks[i].Sent()) == sent+1 && w.Last(i) == ref.SessionClosed, "the client is notified of the closure")
			default:
				nd.Assert(len(w.Socks[i].Sent()) == sent, "nothing to close")
			}
		case hx.OpHangup, hx.OpClose:
			holds[i], alive[i] = -1, false
		case hx.OpKill:
			for c := range holds {
				if k >= 0 && holds[c] == k {
					end(c)
				}
			}
		}
		nd.Assert(len(w.M.Closed) == len(want), "the closure hook runs when the last holder closes a session")
		for x := range want {
			nd.Assert(w.M.Closed[x] == want[x], "for that session")
		}
		for c := range holds {
			key := ""
			if holds[c] >= 0 {
				key = w.Keys[holds[c]]
			}
			nd.Assert(w.Cons[c].SessionKey() == key, "session in place exactly if not closed")
			nd.Assert(w.Cons[c].IsActive() == alive[c], "the server carries on")
		}
		w.Check("history")
	}
}

// H_Race: one or two connections with any concurrency limit hold a session,
// another one doesn't; two operations at the same time
//
//verif:opts quick=150
func H_Race() {
	limit := hx.Limit()
	nd.Assume(limit >= 0) // 2 is as good as none
	w := hx.NewWorldLimit(3, 0, limit, "K0", "K1", "K2")
	w.Do(hx.OpCreate, 0, 0)
	n := 1 + nd.Choice("holders", 2)
	if n == 2 {
		w.Do(hx.OpRestore, 1, 0)
	}
	nd.Quiesce()
	nd.Assert(w.S.SessionConnectionsNum("K0") == n, "held")
	outcome(w)
	type action struct{ op, i int }
	pick := func() action {
		op := []int{hx.OpCloseSess, hx.OpClientSess, hx.OpHangup, hx.OpClose, hx.OpKill, hx.OpRestore}[nd.Choice("op", 6)]
		switch op {
		case hx.OpKill:
			return action{op, 0}
		case hx.OpRestore:
			return action{op, 2}
		}
		return action{op, nd.Choice("con", n)}
	}
	a, b := pick(), pick()
	nd.Assume(a.op < b.op || a.op == b.op && a.i <= b.i)
	go w.Do(a.op, a.i, 0)
	go w.Do(b.op, b.i, 0)
	nd.Quiesce()
	w.Check("race")
	left := w.S.SessionConnectionsNum("K0")
	c := closed(w, "K0")
	nd.Assert(len(w.M.Closed) == c, "no other session is closed")
	nd.Assert(c <= 1, "closed at most once")
	nd.Assert(c == 0 || left == -1, "not closed while it's held")

	explicit := func(x action) bool { return x.op == hx.OpCloseSess || x.op == hx.OpClientSess || x.op == hx.OpKill }
	kill := a.op == hx.OpKill || b.op == hx.OpKill
	restore := a.op == hx.OpRestore || b.op == hx.OpRestore
	drop := func(x action) bool { return x.op == hx.OpHangup || x.op == hx.OpClose }
	switch {
	case !explicit(a) && !explicit(b):
		nd.Assert(c == 0, "nobody closed it")
	case restore:
		nd.Assert(left >= 1 || c == 1, "somebody holds it or it was closed")
	case drop(a) || drop(b): // closed, unless the connection was gone by then
		if kill && n == 2 {
			nd.Assert(left == -1, "nobody holds it")
		}
	case kill || n == 1 || a.i != b.i:
		nd.Assert(c == 1 && left == -1, "the last holder closed it")
	default:
		nd.Assert(c == 0 && left == 1, "the other one holds it still")
	}
	if c > 0 {
		// it can't come back
		w.M.OnClosed = nil
		w.Do(hx.OpRestore, 2, 0)
		nd.Quiesce()
		nd.Assert(!w.Cons[2].HasSession(), "a closed session is gone")
	} else {
		outcome(w)
		for i := range w.Cons {
			w.Do(hx.OpCloseSess, i, 0)
			nd.Quiesce()
		}
		want := 0
		if left > 0 {
			want = 1
		}
		nd.Assert(closed(w, "K0") == want, "closed by the last one that held it")
	}
	w.Check("end")
}

// Package c17: a session never has more concurrent connections than the
// configured maximum.
package c17

import (
	"verifh/hx"
	"verifh/nd"
	"verifh/ref"
)

// world creates a server and makes it check the limit with everything it
// sends and with every hook
func world(n int, max uint) *hx.World {
	w := hx.NewWorldLimit(n, max, 0, "K0", "K1", "K2", "K3")
	limit := func() {
		k := w.S.SessionConnectionsNum("K0")
		nd.Assert(max == 0 || k <= 0 || uint(k) <= max, "never more connections than the maximum")
	}
	for _, s := range w.Socks {
		s.Tap = func(m []byte) { limit() }
	}
	w.M.OnClosed = func(k string) error { limit(); return nil }
	return w
}

// store puts session K0 into the storage
func store(w *hx.World) {
	w.Do(hx.OpCreate, 0, 0)
	nd.Quiesce()
	nd.Assert(w.Cons[0].SessionKey() == "K0", "session created")
}

// H_Concurrent: 2 connections (3 thorough) ask at the same time for a session
// that has one connection already or none, with any maximum or none: as many as
// fit get it
//
//verif:opts quick=120
func H_Concurrent() {
	max := nd.Uint64("max")
	held := nd.Choice("held", 2)
	n := 2 + nd.Tier()
	room := func(n int) int { // how many of n connections fit
		return nd.IteInt(nd.Or(max == 0, max >= uint64(n)), n, int(max))
	}
	w := world(1+n, uint(max))
	store(w)
	if held == 0 {
		w.Do(hx.OpHangup, 0, 0)
		nd.Quiesce()
	}
	for i := 1; i <= n; i++ {
		w.Do(hx.OpRestore, i, 0)
	}
	nd.Quiesce()
	ok := 0
	for i := 1; i <= n; i++ {
		nd.Assert(len(w.Socks[i].Sent()) == 1, "one reply each")
		if w.Restored(i) {
			ok++
			nd.Assert(w.Cons[i].SessionKey() == "K0", "restored where it says so")
		} else {
			nd.Assert(w.Last(i) == ref.ReplyMaxConns, "refused because of the maximum")
			nd.Assert(!w.Cons[i].HasSession(), "refused means no session")
		}
	}
	nd.Assert(ok+held == room(n+held), "exactly as many as fit")
	nd.Assert(w.S.SessionConnectionsNum("K0") == room(n+held), "all places taken")
	w.Check("concurrent")
}

// H_Sequence: connections ask for the session one after another, leave and ask
// again, for every maximum including none
//
//verif:opts quick=120
func H_Sequence() {
	max := nd.Uint64("max")
	w := world(3, uint(max))
	store(w)
	for step := 0; step < 3+nd.Tier(); step++ {
		i := nd.Choice("con", 3)
		before := w.S.SessionConnectionsNum("K0")
		if before < 0 {
			before = 0
		}
		mine := w.Cons[i].SessionKey() == "K0"
		switch nd.Choice("op", 3) {
		case 0:
			if !w.Socks[i].IsConnected() {
				continue
			}
			w.Do(hx.OpRestore, i, 0)
			nd.Quiesce()
			ok := w.Restored(i)
			if !ok {
				nd.Assert(w.Last(i) == ref.ReplyMaxConns, "refused because of the maximum")
			}
			if !mine {
				nd.Assert(ok == (max == 0 || uint64(before) < max), "admitted exactly if there is room")
			}
			nd.Assert((w.Cons[i].SessionKey() == "K0") == (ok || mine), "the reply tells the truth")
		case 1:
			if !w.Socks[i].IsConnected() {
				continue
			}
			w.Do(hx.OpHangup, i, 0)
			nd.Quiesce()
			nd.Assert(w.Cons[i].SessionKey() == "", "left")
		case 2: // an own session instead
			w.Do(hx.OpCreate, i, 0)
			nd.Quiesce()
		}
		w.Check("sequence")
	}
}

// H_Leave: one of 1 or 2 (3 thorough) connections leaves a session while another
// one asks for it, with any maximum or none
//
//verif:opts quick=120
func H_Leave() {
	max := nd.Uint64("max")
	n := 1 + nd.Choice("holders", 2+nd.Tier())
	nd.Assume(nd.Or(max == 0, max >= uint64(n)))
	full := nd.Not(nd.Or(max == 0, max > uint64(n)))
	w := world(n+1, uint(max))
	store(w)
	for i := 1; i < n; i++ {
		w.Do(hx.OpRestore, i, 0)
		nd.Quiesce()
	}
	nd.Assert(w.S.SessionConnectionsNum("K0") == n, "all of them hold it")
	op := []int{hx.OpCloseSess, hx.OpClientSess, hx.OpHangup, hx.OpClose, hx.OpRestore}[nd.Choice("leave", 5)]
	destroys := op == hx.OpCloseSess || op == hx.OpClientSess
	if op == hx.OpRestore { // takes another session instead
		w.M.Stored["K3"] = w.M.Stored["K0"]
		go w.Do(op, 0, 3)
	} else {
		go w.Do(op, 0, 0)
	}
	w.Do(hx.OpRestore, n, 0)
	nd.Quiesce()
	w.Check("leave")
	nd.Assert(w.Cons[0].SessionKey() != "K0", "left")
	switch {
	case w.Restored(n):
		nd.Assert(w.S.SessionConnectionsNum("K0") == n, "place taken over")
		return
	case w.Last(n) == ref.ReplySessNotFound:
		nd.Assert(destroys && n == 1, "destroyed by its last connection")
		return
	}
	nd.Assert(w.Last(n) == ref.ReplyMaxConns && full, "refused because of the maximum")
	// the place is free now
	w.Do(hx.OpRestore, n, 0)
	nd.Quiesce()
	if destroys && n == 1 {
		nd.Assert(w.Last(n) == ref.ReplySessNotFound, "destroyed by its last connection")
	} else {
		nd.Assert(w.Restored(n), "the place is free")
	}
	w.Check("retry")
}

// H_Create: a created session counts, too
func H_Create() {
	max := nd.Uint64("max")
	w := hx.NewWorld(3, uint(max), "K0", "K0", "K0")
	for i := 0; i < 3; i++ {
		err := w.Cons[i].CreateSession(nil)
		ok := max == 0 || uint64(i) < max
		nd.Assert((err == nil) == ok, "created exactly if there is room")
		nd.Assert((w.Cons[i].SessionKey() == "K0") == ok, "assigned exactly if created")
		nd.Assert((len(w.Socks[i].Sent()) == 1) == ok, "announced exactly if created")
	}
	n := nd.IteInt(nd.Or(max == 0, max >= 3), 3, int(max))
	nd.Assert(w.S.SessionConnectionsNum("K0") == n && len(w.S.SessionConnections("K0")) == n, "all of them listed")
}

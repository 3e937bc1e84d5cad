// Package c16: the session registry always equals the set of live session
// connections.
package c16

import (
	"verifh/hx"
	"verifh/nd"
)

// pick chooses an operation on any connection with any key of 2 bytes
func pick(w *hx.World) (op, i int, key string) {
	op = nd.Choice("op", hx.Ops)
	if op != hx.OpKill {
		i = nd.Choice("con", len(w.Cons))
	}
	if op == hx.OpKill || op == hx.OpRestore {
		key = nd.String("key", 2)
	}
	return
}

// H_History: every history of 3 operations (4 thorough) on 2 connections (3
// thorough) with any keys of 2 bytes and any maximum of connections per session,
// starting from a session or none
//
//verif:opts quick=120
func H_History() {
	w := hx.NewWorld(2+nd.Tier(), uint(nd.Uint64("max")), "K0", "K1", "K2", "K3", "K4")
	if nd.Choice("start", 2) == 1 {
		w.Do(hx.OpCreate, 0, 0)
		w.Do(hx.OpRestore, 1, 0)
		nd.Quiesce()
		w.Check("start")
	}
	for i := 0; i < 3+nd.Tier(); i++ {
		w.DoKey(pick(w))
		nd.Quiesce()
		w.Check("history")
	}
}

// H_Race: two connections hold none, different sessions or the same one; two
// operations at the same time, on the same or different connections with any
// concurrency limit (none is as good as 2) and any keys of 2 bytes
//
//verif:opts quick=120
func H_Race() {
	limit := hx.Limit()
	nd.Assume(limit >= 0)
	w := hx.NewWorldLimit(2, 0, limit, "K0", "K1", "K2", "K3", "K4")
	switch nd.Choice("start", 4) {
	case 1:
		w.Do(hx.OpCreate, 0, 0)
	case 2:
		w.Do(hx.OpCreate, 0, 0)
		w.Do(hx.OpCreate, 1, 0)
	case 3:
		w.Do(hx.OpCreate, 0, 0)
		w.Do(hx.OpRestore, 1, 0)
	}
	nd.Quiesce()
	w.Check("start")
	op1, i1, k1 := pick(w)
	op2, i2, k2 := pick(w)
	nd.Assume(op1 <= op2)
	go w.DoKey(op1, i1, k1)
	go w.DoKey(op2, i2, k2)
	nd.Quiesce()
	w.Check("race")
	for i := range w.Cons {
		w.Do(hx.OpHangup, i, 0)
		nd.Quiesce()
	}
	w.Check("hangup")
	nd.Assert(w.S.ActiveSessionsNum() == 0, "no entry outlives its connection")
}

// H_Many: one session on up to 4 connections, with any maximum; after any of them left it, the
// others are listed
func H_Many() {
	n := 4
	w := hx.NewWorld(n, uint(nd.Uint64("max")), "K0", "K1", "K2", "K3", "K4")
	w.Do(hx.OpCreate, 0, 0)
	for i := 1; i < n; i++ {
		w.Do(hx.OpRestore, i, 0)
		nd.Quiesce()
		w.Check("joined")
	}
	for left := 0; left < 2; left++ {
		w.Do([]int{hx.OpHangup, hx.OpClose, hx.OpCloseSess, hx.OpClientSess}[nd.Choice("op", 4)], nd.Choice("con", n), 0)
		nd.Quiesce()
		w.Check("left")
	}
	for i := range w.Cons {
		w.Do(hx.OpHangup, i, 0)
		nd.Quiesce()
	}
	w.Check("hangup")
	nd.Assert(w.S.ActiveSessionsNum() == 0, "no entry outlives its connection")
}

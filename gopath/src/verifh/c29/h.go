// Package c29: closing a session from the server side reaches every one of its
// connections.
package c29

import (
	"errors"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

// H_Close: 3 connections hold one of 2 sessions or none, notifying any of them
// may fail at any step; any key of the same length is closed
//
//verif:opts quick=150
func H_Close() {
	const n = 3
	w := hx.NewWorld(n, 0, "K0", "K1")
	// the sessions are stored already
	stored := wwr.NewSessionLookupResult(w.Cons[0].Creation(), w.Cons[0].Creation(), nil)
	w.M.Stored["K0"], w.M.Stored["K1"] = stored, stored
	var holds [n]string
	for i := range holds {
		if k := nd.Choice("holds", 3); k < 2 {
			holds[i] = w.Keys[k]
			w.Do(hx.OpRestore, i, k)
			nd.Quiesce()
			nd.Assert(w.Cons[i].SessionKey() == holds[i], "session restored")
		}
	}
	key := nd.String("key", 2)
	is := ""
	for _, k := range w.Keys {
		if nd.EqString(key, k) {
			is = k
		}
	}
	var fails [n]bool
	var sent [n]int
	want, bad := 0, 0
	for i, s := range w.Socks {
		sent[i] = len(s.Sent())
		if holds[i] == "" || holds[i] != is {
			continue
		}
		want++
		switch nd.Choice("fault", 4) {
		case 0:
			continue
		case 1:
			s.FailGet = s.Gets() + 1
		case 2:
			s.FailWrite = s.Writes() + 1
		case 3:
			s.FailClose = s.Flushes() + 1
		}
		fails[i] = true
		bad++
	}
	switch nd.Choice("hook", 3) {
	case 1:
		w.M.OnClosed = func(string) error { return errors.New("hook fails") }
	case 2:
		w.M.OnClosed = func(string) error { panic("hook panics") }
	}

	cons, errs, err := w.S.CloseSession(key)
	if want == 0 {
		nd.Cover("nothing to close")
		nd.Assert(cons == nil && errs == nil && err == nil, "nothing to close")
		nd.Assert(len(w.M.Closed) == 0, "nothing is destroyed")
	} else {
		nd.Cover("closed")
		nd.Assert(len(cons) == want && len(errs) == want, "as many results as connections")
		nd.Assert((err != nil) == (bad > 0), "an error exactly if one of them failed")
		nd.Assert(len(w.M.Closed) == 1 && w.M.Closed[0] == is, "destroyed once")
	}
	for i, c := range w.Cons {
		found := 0
		for j, x := range cons {
			if x == c {
				found++
				nd.Assert((errs[j] != nil) == fails[i], "its own outcome")
			}
		}
		if holds[i] == "" || holds[i] != is {
			nd.Assert(found == 0, "other connections aren't affected")
			nd.Assert(c.SessionKey() == holds[i], "other sessions are left alone")
			nd.Assert(len(w.Socks[i].Sent()) == sent[i], "others aren't notified")
			continue
		}
		nd.Assert(found == 1, "every connection of the session is affected")
		nd.Assert(!c.HasSession() && c.IsActive(), "session closed, connection alive")
		if fails[i] {
			nd.Assert(len(w.Socks[i].Sent()) == sent[i], "not notified")
		} else {
			nd.Assert(len(w.Socks[i].Sent()) == sent[i]+1 && w.Last(i) == ref.SessionClosed && len(w.Socks[i].Sent()[sent[i]]) == 1, "notified once")
		}
	}
	w.Check("closed")

	// it's gone
	cons, errs, err = w.S.CloseSession(key)
	nd.Assert(cons == nil && errs == nil && err == nil, "nothing left to close")
	if want > 0 {
		nd.Assert(len(w.M.Closed) == 1, "not destroyed again")
	}
}

// H_Disabled: without sessions there's nothing to close
func H_Disabled() {
	s := hx.NewServer(hx.Plain(64))
	cons, errs, err := s.S.CloseSession(nd.String("key", nd.Choice("length", 3)))
	nd.Assert(cons == nil && errs == nil && err == nil, "nothing to close")
	nd.Assert(s.S.SessionConnections("") == nil && s.S.SessionConnectionsNum("") == -1, "nothing listed")
}

// H_Race: a session is closed while its connections end, close it, switch to
// another one, or another connection joins or closes it, too
//
//verif:opts quick=150
func H_Race() {
	w := hx.NewWorld(3, 0, "K0", "K1", "K2")
	w.Do(hx.OpCreate, 0, 0)
	n := 1 + nd.Choice("holders", 2)
	if n == 2 {
		w.Do(hx.OpRestore, 1, 0)
	}
	nd.Quiesce()
	w.M.Stored["K1"] = w.M.Stored["K0"]
	w.Do(hx.OpRestore, 2, 1) // K1 is somebody else's
	nd.Quiesce()

	var cons, cons2 []wwr.Connection
	var errs []error
	var err error
	done := false
	go func() {
		cons, errs, err = w.S.CloseSession("K0")
		done = true
	}()
	op := nd.Choice("op", 8)
	go func() {
		switch op {
		case 0:
			w.Do(hx.OpRestore, 0, 1) // switches
		case 1:
			w.Do(hx.OpRestore, 2, 0) // joins
		case 2:
			w.Do(hx.OpCloseSess, 0, 0)
		case 3:
			w.Do(hx.OpClientSess, 0, 0)
		case 4:
			w.Do(hx.OpHangup, 0, 0)
		case 5:
			w.Do(hx.OpClose, 0, 0)
		case 6:
			cons2, _, _ = w.S.CloseSession("K0")
		case 7:
			w.S.CloseSession("K1")
		}
	}()
	nd.Quiesce()
	nd.Assert(done, "finished")
	w.Check("race")
	nd.Assert(len(cons) == len(errs), "one outcome each")
	bad := false
	for _, e := range errs {
		bad = bad || e != nil
	}
	nd.Assert(bad == (err != nil), "an error exactly if one of them failed")
	for i, c := range cons {
		for _, d := range cons[:i] {
			nd.Assert(c != d, "every connection once")
		}
		for _, d := range cons2 {
			nd.Assert(c != d, "closed by one of them")
		}
	}
	k0, k1 := 0, 0
	for _, k := range w.M.Closed {
		switch k {
		case "K0":
			k0++
		case "K1":
			k1++
		}
	}
	nd.Assert(k0 <= 1 && k1 <= 1, "destroyed once")
	nd.Assert(w.S.SessionConnectionsNum("K0") == -1, "nobody holds it")
	if op == 7 {
		nd.Assert(k1 == 1 && w.S.SessionConnectionsNum("K1") == -1, "so does the other closure")
	} else if op != 1 {
		nd.Assert(k1 == 0 && w.Cons[2].SessionKey() == "K1", "others are left alone")
	}
	switch op {
	case 0:
		nd.Assert(w.Cons[0].SessionKey() == "K1", "the session switched to is left alone")
		if n == 2 {
			nd.Assert(k0 == 1, "closed by the other connection")
		}
	case 1, 2, 3, 6, 7:
		nd.Assert(k0 == 1, "destroyed exactly once")
	}
	if op == 6 {
		nd.Assert(len(cons)+len(cons2) == n, "every connection is reported by one of them")
	}
}

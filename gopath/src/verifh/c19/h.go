// Package c19: creating a session is all or nothing.
package c19

import (
	"encoding/json"
	"errors"
	"unicode/utf8"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

type fields = map[string]interface{}

// nothing asserts that a failed creation left nothing behind
func nothing(w *hx.World, i int, key, before string, what string) {
	nd.Assert(w.Cons[i].SessionKey() == before, what+": session unchanged")
	nd.Assert(w.Cons[i].HasSession() == (before != ""), what+": no session")
	nd.Assert(w.S.SessionConnectionsNum(key) == -1 && w.S.SessionConnections(key) == nil, what+": not listed")
	n := 0
	if before != "" {
		n = 1
	}
	nd.Assert(w.S.ActiveSessionsNum() == n, what+": no session more")
	for _, k := range w.M.Created {
		nd.Assert(k == before && k != "", what+": the manager isn't told")
	}
	nd.Assert(len(w.M.Closed) == 0, what+": nothing to destroy")
}

// H_Success: arbitrary info; the manager, the client, the connection and the
// registry agree on the session
func H_Success() {
	key := nd.String("key", 3)
	for i := range key {
		nd.Assume(nd.And(nd.And(key[i] > 32, key[i] < 127), nd.Not(nd.Or(nd.Or(key[i] == '"', key[i] == '\\'), nd.Or(key[i] == '&', nd.Or(key[i] == '<', key[i] == '>'))))))
	}
	w := hx.NewWorld(1, 0, key)
	var info wwr.SessionInfo
	n := nd.Choice("fields", 5)
	val := nd.String("value", 1+nd.Choice("value length", 2))
	nd.Assume(utf8.ValidString(val))
	flag := nd.Bool("flag")
	if n > 0 {
		f := fields{"a": val}
		if n > 1 {
			f["b"] = flag
		}
		if n > 2 {
			f["nothing"] = nil
		}
		if n > 3 {
			f["list"] = []interface{}{val, nil, map[string]interface{}{"c": flag}}
		}
		info = wwr.GenericSessionInfoParser(f)
	}
	managed := 0
	w.M.OnCreate = func(c wwr.Connection) error {
		managed++
		nd.Assert(c == w.Cons[0] && c.SessionKey() == key, "the manager gets the connection with its session")
		nd.Assert(len(w.Socks[0].Sent()) == 1, "the client is notified first")
		if nd.Choice("manager", 2) == 1 {
			return errors.New("manager fails")
		}
		return nil
	}
	nd.Assert(w.Cons[0].CreateSession(info) == nil, "created")
	nd.Assert(managed == 1, "the manager is told once")
	sess := w.Cons[0].Session()
	nd.Assert(sess != nil && nd.EqString(sess.Key, key), "the connection has the session")
	nd.Assert(nd.EqString(w.Cons[0].SessionKey(), key) && w.Cons[0].HasSession(), "and says so")
	nd.Assert(w.Cons[0].SessionCreation().Equal(sess.Creation) && sess.LastLookup.Equal(sess.Creation), "creation time")
	nd.Assert(w.S.ActiveSessionsNum() == 1 && w.S.SessionConnectionsNum(key) == 1, "listed")
	l := w.S.SessionConnections(key)
	nd.Assert(len(l) == 1 && l[0] == w.Cons[0], "with its connection")

	// the notification
	out := w.Socks[0].Sent()
	nd.Assert(len(out) == 1 && out[0][0] == ref.SessionCreated, "one notification")
	var js wwr.JSONEncodedSession
	nd.Assert(json.Unmarshal(out[0][1:], &js) == nil, "the notification is JSON")
	nd.Assert(nd.EqString(js.Key, key), "notified key")
	nd.Assert(js.Creation.Equal(sess.Creation) && js.LastLookup.Equal(sess.LastLookup), "notified times")
	nd.Assert(len(js.Info) == n, "notified fields")
	if n == 0 {
		nd.Assert(sess.Info == nil, "no info")
		return
	}
	a, ok := js.Info["a"].(string)
	nd.Assert(ok && nd.EqString(a, val), "notified info")
	nd.Assert(nd.EqString(w.Cons[0].SessionInfo("a").(string), val) && nd.EqString(sess.Info.Value("a").(string), val), "info of the connection")
	if n > 1 {
		nd.Assert(js.Info["b"] == flag && w.Cons[0].SessionInfo("b") == flag, "second field")
	}
	if n > 2 {
		v, has := js.Info["nothing"]
		nd.Assert(has && v == nil && w.Cons[0].SessionInfo("nothing") == nil, "field without a value")
	}
	if n > 3 {
		for _, v := range []interface{}{js.Info["list"], w.Cons[0].SessionInfo("list")} {
			l, ok := v.([]interface{})
			nd.Assert(ok && len(l) == 3 && nd.EqString(l[0].(string), val) && l[1] == nil, "list")
			m, ok := l[2].(map[string]interface{})
			nd.Assert(ok && len(m) == 1 && m["c"] == flag, "nested field")
		}
	}
	nd.Assert(w.Cons[0].SessionInfo("c") == nil, "no other field")
}

type odd struct{ wwr.SessionInfo }

func (o odd) Copy() wwr.SessionInfo    { return o }
func (o odd) Fields() []string         { return []string{"f"} }
func (o odd) Value(string) interface{} { return make(chan int) }

// H_Failure: every reason to fail, with and without a session present. The
// creation can be tried again
func H_Failure() {
	w := hx.NewWorld(2, 1, "K0", "K1", "K2")
	c, s := w.Cons[0], w.Socks[0]
	var info wwr.SessionInfo
	before, key := "", "K0"
	retry := true
	why := nd.Choice("why", 9)
	switch why {
	case 0: // already present
		nd.Assert(c.CreateSession(nil) == nil, "first creation")
		before, key = "K0", "K1"
	case 1:
		s.FailGet = s.Gets() + 1
	case 2:
		s.FailWrite = 1 + nd.Choice("write", 2) + s.Writes()
	case 3:
		s.FailClose = 1 + s.Flushes()
	case 4: // the notification doesn't fit
		n := nd.Int("limit", 1, 20)
		old := s.Limit
		s.Limit = n
		defer func() { s.Limit = old }()
		retry = false
	case 5: // not encodable
		info = odd{}
	case 6: // disconnected by the client
		w.Do(hx.OpHangup, 0, 0)
		nd.Quiesce()
		retry = false
	case 7: // disconnected by the server
		c.Close()
		nd.Quiesce()
		retry = false
	case 8: // another connection holds the key and there's no room for more
		w.M.Keys = []string{"K2", "K2", "K1"}
		nd.Assert(w.Cons[1].CreateSession(nil) == nil, "other session")
		sent := len(s.Sent())
		nd.Assert(c.CreateSession(nil) != nil, "refused")
		nd.Assert(!c.HasSession() && c.SessionKey() == "" && len(s.Sent()) == sent, "no session")
		nd.Assert(w.S.SessionConnectionsNum("K2") == 1 && w.S.SessionConnections("K2")[0] == w.Cons[1], "the other one's session is unchanged")
		nd.Assert(len(w.M.Created) == 1, "the manager isn't told")
		nd.Assert(c.CreateSession(nil) == nil && c.SessionKey() == "K1", "next one is created")
		w.Check("collision")
		return
	}
	sent := len(s.Sent())
	nd.Assert(c.CreateSession(info) != nil, "failure reported")
	nothing(w, 0, key, before, "failed")
	nd.Assert(len(s.Sent()) == sent, "the client isn't notified")
	w.Check("failed")
	if retry && before == "" {
		nd.Assert(c.CreateSession(nil) == nil, "created at last")
		nd.Assert(c.SessionKey() == "K1" && w.S.SessionConnectionsNum("K1") == 1, "listed at last")
		nd.Assert(len(s.Sent()) == sent+1 && s.Sent()[sent][0] == ref.SessionCreated, "notified at last")
		nd.Assert(len(w.M.Created) == 1 && w.M.Created[0] == "K1", "the manager is told at last")
	}
	w.Check("end")
}

// H_Disabled: no sessions without sessions
func H_Disabled() {
	s := hx.NewServer(hx.Plain(256))
	sock := hx.NewSock(256)
	c := s.Connect(sock, wwr.ConnectionOptions{})
	_, ok := c.CreateSession(nil).(wwr.ErrSessionsDisabled)
	nd.Assert(ok, "creation refused")
	_, ok = c.CloseSession().(wwr.ErrSessionsDisabled)
	nd.Assert(ok, "closure refused")
	nd.Assert(!c.HasSession() && c.Session() == nil && c.SessionKey() == "" && c.SessionInfo("a") == nil && c.SessionCreation().IsZero(), "no session")
	nd.Assert(s.S.ActiveSessionsNum() == 0 && len(sock.Sent()) == 0, "nothing happened")
}

// H_Race: a creation while the connection ends, while another session is
// created or restored, or while the session is closed
func H_Race() {
	w := hx.NewWorld(2, 0, "K0", "K1", "K2")
	w.Do(hx.OpCreate, 1, 0) // K0 is somebody else's
	nd.Quiesce()
	var err, err2 error
	done := false
	go func() {
		err = w.Cons[0].CreateSession(nil)
		done = true
	}()
	op := nd.Choice("op", hx.Ops-1)
	go func() {
		if op == hx.OpCreate {
			err2 = w.Cons[0].CreateSession(nil)
			return
		}
		w.Do(op, 0, 0)
	}()
	nd.Quiesce()
	nd.Assert(done, "finished")
	w.Check("race")
	notified := 0
	for _, m := range w.Socks[0].Sent() {
		if m[0] == ref.SessionCreated {
			notified++
		}
	}
	key := w.Cons[0].SessionKey()
	switch op {
	case hx.OpCreate:
		nd.Assert((err == nil) != (err2 == nil), "exactly one creation succeeds")
		nd.Assert(notified == 1 && len(w.M.Created) == 2 && key != "", "and has its effect")
	case hx.OpRestore:
		nd.Assert(w.Restored(0) || err == nil, "one of them succeeds")
		nd.Assert(key == "K0" || err == nil && key == "K1", "either session")
		nd.Assert((err == nil) == (notified == 1), "notified exactly if created")
	case hx.OpCloseSess, hx.OpClientSess:
		nd.Assert(err == nil && notified == 1, "created")
		nd.Assert(key == "K1" || key == "" && len(w.M.Closed) == 1 && w.M.Closed[0] == "K1", "closed afterwards if at all")
	default:
		nd.Assert(key == "", "gone")
		if err != nil {
			nd.Assert(len(w.M.Created) == 1, "the manager isn't told of a failed creation")
		}
	}
}

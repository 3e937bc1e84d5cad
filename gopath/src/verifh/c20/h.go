// Package c20: restoring a session gives exactly the stored session or a
// precise refusal.
package c20

import (
	"encoding/json"
	"errors"
	"time"
	"unicode/utf8"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

type fields = map[string]interface{}

var (
	created = time.Date(2019, 3, 4, 5, 6, 7, 891000000, time.UTC)
	looked  = time.Date(2020, 4, 5, 6, 7, 8, 0, time.UTC)
)

// plain assumes that JSON represents the key as it is
func plain(key string) {
	for i := range key {
		nd.Assume(nd.And(nd.And(key[i] > 32, key[i] < 127), nd.Not(nd.Or(nd.Or(key[i] == '"', key[i] == '\\'), nd.Or(key[i] == '&', nd.Or(key[i] == '<', key[i] == '>'))))))
	}
}

// reply returns the only message sent since and asserts it answers the request
func reply(w *hx.World, i, since int, id []byte) hx.Reply {
	out := w.Socks[i].Sent()
	nd.Assert(len(out) == since+1, "one reply")
	r := hx.ParseReply(out[since])
	hx.Same(r.ID(), id, "identifier")
	return r
}

// H_Found: a stored session is restored on a connection that has another
// session, the same one, or none
//
//verif:opts quick=120
func H_Found() {
	key := nd.String("key", 1+nd.Choice("keylen", 2))
	plain(key)
	w := hx.NewWorld(2, 0, "PREVIOUS")
	w.Keys = []string{"PREVIOUS", key}
	val := nd.String("value", 1+nd.Choice("valuelen", 1+nd.Tier()))
	nd.Assume(utf8.ValidString(val))
	n := nd.Choice("fields", 3)
	var info fields
	if n > 0 {
		info = fields{"a": val}
	}
	if n > 1 {
		info["b"] = []interface{}{true, nil}
	}
	w.M.OnLookup = func(k string) (wwr.SessionLookupResult, error) {
		nd.Assert(nd.EqString(k, key), "the requested key is looked up")
		return wwr.NewSessionLookupResult(created, looked, info), nil
	}
	prev := nd.Choice("previous", 4)
	switch prev {
	case 1:
		nd.Assert(w.Cons[0].CreateSession(nil) == nil, "previous session")
	case 2: // shared with another connection
		nd.Assert(w.Cons[0].CreateSession(nil) == nil, "previous session")
		w.M.OnLookup, w.M.Stored = nil, w.M.Stored
		w.Do(hx.OpRestore, 1, 0)
		nd.Quiesce()
		nd.Assert(w.S.SessionConnectionsNum("PREVIOUS") == 2, "shared")
		w.M.OnLookup = func(k string) (wwr.SessionLookupResult, error) {
			return wwr.NewSessionLookupResult(created, looked, info), nil
		}
	case 3: // the same one
		w.Socks[0].In <- hx.Restore(hx.ID(9), key)
		nd.Quiesce()
	}
	lookups := len(w.M.Lookups)
	since := len(w.Socks[0].Sent())
	id := nd.Bytes("id", 8)
	w.Socks[0].In <- hx.Restore(id, key)
	nd.Quiesce()

	r := reply(w, 0, since, id)
	nd.Assert(r.Type == ref.ReplyUtf8, "restored")
	nd.Assert(len(w.M.Lookups) == lookups+1 && w.M.Lookups[lookups] == key, "looked up once")
	var js wwr.JSONEncodedSession
	nd.Assert(json.Unmarshal(r.Payload(), &js) == nil, "JSON")
	nd.Assert(nd.EqString(js.Key, key), "key replied")
	nd.Assert(js.Creation.Equal(created) && js.LastLookup.Equal(looked), "times replied")
	nd.Assert(len(js.Info) == n, "fields replied")

	c := w.Cons[0]
	s := c.Session()
	nd.Assert(s != nil && nd.EqString(s.Key, key) && c.SessionKey() == key, "key of the connection")
	nd.Assert(s.Creation.Equal(created) && s.LastLookup.Equal(looked) && c.SessionCreation().Equal(created), "times of the connection")
	if n > 0 {
		nd.Assert(nd.EqString(js.Info["a"].(string), val), "info replied")
		nd.Assert(nd.EqString(c.SessionInfo("a").(string), val), "info of the connection")
		nd.Assert(len(s.Info.Fields()) == n, "fields of the connection")
	}
	if n > 1 {
		l, ok := js.Info["b"].([]interface{})
		nd.Assert(ok && len(l) == 2 && l[0] == true && l[1] == nil, "nested info replied")
	}
	nd.Assert(len(w.M.Closed) == 0, "nothing is destroyed")
	left := -1
	if prev == 2 {
		left = 1
		nd.Assert(w.Cons[1].SessionKey() == "PREVIOUS", "others keep the previous session")
	}
	nd.Assert(w.S.SessionConnectionsNum("PREVIOUS") == left, "previous session left")
	w.Check("restored")
}

// H_Refused: every reason to refuse, with or without a previous session, any
// key. Nothing changes and it can be tried again
//
//verif:opts quick=120
func H_Refused() {
	key := nd.String("key", 1+nd.Choice("keylen", 2+nd.Tier()))
	why := nd.Choice("why", 6)
	any := nd.Choice("any", 2) == 1 // any key, or one that can be restored
	if !any {
		plain(key)
	}
	nd.Assume(!any || why != 2 && why != 4) // the key is encoded as JSON
	max := uint(0)
	if why == 3 {
		max = 1
	}
	w := hx.NewWorld(2, max, "PREVIOUS", "OTHER")
	for _, k := range w.Keys {
		if len(k) == len(key) {
			nd.Assume(nd.Not(nd.EqString(key, k)))
		}
	}
	found := func(k string) (wwr.SessionLookupResult, error) {
		return wwr.NewSessionLookupResult(created, looked, nil), nil
	}
	want := byte(ref.ReplyInternalError)
	looks := 1
	switch why {
	case 0:
		want = ref.ReplySessNotFound
		w.M.OnLookup = func(k string) (wwr.SessionLookupResult, error) { return nil, nil }
	case 1:
		w.M.OnLookup = func(k string) (wwr.SessionLookupResult, error) { return nil, errors.New("secret") }
	case 2: // not encodable
		w.M.OnLookup = func(k string) (wwr.SessionLookupResult, error) {
			return wwr.NewSessionLookupResult(created, looked, fields{"f": make(chan int)}), nil
		}
	case 3: // no room
		want, looks = ref.ReplyMaxConns, 0
		w.M.OnLookup = found
		w.Keys = append(w.Keys, key)
		if any {
			plain(key)
		}
		w.Socks[1].In <- hx.Restore(hx.ID(1), key)
		nd.Quiesce()
		nd.Assert(w.Cons[1].HasSession(), "held by another connection")
		w.M.Lookups = nil
	case 4: // doesn't fit the buffer
		text := make([]byte, 256)
		for i := range text {
			text[i] = 'x'
		}
		w.M.OnLookup = func(k string) (wwr.SessionLookupResult, error) {
			return wwr.NewSessionLookupResult(created, looked, fields{"f": string(text)}), nil
		}
	case 5: // an error along with a result
		w.M.OnLookup = func(k string) (wwr.SessionLookupResult, error) {
			r, _ := found(k)
			return r, errors.New("secret")
		}
	}
	had := ""
	if nd.Choice("previous", 2) == 1 {
		nd.Assert(w.Cons[0].CreateSession(nil) == nil, "previous session")
		had = "PREVIOUS"
	}
	for try := 0; try < 2; try++ {
		since := len(w.Socks[0].Sent())
		lookups := len(w.M.Lookups)
		id := nd.Bytes("id", 8)
		w.Socks[0].In <- hx.Restore(id, key)
		nd.Quiesce()
		r := reply(w, 0, since, id)
		nd.Assert(r.Type == want, "the matching refusal")
		nd.Assert(len(r.Raw) == 9, "and nothing else")
		nd.Assert(len(w.M.Lookups) == lookups+looks || why == 3, "looked up once")
		if len(w.M.Lookups) > lookups {
			nd.Assert(nd.EqString(w.M.Lookups[lookups], key), "under the requested key")
		}
		nd.Assert(w.Cons[0].SessionKey() == had, "session unchanged")
		nd.Assert(w.Cons[0].IsActive(), "connection unharmed")
		holders := -1
		if why == 3 {
			holders = 1
		}
		nd.Assert(w.S.SessionConnectionsNum(key) == holders, "not listed")
		nd.Assert(len(w.M.Closed) == 0, "nothing is destroyed")
		w.Check("refused")
	}
	if why == 3 { // the other connection leaves
		w.Do(hx.OpHangup, 1, 0)
		nd.Quiesce()
	}
	if any {
		return
	}
	w.M.OnLookup = found
	w.Socks[0].In <- hx.Restore(hx.ID(1), key)
	nd.Quiesce()
	nd.Assert(w.Restored(0) && w.Cons[0].SessionKey() == key, "restored at last")
}

// H_Disabled: sessions disabled
func H_Disabled() {
	s := hx.NewServer(hx.Plain(64))
	sock := hx.NewSock(64)
	c := s.Connect(sock, wwr.ConnectionOptions{})
	nd.Quiesce()
	id := nd.Bytes("id", 8)
	if nd.Choice("request", 2) == 0 {
		sock.In <- hx.Restore(id, nd.String("key", 1+nd.Choice("keylen", 3)))
	} else {
		sock.In <- hx.CloseSession(id)
	}
	nd.Quiesce()
	nd.Assert(len(sock.Sent()) == 1, "one reply")
	r := hx.ParseReply(sock.Sent()[0])
	hx.Same(r.ID(), id, "identifier")
	nd.Assert(r.Type == ref.ReplySessDisabled && len(r.Raw) == 9, "sessions disabled")
	nd.Assert(!c.HasSession() && c.IsActive() && s.S.ActiveSessionsNum() == 0, "nothing happened")
}

// H_Parser: the info of the connection is what the parser makes of the stored
// one
func H_Parser() {
	m := hx.NewMgr()
	o := hx.Sessions(256, m)
	var parsed []fields
	null := nd.Choice("info", 2) == 0
	val := nd.Int("value", 0, 9)
	o.SessionInfoParser = func(d map[string]interface{}) wwr.SessionInfo {
		parsed = append(parsed, d)
		return wwr.GenericSessionInfoParser(fields{"parsed": true})
	}
	s := hx.NewServer(o)
	sock := hx.NewSock(256)
	c := s.Connect(sock, wwr.ConnectionOptions{})
	m.OnLookup = func(k string) (wwr.SessionLookupResult, error) {
		if null {
			return wwr.NewSessionLookupResult(created, looked, nil), nil
		}
		return wwr.NewSessionLookupResult(created, looked, fields{"stored": val}), nil
	}
	sock.In <- hx.Restore(hx.ID(1), "K")
	nd.Quiesce()
	nd.Assert(len(sock.Sent()) == 1 && sock.Sent()[0][0] == ref.ReplyUtf8, "restored")
	if null {
		nd.Assert(c.SessionInfo("parsed") == nil, "no info")
		return
	}
	nd.Assert(len(parsed) == 1 && parsed[0]["stored"] == val, "stored info is parsed once")
	nd.Assert(c.SessionInfo("parsed") == true && c.SessionInfo("stored") == nil, "parsed info is used")
	var js wwr.JSONEncodedSession
	nd.Assert(json.Unmarshal(sock.Sent()[0][9:], &js) == nil && len(js.Info) == 1 && js.Info["stored"] == float64(val), "stored info is replied")
}

// Package c21: the default session store returns what was saved and touches
// only its directory.
package c21

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"time"
	"unicode/utf8"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

type fields = map[string]interface{}

var (
	created = time.Date(2019, 3, 4, 5, 6, 7, 891000000, time.UTC)
	looked  = time.Date(2020, 4, 5, 6, 7, 8, 0, time.UTC)
)

// conn is a connection that has a session
type conn struct {
	wwr.Connection
	s *wwr.Session
}

func (c conn) Session() *wwr.Session { return c.s }
func (c conn) SessionKey() string {
	if c.s == nil {
		return ""
	}
	return c.s.Key
}
func (c conn) HasSession() bool { return c.s != nil }

// dir creates a directory to keep sessions in, deep enough for keys that lead
// upwards
func dir() string {
	d := filepath.Join(nd.TempDir(), "a", "b", "c", "d")
	nd.Assert(os.MkdirAll(d, 0755) == nil, "directory created")
	return d
}

func save(m *wwr.DefaultSessionManager, key string, info fields) error {
	s := &wwr.Session{Key: key, Creation: created, LastLookup: looked}
	if info != nil {
		s.Info = wwr.GenericSessionInfoParser(info)
	}
	return m.OnSessionCreated(conn{s: s})
}

// found asserts that the session is found, as saved, and returns the time of
// the previous lookup
func found(m *wwr.DefaultSessionManager, key string, info fields) time.Time {
	r, err := m.OnSessionLookup(key)
	nd.Assert(err == nil && r != nil, "a saved session is found")
	nd.Assert(r.Creation().Equal(created), "creation time")
	nd.Assert(len(r.Info()) == len(info), "number of fields")
	for k, v := range info {
		if s, ok := v.(string); ok {
			x, ok := r.Info()[k].(string)
			nd.Assert(ok && nd.EqString(s, x), "text field")
		} else {
			nd.Assert(r.Info()[k] == v, "field")
		}
	}
	return r.LastLookup()
}

func missing(m *wwr.DefaultSessionManager, key string) {
	r, err := m.OnSessionLookup(key)
	nd.Assert(r == nil && err == nil, "not found")
}

func key(label string, max int) string {
	return nd.String(label, 1+nd.Choice(label+" length", max))
}

// H_Store: a session of any key and info is found until it is closed
//
//verif:opts quick=120
func H_Store() {
	m := wwr.NewDefaultSessionManager(dir())
	k := key("key", 2)
	var info fields
	if n := nd.Choice("fields", 3); n > 0 {
		v := nd.String("value", 1+nd.Tier())
		nd.Assume(utf8.ValidString(v))
		info = fields{"a": v}
		if n > 1 {
			info["b"] = nd.Bool("flag")
		}
	}
	missing(m, k)
	nd.Assert(save(m, k, info) == nil, "saved")
	nd.Assert(found(m, k, info).Equal(looked), "lookup time as saved")
	first := time.Now()
	second := found(m, k, info)
	nd.Assert(!second.Equal(looked) && !second.After(first), "lookup time updated")
	third := found(m, k, info)
	nd.Assert(!third.Before(first), "lookup time updated again")
	nd.Assert(m.OnSessionClosed(k) == nil, "closed")
	missing(m, k)
	nd.Assert(m.OnSessionClosed(k) != nil, "nothing to close")
	missing(m, k)
}

// H_Restart: a new manager of the same directory knows the sessions
func H_Restart() {
	d := dir()
	m := wwr.NewDefaultSessionManager(d)
	k := key("key", 2)
	nd.Assert(save(m, k, fields{"a": true}) == nil, "saved")
	m2 := wwr.NewDefaultSessionManager(d)
	found(m2, k, fields{"a": true})
	nd.Assert(m2.OnSessionClosed(k) == nil, "closed")
	missing(m2, k)
}

// H_Directory: a missing directory is created such that its owner can use it
// (the model runs without the privileges of root)
//
//verif:opts nonative
func H_Directory() {
	d := filepath.Join(dir(), "new")
	m := wwr.NewDefaultSessionManager(d)
	missing(m, "K")
	nd.Assert(save(m, "K", nil) == nil, "saved")
	found(m, "K", nil)
}

// H_TwoKeys: different keys are different sessions, whatever their bytes
//
//verif:opts quick=200
func H_TwoKeys() {
	m := wwr.NewDefaultSessionManager(dir())
	k1, k2 := key("k1", 1+nd.Tier()), key("k2", 2)
	if len(k1) == len(k2) {
		nd.Assume(nd.Not(nd.EqString(k1, k2)))
	}
	nd.Assert(save(m, k1, fields{"a": "1"}) == nil, "saved")
	missing(m, k2)
	switch nd.Choice("op", 3) {
	case 0:
		nd.Assert(m.OnSessionClosed(k2) != nil, "nothing to close")
	case 1:
		nd.Assert(save(m, k2, fields{"a": "2"}) == nil, "second one saved")
		found(m, k2, fields{"a": "2"})
	case 2:
		nd.Assert(save(m, k2, fields{"a": "2"}) == nil, "second one saved")
		nd.Assert(m.OnSessionClosed(k2) == nil, "second one closed")
		missing(m, k2)
	}
	found(m, k1, fields{"a": "1"})
}

// H_Outside: a key that leads out of the directory. The file it leads to isn't
// read, written or deleted
//
//verif:opts quick=200
func H_Outside() {
	d := dir()
	m := wwr.NewDefaultSessionManager(d)
	n := 4 + nd.Choice("length", 2)
	k := nd.String("key", n)
	nd.Assume(nd.Or(k[0] == '.', k[0] == '/')) // no other key of up to 5 bytes leads out
	for i := range k {
		nd.Assume(k[i] != 0) // there can't be such a file
	}
	// whatever way the path is composed
	victim := filepath.Join(d, k+".wwrsess")
	nd.Assume(len(victim) <= len(d) || victim[:len(d)+1] != d+"/")
	content := []byte(`{"c":"2019-03-04T05:06:07Z","l":"2019-03-04T05:06:07Z","i":null}`)
	if ioutil.WriteFile(victim, content, 0644) != nil {
		return // there can't be such a file
	}
	nd.Cover("leads out")
	switch nd.Choice("op", 3) {
	case 0:
		r, _ := m.OnSessionLookup(k)
		nd.Assert(r == nil, "a file outside isn't found")
	case 1:
		m.OnSessionClosed(k)
	case 2:
		save(m, k, nil)
	}
	b, err := ioutil.ReadFile(victim)
	nd.Assert(err == nil, "the file outside isn't deleted")
	nd.Assert(string(b) == string(content), "the file outside isn't changed")
}

// H_Inside: no operation touches anything outside the directory, whatever the
// key
//
//verif:opts quick=200 nonative
func H_Inside() {
	d := dir()
	m := wwr.NewDefaultSessionManager(d)
	k := key("key", 3+nd.Tier())
	switch nd.Choice("op", 3) {
	case 0:
		m.OnSessionLookup(k)
	case 1:
		m.OnSessionClosed(k)
	case 2:
		save(m, k, nil)
	}
	for _, p := range nd.FSPaths() {
		if len(p) <= len(d) {
			nd.Assert(p == d, "path outside the directory")
			continue
		}
		nd.Assert(p[:len(d)+1] == d+"/", "path inside the directory")
	}
}

// H_History: every history of 4 operations (5 thorough) on 2 sessions, any of
// which may fail to write
//
//verif:opts quick=120
func H_History() {
	m := wwr.NewDefaultSessionManager(dir())
	keys := []string{"K0", "K1"}
	infos := []fields{{"a": "zero"}, {"a": "one"}}
	var there [2]bool
	for step := 0; step < 4+nd.Tier(); step++ {
		i := nd.Choice("key", 2)
		op := nd.Choice("op", 3)
		fail := op != 2 && nd.Choice("fail", 2) == 1
		nd.FSFail(fail)
		switch op {
		case 0:
			if there[i] {
				continue // keys are unique
			}
			err := save(m, keys[i], infos[i])
			nd.Assert((err == nil) == !fail, "failure to save reported")
			there[i] = !fail
		case 1:
			r, err := m.OnSessionLookup(keys[i])
			nd.Assert((err == nil) == !(fail && there[i]), "failure to look up reported")
			nd.Assert((r != nil) == (there[i] && !fail), "found exactly if it's there")
		case 2:
			err := m.OnSessionClosed(keys[i])
			nd.Assert((err == nil) == there[i], "closed exactly if it's there")
			there[i] = false
		}
		nd.FSFail(false)
		for j := range keys {
			if there[j] {
				found(m, keys[j], infos[j])
			} else {
				missing(m, keys[j])
			}
		}
	}
}

// H_Corrupt: a file that isn't a session is an error and nothing else
func H_Corrupt() {
	d := dir()
	m := wwr.NewDefaultSessionManager(d)
	nd.Assert(save(m, "K0", fields{"a": "zero"}) == nil, "saved")
	nd.Assert(save(m, "K1", fields{"a": "one"}) == nil, "saved")
	path := filepath.Join(d, "K1.wwrsess")
	_, err := os.Stat(path)
	nd.Assert(err == nil, "file of the session")
	nd.Assert(ioutil.WriteFile(path, nd.Bytes("garbage", nd.Choice("length", 3)), 0644) == nil, "corrupted")
	r, err := m.OnSessionLookup("K1")
	nd.Assert((r == nil) == (err != nil), "an error or a result")
	found(m, "K0", fields{"a": "zero"})
	nd.Assert(m.OnSessionClosed("K1") == nil, "closed")
	missing(m, "K1")
	found(m, "K0", fields{"a": "zero"})
}

// H_Race: two operations on one session at the same time
func H_Race() {
	m := wwr.NewDefaultSessionManager(dir())
	info := fields{"a": "zero"}
	nd.Assert(save(m, "K0", info) == nil, "saved")
	nd.Assert(save(m, "K1", info) == nil, "saved")
	a, b := nd.Choice("a", 2), nd.Choice("b", 2)
	do := func(op int) {
		if op == 0 {
			r, err := m.OnSessionLookup("K0")
			nd.Assert(err == nil, "no error")
			nd.Assert(r != nil || a+b > 0, "found unless closed")
			if r != nil {
				nd.Assert(r.Creation().Equal(created) && r.Info()["a"] == "zero", "as saved")
			}
			return
		}
		m.OnSessionClosed("K0")
	}
	go do(a)
	go do(b)
	nd.Quiesce()
	if a+b > 0 {
		missing(m, "K0")
	} else {
		found(m, "K0", info)
	}
	found(m, "K1", info)
}

// H_Server: a server with the default manager; a created session can be
// restored until it is closed
func H_Server() {
	m := wwr.NewDefaultSessionManager(dir())
	gen := hx.NewMgr("K0", "K1")
	s := hx.NewServer(wwr.ServerOptions{Sessions: wwr.Enabled, SessionManager: m, SessionKeyGenerator: gen, MessageBufferSize: 256})
	nd.Assert(s.Err == nil, "server created")
	a, b := hx.NewSock(256), hx.NewSock(256)
	ca := s.Connect(a, wwr.ConnectionOptions{})
	nd.Quiesce()
	cb := s.Connect(b, wwr.ConnectionOptions{})
	nd.Quiesce()
	v := nd.String("value", 1)
	nd.Assume(v[0] < 128)
	nd.Assert(ca.CreateSession(wwr.GenericSessionInfoParser(fields{"a": v})) == nil, "created")
	at := ca.SessionCreation()
	if nd.Choice("leave", 2) == 1 {
		a.In <- nil
		nd.Quiesce()
	}
	b.In <- hx.Restore(hx.ID(1), "K0")
	nd.Quiesce()
	nd.Assert(cb.SessionKey() == "K0" && cb.SessionCreation().Equal(at), "restored")
	nd.Assert(nd.EqString(cb.SessionInfo("a").(string), v), "info restored")
	cb.CloseSession()
	ca.CloseSession()
	since := len(b.Sent())
	b.In <- hx.Restore(hx.ID(2), "K0")
	nd.Quiesce()
	nd.Assert(len(b.Sent()) == since+1 && b.Sent()[since][0] == ref.ReplySessNotFound, "closed for good")
}

// H_Overlap: a session is closed or its connection ends while it is created
func H_Overlap() {
	m := wwr.NewDefaultSessionManager(dir())
	gen := hx.NewMgr("K0", "K1")
	s := hx.NewServer(wwr.ServerOptions{Sessions: wwr.Enabled, SessionManager: m, SessionKeyGenerator: gen, MessageBufferSize: 256})
	sock := hx.NewSock(256)
	c := s.Connect(sock, wwr.ConnectionOptions{})
	nd.Quiesce()
	ok := false
	go func() {
		c.CreateSession(nil)
		ok = true
	}()
	op := nd.Choice("op", 3)
	switch op {
	case 0:
		go c.CloseSession()
	case 1:
		go c.Close()
	case 2:
		sock.In <- nil
	}
	nd.Quiesce()
	nd.Assert(ok, "created or failed")
	if op == 0 && !c.HasSession() {
		missing(m, "K0")
	}
}

// Package c35: requests, signals and sessions work end to end over the in-memory
// transport.
package c35

import (
	"context"
	"encoding/json"
	"errors"
	"io/ioutil"
	"log"
	"time"

	"verifh/hx"
	"verifh/nd"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
	reqman "github.com/qbeon/webwire-go/requestManager"
	"github.com/qbeon/webwire-go/transport/memchan"
)

const size = 128

// system is a server on the in-memory transport
type system struct {
	t       *memchan.Transport
	srv     wwr.Server
	m       *hx.Mgr
	cons    []wwr.Connection
	gone    int
	signals [][]byte
	handle  func(wwr.Connection, wwr.Message) (wwr.Payload, error)
	stopped chan error
}

type impl struct{ s *system }

func (i impl) OnClientConnected(_ wwr.ConnectionOptions, c wwr.Connection) {
	i.s.cons = append(i.s.cons, c)
}
func (i impl) OnClientDisconnected(wwr.Connection, error) { i.s.gone++ }
func (i impl) OnSignal(_ context.Context, _ wwr.Connection, m wwr.Message) {
	i.s.signals = append(i.s.signals, append([]byte(nil), m.Payload()...))
}
func (i impl) OnRequest(_ context.Context, c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	return i.s.handle(c, m)
}

var errPlain = errors.New("plain")

// answer is what the server replies to a request by its name
func answer(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	switch m.Name()[0] {
	case 'f':
		return wwr.Payload{}, wwr.ErrRequest{Code: "CODE", Message: "text"}
	case 'i':
		return wwr.Payload{}, errPlain
	}
	data := append([]byte{m.Name()[0]}, m.Payload()...)
	return wwr.Payload{Encoding: m.PayloadEncoding(), Data: data}, nil
}

// serve starts a server; the keys are those of the sessions it creates
func serve(limit int, keys ...string) *system {
	s := &system{t: &memchan.Transport{}, m: hx.NewMgr(keys...), handle: answer, stopped: make(chan error, 1)}
	s.t.OnBeforeCreation = func() wwr.ConnectionOptions { return wwr.ConnectionOptions{ConcurrencyLimit: limit} }
	o := hx.Sessions(size, s.m)
	o.WarnLog, o.ErrorLog = log.New(ioutil.Discard, "", 0), log.New(ioutil.Discard, "", 0)
	var err error
	s.srv, err = wwr.NewServer(impl{s}, o, s.t)
	nd.Assert(err == nil, "server created")
	go func() { s.stopped <- s.srv.Run() }()
	nd.Quiesce()
	return s
}

// client is a minimal client
type client struct {
	sock   wwr.ClientSocket
	man    reqman.RequestManager
	got    [][]byte // payloads of signals
	key    string   // session it was notified of
	closed int      // session closures it was notified of
	ended  bool
	con    wwr.Connection // the server's end
}

// dial connects a client
func (s *system) dial() *client {
	sock, err := (&memchan.ClientTransport{Server: s.t}).NewSocket(time.Second)
	nd.Assert(err == nil, "client created")
	c := &client{sock: sock, man: reqman.NewRequestManager()}
	nd.Assert(sock.Dial(time.Time{}) == nil, "dialled")
	m := message.NewMessage(size)
	nd.Assert(sock.Read(m, time.Time{}) == nil && m.MsgType == message.MsgAcceptConf, "handshake received")
	nd.Assert(m.ServerConfiguration.MessageBufferSize == size, "the buffer size is announced")
	nd.Quiesce()
	c.con = s.cons[len(s.cons)-1]
	for range s.cons {
		// different clients use different identifiers
		c.man.Fail(c.man.Create().Identifier, errPlain)
	}
	go c.run()
	nd.Quiesce()
	return c
}

// run receives messages
func (c *client) run() {
	for {
		m := message.NewMessage(size)
		if err := c.sock.Read(m, time.Time{}); err != nil {
			c.ended = true
			return
		}
		var err error
		switch m.MsgType {
		case message.MsgSignalBinary, message.MsgSignalUtf8, message.MsgSignalUtf16:
			c.got = append(c.got, m.Payload())
			continue
		case message.MsgNotifySessionCreated:
			var s wwr.JSONEncodedSession
			nd.Assert(json.Unmarshal(m.Payload(), &s) == nil, "the session is readable")
			c.key = s.Key
			continue
		case message.MsgNotifySessionClosed:
			c.closed++
			continue
		case message.MsgReplyBinary, message.MsgReplyUtf8, message.MsgReplyUtf16:
			nd.Assert(c.man.Fulfill(m), "a reply to a pending request")
			continue
		case message.MsgReplyError:
			err = wwr.ErrRequest{Code: string(m.Name()), Message: string(m.Payload())}
		case message.MsgReplyInternalError:
			err = wwr.ErrInternal{}
		case message.MsgReplyShutdown:
			err = wwr.ErrServerShutdown{}
		case message.MsgReplySessionNotFound:
			err = wwr.ErrSessionNotFound{}
		default:
			nd.Fail("an expected type of message")
		}
		nd.Assert(c.man.Fail(m.MsgIdentifier, err), "a failure of a pending request")
	}
}

// request sends a request and waits for its outcome
func (c *client) request(name byte, enc int, data []byte) (wwr.Reply, error) {
	r := c.man.Create()
	w, err := c.sock.GetWriter()
	if err != nil {
		c.man.Fail(r.Identifier, err)
		return nil, err
	}
	if err := message.WriteMsgRequest(w, r.IdentifierBytes, []byte{name}, pld.Encoding(enc), data, true); err != nil {
		c.man.Fail(r.Identifier, err)
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	return r.AwaitReply(ctx)
}

// raw sends a message without a name
func (c *client) raw(compose func(id []byte) []byte) (wwr.Reply, error) {
	r := c.man.Create()
	w, err := c.sock.GetWriter()
	nd.Assert(err == nil, "writer")
	_, err = w.Write(compose(r.IdentifierBytes))
	nd.Assert(err == nil, "written")
	nd.Assert(w.Close() == nil, "sent")
	return r.AwaitReply(context.Background())
}

// asked asserts the outcome of a request
func asked(name byte, enc int, data []byte, rep wwr.Reply, err error) {
	switch name {
	case 'f':
		e, ok := err.(wwr.ErrRequest)
		nd.Assert(ok && e.Code == "CODE" && e.Message == "text", "its error")
	case 'i':
		_, ok := err.(wwr.ErrInternal)
		nd.Assert(ok, "an internal error")
	default:
		nd.Assert(err == nil && rep != nil, "its reply")
		nd.Assert(rep.PayloadEncoding() == pld.Encoding(enc), "encoding of the reply")
		nd.Assert(nd.EqBytes(rep.Payload(), append([]byte{name}, data...)), "payload of the reply")
	}
}

// finish ends everything
func (s *system) finish(cs ...*client) {
	nd.Quiesce()
	for _, c := range cs {
		nd.Assert(c.man.PendingRequests() == 0, "no request is left")
	}
	nd.Assert(s.srv.Shutdown() == nil, "shut down")
	nd.Quiesce()
	for _, c := range cs {
		nd.Assert(c.ended && !c.sock.IsConnected(), "disconnected by the shutdown")
	}
	nd.Assert(len(s.stopped) == 1 && <-s.stopped == nil, "Run returned")
	nd.Assert(s.gone == len(s.cons), "every connection ended")
}

// H_Concurrent: two requests of any content at the same time on one connection
// with any limit: each gets its own reply or error, in every interleaving in
// which a goroutine is put off up to 2 times (3 thorough), otherwise run as long as
// it can
//
//verif:opts delays=2
func H_Concurrent() {
	nd.Calm(true)
	s := serve(hx.Limit())
	c := s.dial()
	names := "rfi"
	kind := nd.Choice("kinds", 3)
	a, b := names[kind], names[kind*2%3]
	da, db := nd.Bytes("da", 2), nd.Bytes("db", 3)
	done := make(chan bool, 2)
	nd.Calm(false)
	go func() {
		rep, err := c.request(a, 0, da)
		asked(a, 0, da, rep, err)
		done <- true
	}()
	rep, err := c.request(b, 1, db)
	asked(b, 1, db, rep, err)
	<-done
	nd.Calm(true)
	s.finish(c)
}

// H_TwoClients: requests of two clients at the same time: each gets its own reply
func H_TwoClients() {
	nd.Calm(true)
	s := serve(0)
	c, d := s.dial(), s.dial()
	da, db := nd.Bytes("da", 2), nd.Bytes("db", 2)
	done := make(chan bool, 2)
	nd.Calm(false)
	go func() {
		rep, err := c.request('a', 0, da)
		asked('a', 0, da, rep, err)
		done <- true
	}()
	rep, err := d.request('b', 0, db)
	asked('b', 0, db, rep, err)
	<-done
	nd.Calm(true)
	s.finish(c, d)
}

// H_History: histories of 3 operations (4 thorough) of two clients and the server
// one after another: requests and signals of any content, sessions, disconnections,
// with any limit
func H_History() {
	nd.Calm(true)
	keys := []string{"k0", "k1", "k2", "k3"}
	s := serve(hx.Limit(), keys...)
	cs := []*client{s.dial(), s.dial()}
	var all []*client
	all = append(all, cs...)
	holds := []string{"", ""} // the sessions of the clients
	stored := map[string]bool{}
	created, sent := 0, 0
	for step := 2 + nd.Tier(); step >= 0; step-- {
		i := nd.Choice("client", 2)
		c := cs[i]
		closed := []int{cs[0].closed, cs[1].closed}
		want := []int{0, 0} // session closures to be notified
		switch nd.Choice("op", 9) {
		case 0:
			name, enc, data := "rfi"[nd.Choice("name", 3)], nd.Choice("enc", 2), nd.Bytes("data", 2)
			rep, err := c.request(name, enc, data)
			asked(name, enc, data, rep, err)
		case 1:
			data := nd.Bytes("data", 2)
			w, err := c.sock.GetWriter()
			nd.Assert(err == nil && message.WriteMsgSignal(w, []byte("s"), pld.Binary, data, true) == nil, "signal sent")
			nd.Quiesce()
			sent++
			nd.Assert(len(s.signals) == sent && nd.EqBytes(s.signals[sent-1], data), "signal received by the server")
		case 2:
			data := nd.Bytes("data", 2)
			nd.Assert(c.con.Signal(nil, wwr.Payload{Data: data}) == nil, "signal sent")
			nd.Quiesce()
			nd.Assert(len(c.got) > 0 && nd.EqBytes(c.got[len(c.got)-1], data), "signal received by the client")
		case 3:
			err := c.con.CreateSession(nil)
			nd.Quiesce()
			nd.Assert((err == nil) == (holds[i] == ""), "a session is created unless there is one")
			if err == nil {
				holds[i] = keys[created]
				nd.Assert(c.key == holds[i], "the client knows its session")
				stored[holds[i]] = true
				created++
			}
		case 4:
			key := keys[0]
			rep, err := c.raw(func(id []byte) []byte { return hx.Restore(id, key) })
			nd.Assert((err == nil) == stored[key], "restored if it exists")
			if err == nil {
				var j wwr.JSONEncodedSession
				nd.Assert(json.Unmarshal(rep.Payload(), &j) == nil && j.Key == key, "the restored session")
				holds[i] = key
			} else {
				_, ok := err.(wwr.ErrSessionNotFound)
				nd.Assert(ok, "not found")
			}
		case 5:
			_, err := c.raw(hx.CloseSession)
			nd.Assert(err == nil, "session closed")
			if k := holds[i]; k != "" {
				holds[i] = ""
				stored[k] = holds[1-i] == k
			}
		case 6:
			k := holds[i]
			if k == "" {
				continue
			}
			con, _, err := s.srv.CloseSession(k)
			nd.Assert(err == nil, "session closed")
			n := 0
			for j := range cs {
				if holds[j] == k {
					holds[j] = ""
					want[j] = 1
					n++
				}
			}
			nd.Assert(len(con) == n, "every holder is affected")
			stored[k] = false
		default:
			if nd.Choice("who", 2) == 0 {
				c.sock.Close()
			} else {
				c.con.Close()
			}
			nd.Quiesce()
			nd.Assert(c.ended && !c.con.IsActive() && !c.con.HasSession(), "both ends are closed")
			holds[i] = ""
			cs[i] = s.dial()
			all = append(all, cs[i])
			closed[i] = 0
		}
		nd.Quiesce()
		for j, c := range cs {
			nd.Assert(c.closed-closed[j] == want[j], "the client is told once if its session was closed by the server")
			nd.Assert(c.con.SessionKey() == holds[j], "the server knows the client's session")
		}
		for k, v := range stored {
			nd.Assert((s.m.Stored[k] != nil) == v, "sessions are kept until closed")
		}
	}
	s.finish(all...)
}

// H_Ending: the client hangs up, the server closes the connection or shuts down
// while a request is on its way, being handled or answered: its handler ends and
// the client gets the reply, a refusal or a closed connection (3 deviations)
//
//verif:opts delays=3
func H_Ending() {
	nd.Calm(true)
	s := serve(nd.Choice("limit", 3) - 1)
	c := s.dial()
	end := nd.Choice("end", 3)
	down := make(chan error, 1)
	data := nd.Bytes("data", 2)
	type outcome struct {
		rep wwr.Reply
		err error
	}
	got := make(chan outcome, 1)
	nd.Calm(false)
	go func() {
		rep, err := c.request('r', 0, data)
		got <- outcome{rep, err}
	}()
	switch end {
	case 0:
		c.sock.Close()
	case 1:
		c.con.Close()
	default:
		go func() { down <- s.srv.Shutdown() }()
	}
	nd.Quiesce()
	nd.Calm(true)
	if len(got) == 0 {
		// the request got lost: the connection must be closed
		nd.Assert(!c.sock.IsConnected() && c.ended, "nobody waits on an open connection")
		nd.Assert(c.man.PendingRequests() == 1, "the request is pending")
		o := <-got
		nd.Assert(o.err != nil, "timed out")
	} else if o := <-got; o.err == nil {
		nd.Cover("replied")
		asked('r', 0, data, o.rep, o.err)
	} else {
		nd.Cover("refused")
	}
	if end == 2 {
		nd.Assert(len(down) == 1 && <-down == nil, "the shutdown returned")
	}
	s.finish(c)
}

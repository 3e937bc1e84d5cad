// Package c31: a silent client is disconnected after the read timeout, and
// nobody else is.
package c31

import (
	"context"
	"io/ioutil"
	"log"
	"time"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
)

const unit = 10 * time.Millisecond

// received returns one of the kinds of messages a client may send
func received(i int) []byte {
	switch nd.Choice("kind", 5) {
	case 0:
		return []byte{message.MsgHeartbeat}
	case 1:
		return hx.Signal(0, []byte("s"), nd.Bytes("data", 1))
	case 2:
		return hx.Request(0, hx.ID(byte(i)), []byte("r"), nil)
	case 3:
		return hx.CloseSession(hx.ID(byte(i)))
	}
	return []byte{ref.ReplyInternalError, 0, 0, 0, 0, 0, 0, 0, 1}
}

// reads checks the deadlines of a stub socket's reads
func reads(sock *hx.Sock, want time.Duration) *int {
	n := 0
	sock.OnRead = func(d time.Time) {
		n++
		now := time.Now()
		nd.Assert(!d.IsZero(), "there is a deadline")
		if nd.Symbolic() {
			// the clock of the model only advances while everybody waits
			nd.Assert(d.Equal(now.Add(want)), "the read timeout from now")
		} else {
			nd.Assert(!d.After(now.Add(want)) && !d.Before(now.Add(want-unit/2)), "the read timeout from now")
		}
	}
	return &n
}

// H_Timeout: every read timeout (1 second and up, also the default), with one
// message of any kind received and answered
//
//verif:opts quick=60
func H_Timeout() {
	o := hx.Plain(64)
	want := time.Minute
	switch k := nd.Choice("explicit", 6); {
	case k > 1:
		o.ReadTimeout = []time.Duration{time.Second, time.Second + 1, 1999 * time.Millisecond, 90 * time.Minute}[k-2]
		want = o.ReadTimeout
	case k == 1:
		o.ReadTimeout = time.Duration(nd.Int("timeout", int(time.Second), (1<<32-1)*int(time.Millisecond)))
		want = o.ReadTimeout
	}
	s := hx.NewServer(o)
	nd.Assert(s.Err == nil, "server created")
	sock := hx.NewSock(64)
	n := reads(sock, want)
	go s.Serve(sock, wwr.ConnectionOptions{})
	nd.Quiesce()
	sock.In <- received(1)
	nd.Quiesce()
	nd.Assert(*n == 2, "waiting for the next message")
}

// H_Deadline: 3 messages of any kind that arrive after pauses, handled quickly or
// slowly with or without concurrency: every read is given a full read timeout from
// when it starts
func H_Deadline() {
	o := hx.Plain(64)
	o.ReadTimeout = 1500 * time.Millisecond
	s := hx.NewServer(o)
	nd.Assert(s.Err == nil, "server created")
	work := func() {
		if nd.Choice("slow", 2) == 1 {
			time.Sleep(3 * unit)
		}
	}
	s.OnConnected = func(wwr.ConnectionOptions, wwr.Connection) { work() }
	s.Signal = func(wwr.Connection, wwr.Message) { work() }
	s.Request = func(wwr.Connection, wwr.Message) (wwr.Payload, error) {
		work()
		return wwr.Payload{}, nil
	}
	sock := hx.NewSock(64)
	n := reads(sock, o.ReadTimeout)
	go s.Serve(sock, wwr.ConnectionOptions{ConcurrencyLimit: nd.Choice("limit", 3) - 1})
	settle := func() {
		time.Sleep(4 * unit)
		nd.Quiesce()
	}
	settle()
	for i := 0; i < 3; i++ {
		nd.Assert(*n == i+1, "waiting for the next message")
		sock.In <- received(i)
		settle()
	}
	nd.Assert(*n == 4, "waiting for the next message")
}

type impl struct {
	con      chan wwr.Connection
	gone     chan error
	signals  int
	requests int
}

func (i *impl) OnClientConnected(_ wwr.ConnectionOptions, c wwr.Connection) { i.con <- c }
func (i *impl) OnClientDisconnected(_ wwr.Connection, e error)              { i.gone <- e }
func (i *impl) OnSignal(context.Context, wwr.Connection, wwr.Message)       { i.signals++ }
func (i *impl) OnRequest(context.Context, wwr.Connection, wwr.Message) (wwr.Payload, error) {
	i.requests++
	return wwr.Payload{}, nil
}

func sent() []byte {
	if nd.Choice("kind", 2) == 0 {
		return []byte{message.MsgHeartbeat}
	}
	return hx.Signal(0, []byte("s"), nd.Bytes("data", 1))
}

// H_MemChan: over the in-memory transport a client that sends something (any
// heartbeat or signal) in time stays connected; the read timeout (1 or 2
// seconds) after it fell silent it is disconnected, and not before
func H_MemChan() {
	t := &memchan.Transport{}
	im := &impl{con: make(chan wwr.Connection, 1), gone: make(chan error, 2)}
	timeout := time.Duration(1+nd.Choice("timeout", 2)) * time.Second
	srv, err := wwr.NewServer(im, wwr.ServerOptions{
		Sessions: wwr.Disabled, MessageBufferSize: 64, ReadTimeout: timeout,
		WarnLog: log.New(ioutil.Discard, "", 0), ErrorLog: log.New(ioutil.Discard, "", 0),
	}, t)
	nd.Assert(err == nil && srv != nil, "server created")
	go srv.Run()
	nd.Quiesce()
	c, err := (&memchan.ClientTransport{Server: t}).NewSocket(time.Second)
	nd.Assert(err == nil, "client created")
	nd.Assert(c.Dial(time.Time{}) == nil, "dialled")
	m := message.NewMessage(64)
	nd.Assert(c.Read(m, time.Time{}) == nil, "handshake received")
	nd.Assert(m.ServerConfiguration.ReadTimeout == timeout, "the read timeout is announced")
	con := <-im.con
	last := time.Now()
	for i := nd.Choice("messages", 3); i > 0; i-- {
		time.Sleep(timeout * 6 / 10)
		nd.Assert(len(im.gone) == 0 && con.IsActive() && c.IsConnected(), "still connected")
		w, err := c.GetWriter()
		nd.Assert(err == nil, "writer")
		last = time.Now()
		_, err = w.Write(sent())
		nd.Assert(err == nil, "written")
		nd.Assert(w.Close() == nil, "sent")
	}
	time.Sleep(timeout * 7 / 10)
	nd.Assert(len(im.gone) == 0 && con.IsActive() && c.IsConnected(), "still connected before the timeout")
	reason := <-im.gone
	e, ok := reason.(wwr.ErrSockRead)
	nd.Assert(ok && !e.IsCloseErr(), "the reason isn't a graceful closure")
	nd.Assert(!time.Now().Before(last.Add(timeout)), "not before the read timeout")
	nd.Assert(time.Now().Before(last.Add(timeout+timeout/2)), "soon after the read timeout")
	nd.Quiesce()
	nd.Assert(!con.IsActive() && !c.IsConnected(), "disconnected")
	nd.Assert(len(im.gone) == 0, "once")
}

// Package c33: what has ended is let go: neither objects nor goroutines pile up.
package c33

import (
	"context"
	"errors"
	"time"

	"verifh/hx"
	"verifh/nd"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
	reqman "github.com/qbeon/webwire-go/requestManager"
	"github.com/qbeon/webwire-go/transport/memchan"
)

var errHook = errors.New("hook failed")

// footprint measures what an object holds on to and the goroutines running
type footprint struct {
	root         func() interface{}
	sizes, lives []int
}

func (f *footprint) measure() {
	nd.Quiesce()
	f.sizes = append(f.sizes, nd.Size(f.root()))
	f.lives = append(f.lives, nd.Live())
}

// steady asserts that the last three measures don't grow steadily
func (f *footprint) steady() {
	n := len(f.sizes)
	nd.Assert(!(f.sizes[n-3] < f.sizes[n-2] && f.sizes[n-2] < f.sizes[n-1]), "objects don't pile up")
	nd.Assert(!(f.lives[n-3] < f.lives[n-2] && f.lives[n-2] < f.lives[n-1]), "goroutines don't pile up")
}

// keys returns n different keys
func keys(n int) (out []string) {
	for i := 0; i < n; i++ {
		k := nd.String("key", 2)
		for _, o := range out {
			nd.Assume(nd.Not(nd.EqString(k, o)))
		}
		out = append(out, k)
	}
	return
}

// world is a server that uses one key per round
type world struct {
	*hx.Server
	footprint
	m    *hx.Mgr
	keys []string
}

func newWorld(max uint, keys ...string) *world {
	nd.Calm(true)
	w := &world{keys: keys}
	w.m = hx.NewMgr(w.keys...)
	o := hx.Sessions(256, w.m)
	o.MaxSessionConnections = max
	w.Server = hx.NewServer(o)
	nd.Assert(w.Err == nil, "server created")
	w.root = func() interface{} { return w.S }
	return w
}

func (w *world) connect(limit int) (*hx.Sock, wwr.Connection) {
	k := hx.NewSock(256)
	c := w.Connect(k, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	nd.Quiesce()
	return k, c
}

// store makes a session available for restoration
func (w *world) store(key string) {
	w.m.Stored[key] = wwr.NewSessionLookupResult(time.Now(), time.Now(), nil)
}

// end ends a connection
func end(how int, k *hx.Sock, c wwr.Connection) {
	switch how {
	case 0:
		k.In <- nil
	case 1:
		k.In <- []byte{}
	default:
		c.Close()
	}
	nd.Quiesce()
	if how == 1 && k.IsConnected() {
		k.In <- nil
		nd.Quiesce()
	}
	nd.Assert(k.Finished, "the connection ended")
}

// H_Connections: 3 connections one after another with any limit, 2 messages of any
// kind and content each, ended in any way
func H_Connections() {
	w := newWorld(0, keys(3)...)
	limit := hx.Limit()
	kinds := []int{nd.Choice("kind", 6), nd.Choice("kind", 6)}
	how := nd.Choice("end", 3)
	fail := nd.Choice("outcome", 2)
	raw := nd.Bytes("raw", 2)
	w.Request = func(wwr.Connection, wwr.Message) (wwr.Payload, error) {
		if fail == 1 {
			return wwr.Payload{}, errHook
		}
		return wwr.Payload{Data: nd.Bytes("reply", 2)}, nil
	}
	for i := 0; i < 3; i++ {
		k, c := w.connect(limit)
		for _, kind := range kinds {
			k.In <- [][]byte{
				hx.Signal(0, []byte("s"), nd.Bytes("data", 1)),
				hx.Request(0, hx.AnyID(), []byte("r"), nd.Bytes("data", 1)),
				{message.MsgHeartbeat},
				hx.CloseSession(hx.AnyID()),
				hx.Restore(hx.AnyID(), w.keys[i]),
				raw,
			}[kind]
			nd.Quiesce()
		}
		if k.IsConnected() {
			end(how, k, c)
		}
		w.measure()
	}
	w.steady()
}

// H_Sessions: 3 sessions one after another, gained and lost in any way, with any
// maximum
func H_Sessions() {
	w := newWorld(uint(nd.Uint64("max")), "k1", "k2", "k3")
	gain, lose, how := nd.Choice("gain", 6), nd.Choice("lose", 4), nd.Choice("end", 3)
	second, hook := nd.Choice("second", 2) == 1, nd.Choice("hook", 2)
	w.m.OnClosed = func(string) error {
		if hook == 1 {
			return errHook
		}
		return nil
	}
	for i := 0; i < 3; i++ {
		key := w.keys[i]
		k, c := w.connect(0)
		var k2 *hx.Sock
		var c2 wwr.Connection
		if second {
			w.store(key)
			k2, c2 = w.connect(0)
			k2.In <- hx.Restore(hx.AnyID(), key)
			nd.Quiesce()
		}
		switch gain {
		case 0:
			c.CreateSession(nil)
		case 1:
			k.FailClose = k.Flushes() + 1
			nd.Assert(second || c.CreateSession(nil) != nil, "not created")
		case 2:
			w.store(key)
			k.In <- hx.Restore(hx.AnyID(), key)
		case 3:
			k.In <- hx.Restore(hx.AnyID(), key+"?")
		case 4:
			w.m.OnLookup = func(string) (wwr.SessionLookupResult, error) { return nil, errHook }
			k.In <- hx.Restore(hx.AnyID(), key)
		default:
			// destroyed while it is being restored
			w.store(key)
			w.m.OnLookup = func(key string) (wwr.SessionLookupResult, error) {
				w.S.CloseSession(key)
				return wwr.NewSessionLookupResult(time.Now(), time.Now(), nil), nil
			}
			k.In <- hx.Restore(hx.AnyID(), key)
		}
		nd.Quiesce()
		w.m.OnLookup = nil
		switch lose {
		case 0:
			c.CloseSession()
		case 1:
			k.In <- hx.CloseSession(hx.AnyID())
		case 2:
			w.S.CloseSession(key)
		}
		nd.Quiesce()
		end(how, k, c)
		if second {
			end(how, k2, c2)
		}
		nd.Assert(w.S.ActiveSessionsNum() == 0, "no session is active")
		w.m.Stored = map[string]wwr.SessionLookupResult{}
		w.measure()
	}
	w.steady()
}

// H_Refused: 3 connections that fail during the handshake at any point, or any
// operation on the socket of which fails later
func H_Refused() {
	w := newWorld(0, keys(3)...)
	g, wr, f := hx.AnyFault()
	for i := 0; i < 3; i++ {
		k := hx.NewSock(256)
		k.FailGet, k.FailWrite, k.FailClose = g, wr, f
		k.Script = [][]byte{
			hx.Request(0, hx.AnyID(), []byte("r"), nil),
			hx.Restore(hx.AnyID(), w.keys[i]),
			hx.Request(1, hx.AnyID(), []byte("r"), nil),
		}
		k.End = true
		w.Start(k, wwr.ConnectionOptions{})
		nd.Quiesce()
		nd.Assert(k.Finished, "the connection ended")
		w.measure()
	}
	w.steady()
}

// H_Race: a connection with a session and any limit; two (3 thorough) requests or
// ways to end it or the session at the same time, in every interleaving: afterwards no more is left than after an ordinary connection
func H_Race() {
	w := newWorld(0, "k1", "k2")
	limit, more := hx.Limit(), nd.Tier()
	round := func(key string, ops ...int) {
		w.store(key)
		k, c := w.connect(limit)
		k.In <- hx.Restore(hx.AnyID(), key)
		nd.Quiesce()
		nd.Calm(len(ops) < 2)
		for _, op := range ops {
			op := op
			go func() {
				switch op {
				case 0:
					k.In <- nil
				case 1:
					c.Close()
				case 2:
					c.CloseSession()
				case 3:
					w.S.CloseSession(key)
				case 4:
					k.In <- hx.CloseSession(hx.ID(1))
				default:
					k.In <- hx.Request(0, hx.ID(2), []byte("r"), nil)
				}
			}()
		}
		nd.Quiesce()
		nd.Calm(true)
		if k.IsConnected() {
			k.In <- nil
		}
		w.measure()
		nd.Assert(k.Finished, "the connection ended")
	}
	round(w.keys[0], 0)
	a := nd.Choice("a", 6)
	b := a + nd.Choice("b", 6-a)
	ops := []int{a, b}
	for ; more > 0; more-- {
		ops = append(ops, b+nd.Choice("c", 6-b))
	}
	round(w.keys[1], ops...)
	nd.Assert(w.sizes[1] <= w.sizes[0], "nothing is left")
	nd.Assert(w.lives[1] <= w.lives[0], "no goroutine is left")
}

// H_Requests: 3 requests one after another, resolved in any way or given up
func H_Requests() {
	m := reqman.NewRequestManager()
	f := footprint{root: func() interface{} { return &m }}
	how, late := nd.Choice("how", 6), nd.Choice("late", 2) == 1
	for i := 0; i < 3; i++ {
		r := m.Create()
		ctx, cancel := context.WithCancel(context.Background())
		msg := &message.Message{MsgIdentifier: r.Identifier, MsgType: message.MsgReplyBinary,
			MsgPayload: pld.Payload{Data: nd.Bytes("data", 2)}}
		switch how {
		case 0:
			m.Fulfill(msg)
		case 1:
			m.Fail(r.Identifier, errHook)
		case 2:
			cancel()
		case 3:
			ctx, cancel = context.WithTimeout(context.Background(), time.Millisecond)
		case 4:
			go m.Fulfill(msg)
			go m.Fail(r.Identifier, errHook)
		default:
			ctx, cancel = context.WithTimeout(context.Background(), time.Millisecond)
			go m.Fulfill(msg)
		}
		r.AwaitReply(ctx)
		cancel()
		nd.Quiesce()
		if late {
			m.Fulfill(msg)
		}
		f.measure()
		nd.Assert(m.PendingRequests() == 0, "nothing is pending")
	}
	f.steady()
}

// H_MemChan: connections over the in-memory transport one after another, by one
// client or several, ended in any way
func H_MemChan() {
	nd.Calm(true)
	t := &memchan.Transport{}
	refuse := nd.Choice("refuse", 3)
	t.OnBeforeCreation = func() wwr.ConnectionOptions {
		if refuse == 1 {
			return wwr.ConnectionOptions{Connection: wwr.Refuse}
		}
		return wwr.ConnectionOptions{}
	}
	s := hx.NewServer(hx.Plain(64))
	o := hx.Plain(64)
	o.ReadTimeout = time.Second
	o.WarnLog, o.ErrorLog = s.Opts.WarnLog, s.Opts.ErrorLog
	var con wwr.Connection
	s.OnConnected = func(_ wwr.ConnectionOptions, c wwr.Connection) { con = c }
	srv, err := wwr.NewServer(s.Impl(), o, t)
	nd.Assert(err == nil, "server created")
	how, same, send := nd.Choice("end", 3), nd.Choice("same", 2) == 1, nd.Choice("send", 2) == 1
	client := func() wwr.ClientSocket {
		c, err := (&memchan.ClientTransport{Server: t}).NewSocket(time.Second)
		nd.Assert(err == nil, "client created")
		return c
	}
	c := client()
	f := footprint{root: func() interface{} { return []interface{}{t, srv} }}
	for i := 0; i < 3; i++ {
		if !same {
			c = client()
		}
		err := c.Dial(time.Time{})
		nd.Assert((err == nil) == (refuse != 1), "dialled unless refused")
		if err == nil {
			m := message.NewMessage(64)
			if refuse != 2 { // otherwise the handshake is never read
				nd.Assert(c.Read(m, time.Time{}) == nil, "handshake received")
				nd.Quiesce()
				if send {
					w, err := c.GetWriter()
					nd.Assert(err == nil, "writer")
					w.Write(hx.Signal(0, []byte("s"), nd.Bytes("data", 1)))
					nd.Assert(w.Close() == nil, "sent")
				}
			}
			switch {
			case how == 0 || refuse == 2:
				c.Close()
			case how == 1:
				con.Close()
			default:
				time.Sleep(2 * time.Second)
			}
			nd.Quiesce()
			nd.Assert(!c.IsConnected(), "disconnected")
			con = nil
		}
		f.measure()
	}
	f.steady()
}

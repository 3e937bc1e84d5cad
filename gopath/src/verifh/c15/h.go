// Package c15: closing a connection waits for its handlers and takes effect
// exactly once.
package c15

import (
	"sync"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

type state struct {
	lock     sync.Mutex
	running  int
	handled  int
	closed   bool // a call of Close returned
	gone     int
	sock     *hx.Sock
	inHandle func(c wwr.Connection, name byte)
}

func (st *state) handle(c wwr.Connection, m wwr.Message) {
	st.lock.Lock()
	nd.Assert(!st.closed, "nothing is handled after the closure")
	st.running++
	st.handled++
	st.lock.Unlock()
	if st.inHandle != nil {
		st.inHandle(c, m.Name()[0])
	}
	st.lock.Lock()
	nd.Assert(st.sock.Closes == 0, "the socket is not closed while a handler runs")
	st.running--
	st.lock.Unlock()
}

func setup(o wwr.ServerOptions) (*hx.Server, *state) {
	s := hx.NewServer(o)
	nd.Assert(s.Err == nil, "server created")
	st := &state{sock: hx.NewSock(64)}
	s.Signal = func(c wwr.Connection, m wwr.Message) { st.handle(c, m) }
	s.Request = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		st.handle(c, m)
		return wwr.Payload{Data: m.Payload()}, nil
	}
	s.OnDisconnected = func(wwr.Connection, error) { st.gone++ }
	return s, st
}

// replies counts the replies of a kind
func replies(sock *hx.Sock, kind byte) (n int) {
	for _, m := range sock.Sent() {
		if m[0] == kind {
			n++
		}
	}
	return
}

// request composes a request of any identifier ending in i and any payload and
// returns it with the reply and the notice it may get
func request(name string, i int) (m, reply, notice []byte) {
	id, data := append(nd.Bytes("id", 7), byte(i)), nd.Byte("payload")
	return hx.Request(0, id, []byte(name), []byte{data}),
		append(append([]byte{ref.ReplyBinary}, id...), data),
		append([]byte{ref.ReplyShutdown}, id...)
}

// count counts how often a message was sent
func count(sock *hx.Sock, m []byte) (n int) {
	for _, x := range sock.Sent() {
		n = nd.IteInt(nd.EqBytes(x, m), n+1, n)
	}
	return
}

// H_Waits: a connection with any limit is closed (once or twice, in turn or at once) while 0 to
// 3 handlers are running; messages arrive meanwhile; then the handlers finish
func H_Waits() {
	s, st := setup(hx.Plain(64))
	gate := make(chan struct{})
	st.inHandle = func(_ wwr.Connection, name byte) {
		if name == 'w' {
			<-gate
		}
	}
	limit := hx.Limit()
	con := s.Connect(st.sock, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	running := nd.Choice("running", 4)
	single := limit == 0 || limit == 1
	nd.Assume(running <= hx.Room(limit, running))
	var requests [][]byte // expected replies
	for i := 0; i < running; i++ {
		if nd.Choice("request", 2) == 1 {
			m, reply, _ := request("w", i)
			requests = append(requests, reply)
			st.sock.In <- m
		} else {
			st.sock.In <- hx.Signal(0, []byte("w"), nd.Bytes("payload", 1))
		}
		nd.Quiesce()
	}
	nd.Assert(st.running == running && con.IsActive(), "handlers are running")
	switch nd.Choice("close", 3) {
	case 0:
		con.Close()
	case 1:
		con.Close()
		con.Close()
	case 2:
		go con.Close()
		go con.Close()
	}
	nd.Quiesce()
	st.closed = true
	nd.Assert(!con.IsActive(), "inactive at once")
	if running > 0 {
		nd.Assert(st.sock.Closes == 0 && st.gone == 0, "the socket remains open until the handlers finish")
	} else {
		nd.Assert(st.sock.Closes == 1, "closed immediately when nothing is running")
	}
	var refused [][]byte // notices
	if running > 0 && !single {
		for i, n := 0, nd.Choice("arriving", 3); i < n; i++ {
			if nd.Choice("kind", 2) == 1 {
				m, _, notice := request("n", 7+i)
				refused = append(refused, notice)
				st.sock.In <- m
			} else {
				st.sock.In <- hx.Signal(0, []byte("n"), nd.Bytes("payload", 1))
			}
			nd.Quiesce()
		}
	}
	nd.Assert(st.handled == running, "messages arriving meanwhile are not handled")
	for i := 0; i < running; i++ {
		nd.Assert(st.sock.Closes == 0, "closed after the last handler only")
		st.closed = true
		gate <- struct{}{}
		nd.Quiesce()
	}
	nd.Assert(st.sock.Closes == 1 && !st.sock.IsConnected(), "the socket is closed exactly once")
	nd.Assert(st.gone == 1, "the disconnected hook ran")
	nd.Assert(replies(st.sock, ref.ReplyBinary) == len(requests), "only running handlers sent replies")
	for _, m := range requests {
		nd.Assert(count(st.sock, m) == 1, "running handlers sent their replies")
	}
	nd.Assert(replies(st.sock, ref.ReplyShutdown) <= len(refused), "at most one notice per refused request")
	if limit < 0 || running < limit {
		for _, m := range refused {
			nd.Assert(count(st.sock, m) == 1, "refused requests get a notice")
		}
	}
	nd.Assert(st.handled == running, "nothing else was handled")
	con.Close()
	nd.Quiesce()
	nd.Assert(st.sock.Closes == 1, "closing again is harmless")
	nd.Assert(nd.Live() == 0, "nobody is left")
}

// H_FromHandler: a handler closes its own connection (and so may a concurrent
// one): the reply is still sent and the connection closed afterwards
//
//verif:opts quick=60
func H_FromHandler() {
	s, st := setup(hx.Plain(64))
	st.inHandle = func(c wwr.Connection, name byte) {
		c.Close()
		nd.Assert(!c.IsActive(), "inactive")
		if nd.Choice("again", 2) == 1 {
			c.Close()
		}
	}
	limit := hx.Limit()
	m, r1, _ := request("a", 0)
	r2 := r1
	st.sock.Script = [][]byte{m}
	if nd.Choice("second", 2) == 1 {
		m, r2, _ = request("b", 1)
		st.sock.Script = append(st.sock.Script, m)
	}
	sent := len(st.sock.Script)
	s.Start(st.sock, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	nd.Quiesce()
	nd.Assert(st.sock.Closes == 1 && !st.sock.IsConnected(), "closed exactly once")
	nd.Assert(st.handled >= 1 && st.handled <= sent, "handled")
	nd.Assert(replies(st.sock, ref.ReplyBinary) == st.handled, "replies sent")
	if limit == 0 || limit == 1 {
		nd.Assert(st.handled == 1, "nothing handled after the closure")
	}
	want := count(st.sock, r1)
	if sent == 2 {
		want += count(st.sock, r2)
	}
	nd.Assert(want == st.handled, "to these requests")
	nd.Assert(st.gone == 1 && nd.Live() == 0, "ended")
}

// H_Race: a close call racing with up to 2 messages being received and handled:
// either handled with a reply sent before the closure, or not at all
//
//verif:opts quick=100
func H_Race() {
	s, st := setup(hx.Plain(64))
	n := 1 + nd.Choice("messages", 2)
	var answers [][2][]byte
	for i := 0; i < n; i++ {
		m, reply, notice := request("n", i)
		st.sock.Script = append(st.sock.Script, m)
		answers = append(answers, [2][]byte{reply, notice})
	}
	limit := hx.Limit()
	nd.Assume(limit >= 0) // 2 is as good as none
	ch := make(chan wwr.Connection, 1)
	s.OnConnected = func(_ wwr.ConnectionOptions, c wwr.Connection) { ch <- c }
	s.Start(st.sock, wwr.ConnectionOptions{ConcurrencyLimit: limit})
	go func() { (<-ch).Close() }()
	nd.Quiesce()
	nd.Assert(st.running == 0 && st.gone == 1, "ended")
	nd.Assert(st.sock.Closes == 1, "the socket is closed exactly once")
	nd.Assert(replies(st.sock, ref.ReplyBinary) == st.handled, "every handled request was answered")
	total := 0
	for _, a := range answers {
		k := count(st.sock, a[0]) + count(st.sock, a[1])
		nd.Assert(k <= 1, "at most one reply each")
		total += k
	}
	nd.Assert(total == len(st.sock.Sent()), "and nothing else")
}

// H_OthersUnaffected: closing one connection leaves another one usable
func H_OthersUnaffected() {
	s, st := setup(hx.Plain(64))
	other := hx.NewSock(64)
	con := s.Connect(st.sock, hx.Options())
	oc := s.Connect(other, hx.Options())
	con.Close()
	nd.Quiesce()
	nd.Assert(!con.IsActive() && st.sock.Closes == 1, "closed")
	nd.Assert(st.gone == 1, "gone")
	nd.Assert(oc.IsActive() && other.Closes == 0, "other connection open")
	st.sock = other
	m, reply, _ := request("n", 0)
	other.In <- m
	nd.Quiesce()
	nd.Assert(len(other.Sent()) == 1 && count(other, reply) == 1, "and served")
}

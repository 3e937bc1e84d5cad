// Package c10: every request gets exactly one reply, carrying its identifier.
package c10

import (
	"errors"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
	pld "github.com/qbeon/webwire-go/payload"
)

var errSecret = errors.New("secret")

// wrapped is an error that wraps a request error without being one
type wrapped struct{ wwr.ErrRequest }

// unexpected are errors other than request errors, including those the library
// itself uses to refuse restorations
var unexpected = []error{
	errSecret,
	wwr.ErrSessionNotFound{},
	wwr.ErrMaxSessConnsReached{},
	wwr.ErrSessionsDisabled{},
	wwr.ErrServerShutdown{},
	wwr.ErrInternal{},
	wwr.ErrBufferOverflow{},
	wwr.ErrProtocol{Cause: errSecret},
	wwr.ErrDisconnected{Cause: errSecret},
	&wwr.ErrSessionNotFound{},
	wrapped{wwr.ErrRequest{Code: "C", Message: "M"}},
	(*wwr.ErrRequest)(nil),
}

// limits are the concurrency limits worth telling apart
var limits = []int{0, 1, 2, -1}

func connect(s *hx.Server, o wwr.ConnectionOptions) *hx.Sock {
	nd.Assert(s.Err == nil, "server created")
	sock := hx.NewSock(64)
	s.Connect(sock, o)
	return sock
}

func outcome() (wwr.Payload, error, func(r hx.Reply)) {
	switch nd.Choice("outcome", 4) {
	case 0:
		enc := nd.Choice("encoding", 3)
		n := nd.Choice("len", 4)
		if enc == 2 {
			n *= 2
		}
		p := wwr.Payload{Encoding: pld.Encoding(enc), Data: nd.Bytes("reply", n)}
		return p, nil, func(r hx.Reply) {
			nd.Cover("payload")
			nd.Assert(r.Type == ref.ReplyBinary+byte(enc), "reply of the payload's encoding")
			hx.Same(r.Payload(), p.Data, "reply payload")
		}
	case 1, 2:
		e := wwr.ErrRequest{Code: nd.String("code", 1+nd.Choice("codelen", 2)), Message: nd.String("msg", nd.Choice("msglen", 3))}
		for i := 0; i < len(e.Code); i++ {
			nd.Assume(e.Code[i] >= 32 && e.Code[i] <= 126)
		}
		var err error = e
		if nd.Choice("pointer", 2) == 1 {
			err = &e
		}
		return wwr.Payload{Data: []byte("ignored")}, err, func(r hx.Reply) {
			nd.Cover("request error")
			nd.Assert(r.Type == ref.ReplyError, "error reply")
			hx.Same(r.Raw[r.NameOff:r.NameOff+r.NameLen], []byte(e.Code), "error code")
			hx.Same(r.Payload(), []byte(e.Message), "error message")
		}
	}
	e := unexpected[nd.Choice("error", len(unexpected))]
	return wwr.Payload{Data: []byte("ignored")}, e, func(r hx.Reply) {
		nd.Cover("internal error")
		nd.Assert(r.Type == ref.ReplyInternalError && len(r.Raw) == 9, "bare internal error")
	}
}

// H_Reply: every identifier, every outcome, every encoding, each kind of limit
func H_Reply() {
	s := hx.NewServer(hx.Plain(64))
	sock := connect(s, wwr.ConnectionOptions{ConcurrencyLimit: limits[nd.Choice("limit", 4)]})
	var p wwr.Payload
	var err error
	var check func(hx.Reply)
	calls := 0
	s.Request = func(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		calls++
		p, err, check = outcome()
		return p, err
	}
	id := nd.Bytes("id", 8)
	sock.In <- hx.Request(nd.Choice("enc", 3), id, []byte("n"), nd.Bytes("data", 2))
	nd.Quiesce()
	nd.Assert(calls == 1, "handled once")
	out := sock.Sent()
	nd.Assert(len(out) == 1, "exactly one reply")
	r := hx.ParseReply(out[0])
	hx.Same(r.ID(), id, "identifier of the request")
	check(r)
}

// H_Unsendable: an outcome that no reply can carry (payload or message exceeding
// the buffer, odd UTF16 payload, error code missing, too long or unprintable) is
// reported as an internal error
func H_Unsendable() {
	s := hx.NewServer(hx.Plain(64))
	sock := connect(s, wwr.ConnectionOptions{ConcurrencyLimit: limits[nd.Choice("limit", 4)]})
	fits := false
	s.Request = func(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		switch nd.Choice("why", 6) {
		case 0:
			n := 54 + nd.Choice("len", 4)
			enc := nd.Choice("encoding", 3)
			if enc == 2 {
				n &^= 1
			}
			if enc == 2 {
				fits = n <= 54
			} else {
				fits = n <= 55
			}
			return wwr.Payload{Encoding: pld.Encoding(enc), Data: nd.Bytes("reply", n)}, nil
		case 1:
			return wwr.Payload{Encoding: pld.Utf16, Data: nd.Bytes("reply", 1+2*nd.Choice("len", 3))}, nil
		case 2:
			return wwr.Payload{}, wwr.ErrRequest{Message: "m"}
		case 3:
			n := 52 + nd.Choice("len", 4)
			fits = n <= 53
			return wwr.Payload{}, wwr.ErrRequest{Code: "C", Message: nd.String("msg", n)}
		case 4:
			return wwr.Payload{}, &wwr.ErrRequest{Code: string(make([]byte, 256)), Message: "m"}
		}
		c := nd.Bytes("code", 2)
		nd.Assume(c[1] < 32 || c[1] > 126)
		return wwr.Payload{}, wwr.ErrRequest{Code: string(c), Message: "m"}
	}
	id := nd.Bytes("id", 8)
	sock.In <- hx.Request(0, id, nil, []byte{1})
	nd.Quiesce()
	out := sock.Sent()
	nd.Assert(len(out) == 1, "exactly one reply")
	r := hx.ParseReply(out[0])
	hx.Same(r.ID(), id, "identifier of the request")
	nd.Assert(fits == (r.Type != ref.ReplyInternalError), "internal error exactly if it can't be sent")
	nd.Assert(fits || len(r.Raw) == 9, "bare internal error")
	// the connection carries on
	s.Request = nil
	sock.In <- hx.Request(0, hx.ID(7), nil, []byte{1})
	nd.Quiesce()
	nd.Assert(len(sock.Sent()) == 2, "the next request is answered")
}

// H_Concurrent: two requests handled concurrently (limit 2 or none) or in turn;
// each reply carries its own request's identifier and content
//
//verif:opts quick=60
func H_Concurrent() {
	s := hx.NewServer(hx.Plain(64))
	nd.Assert(s.Err == nil, "server created")
	sock := hx.NewSock(64)
	s.Request = func(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		name := string(m.Name())
		data := append([]byte(name), m.Payload()...)
		if name == "b" && nd.Choice("fail", 2) == 1 {
			return wwr.Payload{}, wwr.ErrRequest{Code: "F", Message: string(data)}
		}
		return wwr.Payload{Data: data}, nil
	}
	ids := [][]byte{nd.Bytes("id", 8), nd.Bytes("id", 8)}
	data := [][]byte{nd.Bytes("data", 2), nd.Bytes("data", 3)}
	nd.Assume(!nd.EqBytes(ids[0], ids[1]))
	sock.Script = [][]byte{hx.Request(0, ids[0], []byte("a"), data[0]), hx.Request(1, ids[1], []byte("b"), data[1])}
	s.Start(sock, wwr.ConnectionOptions{ConcurrencyLimit: limits[1+nd.Choice("limit", 3)]})
	nd.Quiesce()
	out := sock.Sent()
	nd.Assert(len(out) == 2, "one reply per request")
	x, y := hx.ParseReply(out[0]), hx.ParseReply(out[1])
	if !nd.EqBytes(x.ID(), ids[0]) {
		nd.Cover("swapped")
		x, y = y, x
	}
	hx.Same(x.ID(), ids[0], "identifier of the first")
	hx.Same(y.ID(), ids[1], "identifier of the second")
	hx.Same(x.Payload(), append([]byte("a"), data[0]...), "reply of the first")
	hx.Same(y.Payload(), append([]byte("b"), data[1]...), "reply of the second")
}

// H_WriteFault: sending a reply fails at any step: at most one reply for that
// request, never a mixture, and other requests are answered
func H_WriteFault() {
	s := hx.NewServer(hx.Plain(64))
	sock := connect(s, wwr.ConnectionOptions{ConcurrencyLimit: limits[nd.Choice("limit", 4)]})
	var err error
	var p wwr.Payload
	s.Request = func(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		if string(m.Name()) == "ok" {
			return wwr.Payload{Data: []byte{9}}, nil
		}
		p, err, _ = outcome()
		return p, err
	}
	switch nd.Choice("fault", 3) {
	case 0:
		sock.FailGet = 2 // the first one sent the handshake
	case 1:
		sock.FailWrite = 2 + nd.Choice("write", 5)
	case 2:
		sock.FailClose = 2
	}
	sock.In <- hx.Request(0, hx.ID(1), []byte("first"), nil)
	nd.Quiesce()
	n := len(sock.Sent())
	nd.Assert(n <= 1, "at most one reply")
	sock.FailGet, sock.FailWrite, sock.FailClose = 0, 0, 0
	sock.In <- hx.Request(0, hx.ID(2), []byte("ok"), nil)
	nd.Quiesce()
	out := sock.Sent()
	nd.Assert(len(out) == n+1, "the other request is answered")
	for i, b := range out {
		r := hx.ParseReply(b)
		nd.Assert(int(r.ID()[7]) == i+2-n, "identifier")
	}
}

// H_Connections: requests with the same identifier on two connections are
// answered on their own connections
//
//verif:opts quick=60
func H_Connections() {
	s := hx.NewServer(hx.Plain(64))
	a := connect(s, wwr.ConnectionOptions{ConcurrencyLimit: -1})
	b := connect(s, wwr.ConnectionOptions{})
	s.Request = func(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		return wwr.Payload{Data: append([]byte{}, m.Payload()...)}, nil
	}
	id := nd.Bytes("id", 8)
	x, y := nd.Bytes("data", 2), nd.Bytes("data", 2)
	a.In <- hx.Request(0, id, nil, x)
	b.In <- hx.Request(0, id, nil, y)
	nd.Quiesce()
	nd.Assert(len(a.Sent()) == 1 && len(b.Sent()) == 1, "one reply each")
	hx.Same(hx.ParseReply(a.Sent()[0]).Payload(), x, "own reply")
	hx.Same(hx.ParseReply(b.Sent()[0]).Payload(), y, "own reply")
}

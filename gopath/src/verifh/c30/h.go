// Package c30: signals sent by the server arrive exactly as given or not at all.
package c30

import (
	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
)

func connect(size uint32) (*hx.Server, *hx.Sock, wwr.Connection) {
	s := hx.NewServer(hx.Plain(size))
	nd.Assert(s.Err == nil, "server created")
	sock := hx.NewSock(1 << 12)
	return s, sock, s.Connect(sock, hx.Options())
}

// valid says whether the protocol can represent a signal
func valid(enc int, name, data []byte) bool {
	ok := len(name)+len(data) > 0 && len(name) <= 255 && (enc != 2 || len(data)%2 == 0)
	for _, c := range name {
		ok = nd.And(ok, nd.And(c >= 32, c <= 126))
	}
	return ok
}

// send sends a signal and compares what arrives with what the protocol demands
func send(sock *hx.Sock, c wwr.Connection, size int, enc int, name, data []byte) {
	wname, wdata := string(name), string(data)
	before, gets := len(sock.Sent()), sock.Gets()
	err := c.Signal(name, wwr.Payload{Encoding: pld.Encoding(enc), Data: data})
	out := sock.Sent()[before:]
	nd.Assert(sock.Flushes() == sock.Gets(), "every writer is closed")
	nd.Assert(sock.Gets()-gets <= 1, "at most one message")
	nd.Assert(nd.And(nd.EqString(string(name), wname), nd.EqString(string(data), wdata)), "the caller's slices are left alone")
	want := ref.EncodeNamed(ref.SignalBinary+byte(enc), nil, name, data, enc == 2)
	if len(want) > size || !valid(enc, name, data) {
		nd.Cover("refused")
		nd.Assert(err != nil, "refused")
		nd.Assert(len(out) == 0, "nothing sent")
		if len(want) > size && len(name)+len(data) > 0 {
			_, ov := err.(wwr.ErrBufferOverflow)
			nd.Assert(ov, "overflow reported as such")
		}
		return
	}
	nd.Cover("sent")
	nd.Assert(err == nil, "accepted")
	nd.Assert(len(out) == 1, "exactly one message")
	nd.Assert(nd.EqBytes(out[0], want), "signal")
	m := message.NewMessage(uint32(size))
	ok, perr := m.ReadBytes(out[0])
	nd.Assert(ok && perr == nil, "readable within the announced buffer")
	nd.Assert(nd.EqBytes(m.Name(), name), "name")
	nd.Assert(nd.EqBytes(m.Payload(), data), "payload")
	nd.Assert(m.PayloadEncoding() == pld.Encoding(enc), "encoding")
}

// H_Short: names of 0..3 arbitrary bytes, payloads of 0..4 arbitrary bytes, each
// encoding, followed by another signal
func H_Short() {
	_, sock, c := connect(32)
	enc := nd.Choice("encoding", 3)
	send(sock, c, 32, enc, nd.Bytes("name", nd.Choice("namelen", 4)), nd.Bytes("data", nd.Choice("len", 5)))
	send(sock, c, 32, nd.Choice("next", 3), []byte("n"), nd.Bytes("data2", 2))
}

// H_Boundary: signals around the size of the message buffer (32..35 bytes) and
// names of 0..3 arbitrary bytes
func H_Boundary() {
	size := 32 + nd.Choice("size", 4)
	_, sock, c := connect(uint32(size))
	enc := nd.Choice("encoding", 3)
	n := nd.Choice("namelen", 4)
	send(sock, c, size, enc, nd.Bytes("name", n), nd.Bytes("data", size-2-n-2+nd.Choice("len", 5)))
	send(sock, c, size, enc, []byte("n"), []byte("ok"))
}

// H_LongNames: names of 253..258 bytes, one of which is arbitrary
func H_LongNames() {
	_, sock, c := connect(512)
	enc := nd.Choice("encoding", 3)
	name := make([]byte, 253+nd.Choice("namelen", 6))
	for i := range name {
		name[i] = 'a'
	}
	name[nd.Choice("at", 2)*(len(name)-1)] = nd.Byte("char")
	send(sock, c, 512, enc, name, nd.Bytes("data", nd.Choice("len", 3)))
}

// H_Fault: getting the writer, any write or the final flush fails: the failure is
// reported, nothing arrives, and the next signal arrives
func H_Fault() {
	_, sock, c := connect(64)
	enc := nd.Choice("encoding", 3)
	name, data := nd.Bytes("name", 1), nd.Bytes("data", 2)
	nd.Assume(valid(enc, name, data))
	gets, writes, flushes := sock.Gets(), sock.Writes(), sock.Flushes()
	g, w, f := hx.AnyFault()
	sock.FailGet, sock.FailWrite, sock.FailClose = gets+g, writes+w, flushes+f
	err := c.Signal(name, wwr.Payload{Encoding: pld.Encoding(enc), Data: data})
	// Whether it was among the operations performed
	hit := nd.Or(nd.And(g > 0, gets+g <= sock.Gets()), nd.Or(
		nd.And(w > 0, writes+w <= sock.Writes()), nd.And(f > 0, flushes+f <= sock.Flushes())))
	nd.Assert((err != nil) == hit, "failure reported")
	sock.FailGet, sock.FailWrite, sock.FailClose = 0, 0, 0
	if err != nil {
		nd.Cover("failed")
		nd.Assert(len(sock.Sent()) == 0, "nothing arrived")
	}
	n := len(sock.Sent())
	nd.Assert(c.Signal(name, wwr.Payload{Encoding: pld.Encoding(enc), Data: data}) == nil, "next signal accepted")
	nd.Assert(len(sock.Sent()) == n+1, "next signal arrived")
}

// H_Target: of several connections only the one the signal is sent on receives it,
// and none that ended before
func H_Target() {
	s := hx.NewServer(hx.Plain(64))
	nd.Assert(s.Err == nil, "server created")
	var socks []*hx.Sock
	var cons []wwr.Connection
	for i := 0; i < 3; i++ {
		k := hx.NewSock(64)
		socks = append(socks, k)
		cons = append(cons, s.Connect(k, wwr.ConnectionOptions{}))
	}
	to := nd.Choice("to", 3)
	gone := nd.Choice("gone", 4)
	if gone < 3 {
		if nd.Choice("how", 2) == 0 {
			cons[gone].Close()
		} else {
			socks[gone].In <- nil
		}
		nd.Quiesce()
	}
	data := nd.Bytes("data", 2)
	err := cons[to].Signal([]byte("sig"), wwr.Payload{Data: data})
	nd.Assert((err != nil) == (to == gone), "a signal on an ended connection is refused")
	for i, k := range socks {
		want := 0
		if i == to && i != gone {
			want = 1
			nd.Assert(nd.EqBytes(k.Sent()[0], hx.Signal(0, []byte("sig"), data)), "signal")
		}
		nd.Assert(len(k.Sent()) == want, "only the addressee gets the signal")
	}
}

// H_Concurrent: two signals, or a signal and the reply of a handler, sent at the
// same time on one connection arrive unmixed, the handler's own signal before its
// reply
//
//verif:opts quick=60
func H_Concurrent() {
	s, sock, c := connect(64)
	a, b := nd.Bytes("a", 2), nd.Bytes("b", 3)
	done := make(chan error, 2)
	go func() { done <- c.Signal([]byte("a"), wwr.Payload{Data: a}) }()
	second := hx.Signal(0, []byte("bb"), b)
	if nd.Choice("second", 2) == 0 {
		go func() { done <- c.Signal([]byte("bb"), wwr.Payload{Data: b}) }()
		nd.Quiesce()
		nd.Assert(<-done == nil, "sent")
	} else {
		s.Request = func(c wwr.Connection, _ wwr.Message) (wwr.Payload, error) {
			nd.Assert(c.Signal([]byte("bb"), wwr.Payload{Data: b}) == nil, "sent by the handler")
			return wwr.Payload{Data: b}, nil
		}
		sock.In <- hx.Request(0, hx.ID(7), []byte("r"), nil)
		nd.Quiesce()
	}
	nd.Assert(<-done == nil, "sent")
	first := hx.Signal(0, []byte("a"), a)
	seenA, seenB, seenR := 0, 0, 0
	for _, m := range sock.Sent() {
		switch {
		case m[0] != ref.SignalBinary:
			r := hx.ParseReply(m)
			nd.Assert(nd.EqBytes(r.Payload(), b), "reply")
			nd.Assert(seenB == 1, "the handler's signal precedes its reply")
			seenR++
		case m[1] == 1:
			nd.Assert(nd.EqBytes(m, first), "first signal")
			seenA++
		default:
			nd.Assert(nd.EqBytes(m, second), "second signal")
			seenB++
		}
	}
	nd.Assert(seenA == 1 && seenB == 1 && seenR <= 1 && len(sock.Sent()) == seenA+seenB+seenR, "each arrives once")
}

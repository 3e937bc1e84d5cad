// Package c25: the in-memory transport delivers every message once, intact and
// in order, and closing never wedges anybody.
package c25

import (
	"time"

	"verifh/hx"
	"verifh/nd"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

const size = 16

// ends returns the writing and the reading end, in either direction
func ends() (wwr.Socket, wwr.Socket) {
	c, s := hx.NewMemChan(size).Pair()
	if nd.Choice("direction", 2) == 0 {
		return c, s
	}
	return s, c
}

func idle(what string) {
	nd.Quiesce()
	nd.Assert(nd.Live() == 0, what+": nobody is left waiting")
}

// alive asserts that the connection still carries messages from w to r
func alive(w, r wwr.Socket, what string) {
	data := nd.Bytes("probe", 2)
	res := make(chan error, 1)
	go func() { res <- hx.Send(w, nil, data) }()
	m, err := hx.Recv(r, size)
	nd.Assert(err == nil && <-res == nil, what+": connection usable")
	nd.Assert(nd.EqBytes(m.Payload(), data), what+": next message intact")
}

// closed asserts that both ends refuse to read and write
func closed(a, b wwr.Socket, what string) {
	for _, s := range []wwr.Socket{a, b} {
		nd.Assert(!s.IsConnected(), what+": disconnected")
		_, err := hx.Recv(s, size)
		nd.Assert(err != nil && err.IsCloseErr(), what+": read reports closure")
		nd.Assert(hx.Send(s, nil, []byte{1}) != nil, what+": write refused")
		nd.Assert(s.Close() == nil, what+": closing again is harmless")
	}
}

// H_Order: one writer sends 3 messages with names and payloads of 1..3 arbitrary
// bytes, one reader, both directions
//
//verif:opts races
func H_Order() {
	w, r := ends()
	var names, data [3][]byte
	for i := range data {
		names[i], data[i] = nd.Bytes("name", i), nd.Bytes("data", 3-i)
	}
	res := make(chan error, 3)
	go func() {
		for i := range data {
			res <- hx.Send(w, names[i], data[i])
		}
	}()
	for i := range data {
		m, err := hx.Recv(r, size)
		nd.Assert(err == nil, "read")
		nd.Assert(nd.EqBytes(m.Payload(), data[i]), "payload in order")
		nd.Assert(nd.EqBytes(m.Name(), names[i]), "name in order")
		nd.Assert(<-res == nil, "written")
	}
	idle("order")
}

// H_Writers: two concurrent writers on one end (3 thorough), every content of 2
// and 3 bytes: messages are not mixed, lost or duplicated
//
//verif:opts races
func H_Writers() {
	w, r := ends()
	n := 2 + nd.Tier()
	data := make([][]byte, n)
	res := make(chan error, n)
	for i := range data {
		data[i] = nd.Bytes("data", 2+i)
		go func(i int) { res <- hx.Send(w, []byte{'a' + byte(i)}, data[i]) }(i)
	}
	seen := make([]int, n)
	for range data {
		m, err := hx.Recv(r, size)
		nd.Assert(err == nil && len(m.Name()) == 1, "read")
		i := int(m.Name()[0] - 'a')
		nd.Assert(i >= 0 && i < n, "a message that was written")
		seen[i]++
		nd.Assert(nd.EqBytes(m.Payload(), data[i]), "not mixed")
	}
	for i := range data {
		nd.Assert(seen[i] == 1 && <-res == nil, "each delivered exactly once")
	}
	idle("writers")
}

// H_Duplex: both ends write and read one message at the same time
//
//verif:opts races
func H_Duplex() {
	a, b := ends()
	x, y := nd.Bytes("x", 2), nd.Bytes("y", 3)
	res := make(chan error, 2)
	go func() { res <- hx.Send(a, nil, x) }()
	go func() { res <- hx.Send(b, nil, y) }()
	got := make(chan *message.Message, 1)
	go func() {
		m, err := hx.Recv(a, size)
		nd.Assert(err == nil, "read")
		got <- m
	}()
	m, err := hx.Recv(b, size)
	nd.Assert(err == nil && nd.EqBytes(m.Payload(), x), "one direction")
	nd.Assert(nd.EqBytes((<-got).Payload(), y), "other direction")
	nd.Assert(<-res == nil && <-res == nil, "both written")
	idle("duplex")
}

// H_Pieces: a message of 1..4 pieces of 0..6 arbitrary bytes: delivered whole if
// it fits the buffer of 16 bytes; otherwise the excess write fails and the
// connection carries on
func H_Pieces() {
	w, r := ends()
	wr, err := w.GetWriter()
	nd.Assert(err == nil, "writer")
	want := []byte{message.MsgSignalBinary, 0}
	wr.Write(want)
	overflow := false
	for i, n := 0, nd.Choice("pieces", 4)+1; i < n; i++ {
		p := nd.Bytes("piece", nd.Choice("len", 4)*2)
		k, err := wr.Write(p)
		if len(want)+len(p) > size {
			nd.Assert(err != nil, "excess refused")
			overflow = true
			break
		}
		nd.Assert(err == nil && k == len(p), "piece accepted")
		want = append(want, p...)
	}
	res := make(chan error, 1)
	go func() { res <- wr.Close() }()
	if overflow {
		nd.Cover("overflow")
		nd.Assert(<-res != nil, "closing after a failed write fails")
	} else if len(want) < 3 {
		nd.Cover("malformed")
		_, err := hx.Recv(r, size)
		nd.Assert(err != nil && !err.IsCloseErr(), "malformed message reported")
		<-res
	} else {
		nd.Cover("delivered")
		m, err := hx.Recv(r, size)
		nd.Assert(err == nil && nd.EqBytes(m.MsgBuffer.Data(), want), "pieces joined")
		nd.Assert(<-res == nil, "written")
	}
	alive(w, r, "pieces")
	idle("pieces")
}

// H_Empty: closing a writer without writing anything fails and wedges nobody
//
//verif:opts races
func H_Empty() {
	w, r := ends()
	wr, err := w.GetWriter()
	nd.Assert(err == nil, "writer")
	second := make(chan error, 1)
	if nd.Choice("waiting", 2) == 1 {
		go func() { second <- hx.Send(w, nil, []byte{7}) }()
	} else {
		second <- nil
		go func() { hx.Send(w, nil, []byte{7}) }()
	}
	nd.Assert(wr.Close() != nil, "nothing to send")
	m, rerr := hx.Recv(r, size)
	nd.Assert(rerr == nil && nd.EqBytes(m.Payload(), []byte{7}), "the next writer's message arrives")
	nd.Assert(<-second == nil, "the next writer succeeds")
	alive(w, r, "empty")
	idle("empty")
}

// H_Malformed: any message of 1..5 arbitrary bytes, well-formed or not, is
// followed by a well-formed one that is delivered
//
//verif:opts races
func H_Malformed() {
	w, r := ends()
	b := nd.BytesUpTo("bytes", 5)
	nd.Assume(len(b) > 0)
	ref := message.NewMessage(size)
	parsed, perr := ref.ReadBytes(b)
	res := make(chan error, 1)
	wr, err := w.GetWriter()
	nd.Assert(err == nil, "writer")
	wr.Write(b)
	go func() { res <- wr.Close() }()
	m, rerr := hx.Recv(r, size)
	nd.Assert((rerr == nil) == (parsed && perr == nil), "exactly the parser's verdict")
	if rerr == nil {
		nd.Cover("well-formed")
		nd.Assert(nd.EqBytes(m.MsgBuffer.Data(), b), "delivered")
	} else {
		nd.Cover("malformed")
		nd.Assert(!rerr.IsCloseErr(), "not a closure")
	}
	<-res
	alive(w, r, "malformed")
	idle("malformed")
}

// race runs a writer, a reader and closers at the same time
func race(readers, closers int) {
	w, r := ends()
	data := nd.Bytes("data", 2)
	var werr error
	got := 0
	go func() { werr = hx.Send(w, nil, data) }()
	for i := 0; i < readers; i++ {
		go func() {
			m, err := hx.Recv(r, size)
			if err == nil {
				got++
				nd.Assert(nd.EqBytes(m.Payload(), data), "content intact")
			} else {
				nd.Assert(err.IsCloseErr(), "closure reported as such")
			}
		}()
	}
	for i := 0; i < closers; i++ {
		s := w
		if (nd.Choice("closer", 2) == 1) != (i == 1) {
			s = r
		}
		go func() { nd.Assert(s.Close() == nil, "closed") }()
	}
	idle("close race")
	nd.Assert(got <= 1, "delivered at most once")
	if werr == nil {
		nd.Cover("delivered")
		nd.Assert(got == 1, "a successful write was read")
	} else {
		nd.Cover("failed")
	}
	closed(w, r, "close race")
}

// H_CloseRace: a writer, a reader and a closer of either end, any interleaving
func H_CloseRace() { race(1, 1) }

// H_CloseNoReader: a writer and a closer of either end, nobody reads
func H_CloseNoReader() { race(0, 1) }

// H_CloseTwice: a writer and closers at both ends
func H_CloseTwice() { race(0, 2) }

// H_CloseReaders: a reader at each end, nobody writes, then a closer
func H_CloseReaders() {
	a, b := ends()
	for _, s := range []wwr.Socket{a, b} {
		s := s
		go func() {
			_, err := hx.Recv(s, size)
			nd.Assert(err != nil && err.IsCloseErr(), "reader told about the closure")
		}()
	}
	go func() { nd.Assert(a.Close() == nil, "closed") }()
	idle("close readers")
	closed(a, b, "close readers")
}

// H_CloseWriters: two writers on one end, a reader of one message and a closer
//
//verif:opts quick=60
func H_CloseWriters() {
	w, r := ends()
	ok := 0
	got := 0
	for i := 0; i < 2; i++ {
		d := nd.Bytes("data", 1+i)
		go func() {
			if hx.Send(w, nil, d) == nil {
				ok++
			}
		}()
	}
	go func() {
		if _, err := hx.Recv(r, size); err == nil {
			got++
		}
	}()
	go func() { r.Close() }()
	idle("close writers")
	nd.Assert(ok <= got, "every successful write was read")
	closed(w, r, "close writers")
}

// H_Deadline: a read with a deadline, racing with a writer; then the end is
// closed or the message was delivered
func H_Deadline() {
	w, r := ends()
	data := nd.Bytes("data", 2)
	var werr error
	writes := nd.Choice("writes", 2) == 1
	if writes {
		go func() { werr = hx.Send(w, nil, data) }()
	}
	m := message.NewMessage(size)
	err := r.Read(m, time.Now().Add(time.Millisecond))
	if err == nil {
		nd.Cover("delivered")
		nd.Assert(writes && nd.EqBytes(m.Payload(), data), "content intact")
		nd.Quiesce()
		nd.Assert(werr == nil, "written")
		alive(w, r, "deadline")
	} else {
		nd.Cover("timeout")
		nd.Assert(!err.IsCloseErr(), "a timeout is not a graceful closure")
		closed(w, r, "deadline")
		nd.Assert(!writes || func() bool { nd.Quiesce(); return werr != nil }(), "undelivered write fails")
	}
	idle("deadline")
}

// H_Reconnect: a connection is closed while a message may be under way; after
// dialling again only new messages arrive
func H_Reconnect() {
	mc := hx.NewMemChan(size)
	c, s := mc.Pair()
	old := nd.Bytes("old", 2)
	if nd.Choice("pending", 2) == 1 {
		go func() { nd.Assert(hx.Send(c, nil, old) != nil, "nobody read it") }()
	}
	if nd.Choice("closer", 2) == 0 {
		c.Close()
	} else {
		s.Close()
	}
	nd.Quiesce()
	closed(c, s, "between")
	nd.Assert(c.Dial(time.Time{}) == nil, "dialled again")
	s = <-mc.Accepted
	if nd.Choice("direction", 2) == 0 {
		alive(c, s, "reconnected")
	} else {
		alive(s, c, "reconnected")
	}
	idle("reconnect")
}

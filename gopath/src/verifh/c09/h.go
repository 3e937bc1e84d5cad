// Package c09: the handshake comes first, is correct, and leaves nothing behind
// if it fails.
package c09

import (
	"time"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

// options returns options with every read timeout from a second to the maximum,
// every buffer size from the minimum, and sub-protocol names of up to n bytes
func options(n int) wwr.ServerOptions {
	o := hx.Plain(nd.Uint32("size"))
	nd.Assume(o.MessageBufferSize >= 32)
	o.ReadTimeout = time.Duration(nd.Int("timeout", int(time.Second), (1<<32-1)*int(time.Millisecond)+999999))
	o.SubProtocolName = nd.BytesUpTo("name", n)
	return o
}

func check(o wwr.ServerOptions, b []byte) {
	m := ref.Decode(b)
	nd.Assert(m.OK && m.Conf, "the first message is a handshake")
	nd.Assert(m.Major == 2 && m.Minor == 0, "protocol version")
	nd.Assert(int64(m.TimeoutMs) == int64(o.ReadTimeout/time.Millisecond), "read timeout")
	nd.Assert(m.BufferSize == o.MessageBufferSize, "buffer size")
	hx.Same(b[m.NameOff:m.NameOff+m.NameLen], o.SubProtocolName, "sub-protocol name")
}

// H_Content: the handshake announces every configuration correctly
//
//verif:opts quick=60
func H_Content() {
	n := 4
	if nd.Tier() > 0 {
		n = 12
	}
	o := options(n)
	s := hx.NewServer(o)
	nd.Assert(s.Err == nil, "server created")
	sock := hx.NewSock(1 << 20)
	seen := 0
	sock.Tap = func(b []byte) {
		seen++
		check(o, b)
	}
	sock.FailClose = 1
	s.Serve(sock, wwr.ConnectionOptions{})
	nd.Assert(seen == 1, "one handshake")
}

// H_First: the handshake is sent before any hook runs and before anything is
// read, on each of two connections, also if the hook itself sends a signal or
// the client has sent messages already
func H_First() {
	o := hx.Plain(64)
	o.ReadTimeout = time.Duration(nd.Int("timeout", int(time.Second), int(time.Hour)))
	o.SubProtocolName = nd.Bytes("name", nd.Choice("namelen", 3))
	s := hx.NewServer(o)
	nd.Assert(s.Err == nil, "server created")
	var cur *hx.Sock
	connected := 0
	s.OnConnected = func(_ wwr.ConnectionOptions, c wwr.Connection) {
		connected++
		nd.Assert(len(cur.Out) == 1, "handshake before the connected hook")
		if nd.Choice("signal", 2) == 1 {
			nd.Assert(c.Signal([]byte("x"), wwr.Payload{}) == nil, "signal in the hook")
		}
	}
	s.Signal = func(wwr.Connection, wwr.Message) {
		nd.Assert(len(cur.Out) >= 1 && connected > 0, "handshake before handlers")
	}
	for i := 0; i < 2; i++ {
		sock := hx.NewSock(64)
		cur = sock
		sock.End = true
		if nd.Choice("early", 2) == 1 {
			sock.Script = [][]byte{hx.Signal(0, nil, []byte{1})}
		}
		sock.OnOut = func(b []byte) {
			if len(sock.Out) == 1 {
				nd.Assert(sock.Reads == 0, "nothing read before the handshake")
				check(o, b)
			} else {
				nd.Assert(!ref.Decode(b).Conf, "one handshake")
			}
		}
		s.Serve(sock, wwr.ConnectionOptions{})
		nd.Assert(len(sock.Out) >= 1 && connected == i+1, "served")
	}
}

// H_Fails: a failure at each step of sending the handshake (no writer, write
// error, flush error, buffer too small, peer gone)
func H_Fails() {
	s := hx.NewServer(hx.Plain(64))
	nd.Assert(s.Err == nil, "server created")
	hooks := 0
	s.OnConnected = func(wwr.ConnectionOptions, wwr.Connection) { hooks++ }
	s.OnDisconnected = func(wwr.Connection, error) { hooks++ }
	s.Signal = func(wwr.Connection, wwr.Message) { hooks++ }
	s.Request = func(wwr.Connection, wwr.Message) (wwr.Payload, error) { hooks++; return wwr.Payload{}, nil }
	sock := hx.NewSock(64)
	sock.Script = [][]byte{hx.Signal(0, nil, []byte{1}), hx.Request(0, hx.ID(1), nil, []byte{1})}
	sock.End = true
	switch nd.Choice("fault", 5) {
	case 0:
		sock.FailGet = 1
	case 1:
		sock.FailWrite = 1
	case 2:
		sock.FailClose = 1
	case 3:
		sock.Limit = 5
	case 4:
		sock.Close()
	}
	closes := sock.Closes
	s.Serve(sock, wwr.ConnectionOptions{})
	nd.Assert(sock.Closes == closes+1 && !sock.IsConnected(), "socket closed")
	nd.Assert(hooks == 0, "no hook runs")
	nd.Assert(sock.Reads == 0, "nothing is read")
	nd.Assert(len(sock.Out) == 0, "nothing was sent")
	nd.Assert(s.S.ActiveSessionsNum() == 0, "no session")
	// the server still serves others and shuts down
	good := hx.NewSock(64)
	good.End = true
	s.Serve(good, wwr.ConnectionOptions{})
	nd.Assert(hooks == 2 && len(good.Out) == 1, "other connections are served")
	nd.Assert(s.S.Shutdown() == nil && s.Shutdowns == 1, "shuts down")
}

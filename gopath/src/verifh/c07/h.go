// Package c07: reused messages and pools.
package c07

import (
	"verifh/hx"
	"verifh/nd"

	"github.com/qbeon/webwire-go/message"
)

const size = 12

func same(msg *message.Message, in []byte, parsed bool, err error, what string) {
	fresh := message.NewMessage(size)
	fp, ferr := fresh.ReadBytes(in)
	nd.Assert(parsed == fp, what+": same outcome as a fresh message")
	nd.Assert((err == nil) == (ferr == nil), what+": same error outcome as a fresh message")
	if err != nil || !parsed || ferr != nil || !fp {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	nd.Assert(msg.MsgType == fresh.MsgType, what+": type")
	nd.Assert(msg.Identifier() == fresh.Identifier(), what+": identifier")
	hx.Same(msg.Name(), fresh.Name(), what+": name")
	hx.Same(msg.Payload(), fresh.Payload(), what+": payload")
	nd.Assert(msg.PayloadEncoding() == fresh.PayloadEncoding(), what+": encoding")
	a, b := msg.ServerConfiguration, fresh.ServerConfiguration
	hx.Same(a.SubProtocolName, b.SubProtocolName, what+": sub-protocol")
	nd.Assert(a.MajorProtocolVersion == b.MajorProtocolVersion && a.MinorProtocolVersion == b.MinorProtocolVersion &&
		a.ReadTimeout == b.ReadTimeout && a.MessageBufferSize == b.MessageBufferSize, what+": handshake settings")
}

func read(msg *message.Message, in []byte, stream bool) (bool, error) {
	if stream {
		return msg.Read(&hx.Reader{Data: in})
	}
	return msg.ReadBytes(in)
}

func nonEmpty(label string) []byte {
	b := nd.BytesUpTo(label, size)
	nd.Assume(len(b) > 0)
	return b
}

// H_Reread: any message of 1..12 bytes read into a message object that still
// holds another one of 1..12 bytes; one from a slice,
// the other from a stream
func H_Reread() {
	msg := message.NewMessage(size)
	a, b := nonEmpty("first"), nonEmpty("second")
	stream := nd.Choice("stream", 2) == 1
	read(msg, a, stream)
	p, err := read(msg, b, !stream)
	same(msg, b, p, err, "reread")
}

// H_CloseReuse: any message of 1..12 bytes read into a pooled object that held
// another one of 1..12 bytes before it was closed
func H_CloseReuse() {
	pool := message.NewSyncPool(size, 0)
	msg := pool.Get()
	a, b := nonEmpty("first"), nonEmpty("second")
	msg.ReadBytes(a)
	msg.Close()
	nd.Assert(msg.MsgBuffer.IsEmpty(), "closed message is empty")
	again := pool.Get()
	nd.Assert(again.MsgBuffer.IsEmpty() && again.MsgType == 0 && len(again.MsgName) == 0 && len(again.MsgPayload.Data) == 0 &&
		again.MsgIdentifier == [8]byte{} && len(again.ServerConfiguration.SubProtocolName) == 0, "pool hands out empty messages")
	p, err := read(again, b, nd.Choice("stream", 2) == 1)
	same(again, b, p, err, "reuse")
}

// H_Unpooled: closing a message that does not come from a pool
func H_Unpooled() {
	msg := message.NewMessage(size)
	a := nonEmpty("in")
	msg.ReadBytes(a)
	msg.Close()
	nd.Assert(msg.MsgBuffer.IsEmpty(), "closed message is empty")
	msg.Close()
	p, err := msg.ReadBytes(a)
	same(msg, a, p, err, "after close")
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

// H_AfterClose: accessors of a closed message refuse to answer, any message of
// 1..12 bytes before
func H_AfterClose() {
	pool := message.NewSyncPool(size, 0)
	msg := pool.Get()
	msg.ReadBytes(nonEmpty("in"))
	msg.Close()
	nd.Assert(panics(func() { msg.Identifier() }), "identifier after close")
	nd.Assert(panics(func() { msg.Name() }), "name after close")
	nd.Assert(panics(func() { msg.Payload() }), "payload after close")
	nd.Assert(panics(func() { msg.PayloadUtf8() }), "payload as UTF8 after close")
	nd.Assert(panics(func() { msg.PayloadEncoding() }), "encoding after close")
}

// H_Pool: every history of 6 steps over three holders of pool messages, each
// step getting, filling (signals with 1..3 arbitrary bytes) or closing (also repeatedly)
func H_Pool() {
	pool := message.NewSyncPool(size, 0)
	var held [3]*message.Message
	var data [3][]byte
	for step := 0; step < 6; step++ {
		k := nd.Choice("holder", 3)
		if held[k] == nil {
			m := pool.Get()
			for _, o := range held {
				nd.Assert(o != m, "a message handed out twice")
			}
			nd.Assert(m.MsgBuffer.IsEmpty() && m.MsgType == 0 && len(m.MsgName) == 0 && len(m.MsgPayload.Data) == 0, "pool hands out empty messages")
			held[k] = m
			data[k] = append([]byte{message.MsgSignalBinary, 0}, nd.Bytes("data", 1+k)...)
			m.ReadBytes(data[k])
		} else {
			held[k].Close()
			if nd.Choice("again", 2) == 1 {
				held[k].Close()
			}
			held[k] = nil
		}
		for i, o := range held {
			if o != nil {
				nd.Assert(nd.EqBytes(o.MsgBuffer.Data(), data[i]), "held message keeps its content")
			}
		}
	}
}

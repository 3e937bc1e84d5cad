// Package c06: reading from a stream equals parsing the delivered bytes at once.
package c06

import (
	"verifh/hx"
	"verifh/nd"

	"github.com/qbeon/webwire-go/message"
)

func stream(data []byte, size uint32, chunks int) {
	r := hx.NewReader(data, chunks)
	r.Fail = nd.Choice("fail", 2) == 1
	msg := message.NewMessage(size)
	parsed, err := msg.Read(r)

	if r.Fail {
		nd.Cover("fault")
		nd.Assert(err != nil, "a failing stream is reported")
		return
	}
	if len(data) > int(size) {
		nd.Cover("overflow")
		nd.Assert(err != nil && !parsed, "a message that does not fit is refused")
		return
	}
	nd.Cover("fits")
	want := message.NewMessage(size)
	wantParsed, wantErr := want.ReadBytes(data)
	nd.Assert(parsed == wantParsed, "same outcome")
	nd.Assert((err == nil) == (wantErr == nil), "same error outcome")
	if err != nil || len(data) < 1 || !parsed {
		return
	}
	nd.Assert(msg.MsgType == want.MsgType, "same type")
	id, wid := msg.Identifier(), want.Identifier()
	nd.Assert(id == wid, "same identifier")
	nd.Assert(nd.EqBytes(msg.Name(), want.Name()), "same name")
	nd.Assert(nd.EqBytes(msg.Payload(), want.Payload()), "same payload")
	nd.Assert(msg.PayloadEncoding() == want.PayloadEncoding(), "same encoding")
	nd.Assert(nd.EqBytes(msg.MsgBuffer.Data(), data), "exactly the delivered bytes")
}

// H_Stream: messages of 0..14 bytes into a buffer of 12 bytes, up to 3 chunks
// of arbitrary (also zero) size, end of stream with or after the last chunk,
// or a failure
func H_Stream() {
	stream(nd.Bytes("data", nd.Choice("len", 15)), 12, 3)
}

// H_StreamTiny: messages of 0..6 bytes into buffers of 1..4 bytes, up to 4 chunks
func H_StreamTiny() {
	stream(nd.Bytes("data", nd.Choice("len", 7)), uint32(nd.Choice("size", 4)+1), 4)
}

// Package c02: the parser accepts exactly the documented layouts and reports
// exactly the documented fields (differential check against package ref).
package c02

import (
	"time"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	"github.com/qbeon/webwire-go/message"
)

func compare(in []byte) {
	msg := message.NewMessage(uint32(cap(in)))
	parsed, err := msg.ReadBytes(in)
	want := ref.Decode(in)
	got := parsed && err == nil
	nd.Assert(got == want.OK, "accepted exactly when the layout is valid")
	if !want.OK || !got {
		nd.Cover("invalid")
		return
	}
	nd.Cover("valid")
	nd.Assert(msg.MsgType == want.Type, "type")
	if want.HasID {
		id := msg.Identifier()
		hx.Same(id[:], in[1:9], "identifier")
		hx.Same(msg.MsgIdentifierBytes, in[1:9], "identifier bytes")
	}
	if want.Conf {
		c := msg.ServerConfiguration
		nd.Assert(nd.And(c.MajorProtocolVersion == want.Major, c.MinorProtocolVersion == want.Minor), "protocol version")
		nd.Assert(c.ReadTimeout == time.Duration(want.TimeoutMs)*time.Millisecond, "read timeout")
		nd.Assert(c.MessageBufferSize == want.BufferSize, "buffer size")
		hx.Same(c.SubProtocolName, in[want.NameOff:want.NameOff+want.NameLen], "sub-protocol name")
		return
	}
	hx.Same(msg.Name(), in[want.NameOff:want.NameOff+want.NameLen], "name")
	hx.Same(msg.Payload(), in[want.PayOff:want.PayOff+want.PayLen], "payload")
	if want.Type != ref.ReplyError { // the tests pin "binary" for it
		nd.Assert(int(msg.PayloadEncoding()) == want.Enc, "payload encoding")
	}
	rr := want.Type == ref.CloseSession || want.Type == ref.RestoreSession ||
		want.Type == ref.RequestBinary || want.Type == ref.RequestUtf8 || want.Type == ref.RequestUtf16
	nd.Assert(msg.RequiresReply() == rr, "requires reply")
}

// H_Short: every message of 1..32 bytes
func H_Short() {
	in := nd.BytesUpTo("in", 32)
	nd.Assume(len(in) > 0)
	compare(in)
}

// H_Long: every message of 1..290 bytes (names of up to 255 bytes)
func H_Long() {
	in := nd.BytesUpTo("in", 290)
	nd.Assume(len(in) > 0)
	compare(in)
}

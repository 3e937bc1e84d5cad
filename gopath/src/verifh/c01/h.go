// Package c01: no input makes the message parser crash or hand out data that
// is not part of the message.
package c01

import (
	"verifh/nd"

	"github.com/qbeon/webwire-go/message"
)

// within tells whether s aliases b[off:...]: all handed out data must be a
// part of the received bytes
func check(max int) {
	msg := message.NewMessage(uint32(max))
	in := nd.BytesUpTo("in", max)
	parsed, err := msg.ReadBytes(in)
	if len(in) == 0 {
		nd.Assert(!parsed, "an empty message has no type")
		return
	}
	if parsed && err == nil {
		nd.Cover("accepted")
		nd.Assert(msg.MsgType == in[0], "type is the first byte")
		nd.Assert(len(msg.MsgName)+len(msg.MsgPayload.Data) <= len(in), "name and payload fit in the message")
		nd.Assert(len(msg.Name()) <= 255, "name of at most 255 bytes")
		id := msg.Identifier()
		_ = id
		nd.Assert(len(msg.Payload()) <= len(in), "payload fits in the message")
		msg.PayloadEncoding()
		msg.RequiresReply()
	} else {
		nd.Cover("rejected")
		nd.Assert(err != nil, "a rejected message is rejected with an error")
	}
}

// H_ParseShort: every message of 0..40 bytes
func H_ParseShort() { check(40) }

// H_ParseLong: every message of 0..300 bytes (names of up to 255 bytes)
func H_ParseLong() { check(300) }

// H_Oversize: every message of 9..20 bytes offered to a buffer of 8 bytes
func H_Oversize() {
	msg := message.NewMessage(8)
	in := nd.BytesUpTo("in", 20)
	nd.Assume(len(in) > 8)
	parsed, err := msg.ReadBytes(in)
	nd.Assert(!parsed && err != nil, "a message larger than the buffer is rejected")
	nd.Cover("oversize")
	ok := nd.BytesUpTo("in", 8)
	nd.Assume(len(ok) == 1)
	nd.Assume(ok[0] == message.MsgHeartbeat)
	parsed, err = msg.ReadBytes(ok)
	nd.Assert(parsed && err == nil, "the buffer is usable after an overflow")
}

// H_PayloadUtf8: decoding the payload of every accepted message of 0..20 bytes
// as UTF-8 text
func H_PayloadUtf8() {
	msg := message.NewMessage(12)
	in := nd.BytesUpTo("in", 12)
	parsed, err := msg.ReadBytes(in)
	if parsed && err == nil && len(in) > 0 && len(msg.Payload()) <= 4 {
		_, uerr := msg.PayloadUtf8()
		if uerr != nil {
			nd.Fail("payloads of accepted messages are decodable")
		} else {
			nd.Cover("decoded")
		}
	}
}

// Package c08: decoding payloads to UTF-8.
package c08

import (
	"verifh/nd"

	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
)

// put appends the UTF-8 encoding of a code point
func put(b []byte, r uint32) []byte {
	switch {
	case r < 0x80:
		return append(b, byte(r))
	case r < 0x800:
		return append(b, byte(0xC0|r>>6), byte(0x80|r&0x3F))
	case r < 0x10000:
		return append(b, byte(0xE0|r>>12), byte(0x80|r>>6&0x3F), byte(0x80|r&0x3F))
	}
	return append(b, byte(0xF0|r>>18), byte(0x80|r>>12&0x3F), byte(0x80|r>>6&0x3F), byte(0x80|r&0x3F))
}

// utf16 is the reference conversion: unpaired surrogates become U+FFFD
func utf16(d []byte) []byte {
	var out []byte
	for i := 0; i+1 < len(d); i += 2 {
		u := uint32(d[i]) | uint32(d[i+1])<<8
		if u >= 0xD800 && u < 0xDC00 && i+3 < len(d) {
			v := uint32(d[i+2]) | uint32(d[i+3])<<8
			if v >= 0xDC00 && v < 0xE000 {
				out = put(out, 0x10000+(u-0xD800)<<10+(v-0xDC00))
				i += 2
				continue
			}
		}
		if u >= 0xD800 && u < 0xE000 {
			u = 0xFFFD
		}
		out = put(out, u)
	}
	return out
}

// H_Utf16: every UTF-16 payload of 0..8 bytes
func H_Utf16() {
	in := nd.Bytes("in", nd.Choice("len", 9))
	p := pld.Payload{Encoding: pld.Utf16, Data: in}
	out, err := p.Utf8()
	if len(in)%2 != 0 {
		nd.Assert(err != nil, "odd length refused")
		return
	}
	nd.Assert(err == nil, "even length accepted")
	nd.Assert(nd.EqBytes(out, utf16(in)), "exact conversion")
}

// H_Passthrough: every binary or UTF-8 payload of 0..12 bytes
func H_Passthrough() {
	in := nd.BytesUpTo("in", 12)
	p := pld.Payload{Encoding: pld.Encoding(nd.Choice("encoding", 2)), Data: in}
	out, err := p.Utf8()
	nd.Assert(err == nil, "accepted")
	nd.Assert(nd.EqBytes(out, in), "unchanged")
}

// H_Message: the same through a parsed signal, request or reply with a payload
// of 0..4 bytes in any encoding
func H_Message() {
	in := nd.Bytes("in", nd.Choice("len", 5))
	enc := nd.Choice("encoding", 3)
	var b []byte
	switch nd.Choice("kind", 3) {
	case 0:
		b = append([]byte{message.MsgSignalBinary + byte(enc), 2, 'n', 'm'}, in...)
	case 1:
		b = append([]byte{message.MsgRequestBinary + byte(enc), 1, 2, 3, 4, 5, 6, 7, 8, 2, 'n', 'm'}, in...)
	case 2:
		b = []byte{message.MsgReplyBinary + byte(enc), 1, 2, 3, 4, 5, 6, 7, 8}
		if enc == 2 {
			b = append(b, 0)
		}
		b = append(b, in...)
	}
	msg := message.NewMessage(32)
	parsed, err := msg.ReadBytes(b)
	if !parsed || err != nil {
		nd.Cover("rejected")
		nd.Assert(enc == 2 && len(in)%2 != 0, "only unaligned messages are rejected")
		return
	}
	out, err := msg.PayloadUtf8()
	nd.Assert(err == nil, "accepted")
	if enc == 2 {
		nd.Assert(nd.EqBytes(out, utf16(in)), "exact conversion")
	} else {
		nd.Assert(nd.EqBytes(out, in), "unchanged")
	}
}

// Package c05: announced message lengths equal the bytes written.
package c05

import (
	"verifh/hx"
	"verifh/nd"

	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
)

func lengths(name, payload []byte, safe bool) {
	enc := pld.Encoding(nd.Choice("encoding", 3))
	w := &hx.Writer{}
	if nd.Choice("kind", 2) == 0 {
		if message.WriteMsgSignal(w, name, enc, payload, safe) != nil {
			nd.Cover("refused")
			return
		}
		nd.Assert(message.CalcMsgLenSignal(name, enc, payload) == len(w.Buf), "signal length")
	} else {
		if message.WriteMsgRequest(w, nd.Bytes("id", 8), name, enc, payload, safe) != nil {
			nd.Cover("refused")
			return
		}
		nd.Assert(message.CalcMsgLenRequest(name, enc, payload) == len(w.Buf), "request length")
	}
	nd.Cover("written")
	// a buffer of exactly the announced size holds the message
	msg := message.NewMessage(uint32(len(w.Buf)))
	parsed, err := msg.ReadBytes(w.Buf)
	nd.Assert(parsed && err == nil, "announced size suffices")
}

// H_Len: names of 0..5 bytes, payloads of 0..8 bytes
func H_Len() { lengths(nd.BytesUpTo("name", 5), nd.Bytes("payload", nd.Choice("payloadLen", 9)), true) }

// H_LenLong: names of 250..257 bytes, payloads of 0..4 bytes
func H_LenLong() {
	lengths(nd.Bytes("name", nd.Choice("nameLen", 8)+250), nd.Bytes("payload", nd.Choice("payloadLen", 5)), false)
}

// Package c04: unencodable messages are refused whole and every writer is
// closed exactly once, whatever fails.
package c04

import (
	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
)

func check(w *hx.Writer, err error, representable bool, what string) {
	nd.Assert(w.Closes == 1, what+": writer closed exactly once")
	nd.Assert(!w.AfterEnd, what+": nothing after close")
	if !representable {
		nd.Cover("refused")
		nd.Assert(err != nil, what+": unencodable refused")
		nd.Assert(w.Writes == 0 && len(w.Buf) == 0, what+": nothing emitted on refusal")
		return
	}
	if w.Failed {
		nd.Cover("fault")
		nd.Assert(err != nil, what+": failure reported")
	} else {
		nd.Cover("written")
		nd.Assert(err == nil, what+": representable accepted")
	}
	if w.FailWrite > 0 && w.Writes > 0 {
		nd.Assert(w.Writes <= w.FailWrite, what+": nothing written after a failed write")
	}
}

func printable(b []byte) bool {
	ok := true
	for _, c := range b {
		ok = nd.And(ok, nd.And(c >= 32, c <= 126))
	}
	return ok
}

func enc() pld.Encoding { return pld.Encoding(nd.Choice("encoding", 3)) }

func emitted(w *hx.Writer, want []byte, what string) {
	if !w.Failed {
		nd.Assert(nd.EqBytes(w.Buf, want), what+": documented layout")
	}
}

// H_Request: requests, names of 0..3 arbitrary bytes, payloads of 0..4 bytes,
// a write failure at any write, a close failure or none
func H_Request() {
	w := hx.NewWriter(true)
	id := nd.Bytes("id", 8)
	name, payload, e := nd.Bytes("name", nd.Choice("nameLen", 4)), nd.Bytes("payload", nd.Choice("payloadLen", 5)), enc()
	err := message.WriteMsgRequest(w, id, name, e, payload, true)
	ok := printable(name) && (len(name) > 0 || len(payload) > 0) && (e != pld.Utf16 || len(payload)%2 == 0)
	check(w, err, ok, "request")
	if ok {
		emitted(w, ref.EncodeNamed(message.MsgRequestBinary+byte(e), id, name, payload, e == pld.Utf16), "request")
	}
}

// H_Signal: signals, names of 0..3 arbitrary bytes, payloads of 0..4 bytes,
// a write failure at any write, a close failure or none
func H_Signal() {
	w := hx.NewWriter(true)
	name, payload, e := nd.Bytes("name", nd.Choice("nameLen", 4)), nd.Bytes("payload", nd.Choice("payloadLen", 5)), enc()
	err := message.WriteMsgSignal(w, name, e, payload, true)
	ok := printable(name) && (len(name) > 0 || len(payload) > 0) && (e != pld.Utf16 || len(payload)%2 == 0)
	check(w, err, ok, "signal")
	if ok {
		emitted(w, ref.EncodeNamed(message.MsgSignalBinary+byte(e), nil, name, payload, e == pld.Utf16), "signal")
	}
}

// H_LongNames: names and codes of 254..257 bytes with one arbitrary byte
func H_LongNames() {
	w := hx.NewWriter(true)
	id := nd.Bytes("id", 8)
	name := make([]byte, nd.Choice("nameLen", 4)+254)
	for i := range name {
		name[i] = 'n'
	}
	name[nd.Choice("where", 3)*126] = nd.Byte("nameByte")
	ok := len(name) <= 255 && printable(name)
	switch nd.Choice("kind", 3) {
	case 0:
		check(w, message.WriteMsgRequest(w, id, name, enc(), nil, true), ok, "request")
	case 1:
		check(w, message.WriteMsgSignal(w, name, enc(), nil, true), ok, "signal")
	case 2:
		check(w, message.WriteMsgReplyError(w, id, name, []byte("text"), true), ok, "error reply")
	}
}

// H_Reply: replies with a payload of 0..6 bytes, any fault
func H_Reply() {
	w := hx.NewWriter(true)
	id := nd.Bytes("id", 8)
	payload, e := nd.Bytes("payload", nd.Choice("payloadLen", 7)), enc()
	err := message.WriteMsgReply(w, id, e, payload)
	ok := e != pld.Utf16 || len(payload)%2 == 0
	check(w, err, ok, "reply")
	if ok {
		want := append([]byte{message.MsgReplyBinary + byte(e)}, id...)
		if e == pld.Utf16 {
			want = append(want, 0)
		}
		want = append(want, payload...)
		if !w.Failed {
			nd.Assert(len(w.Buf) == len(want), "reply: length")
			if e == pld.Utf16 {
				nd.Assert(len(w.Buf) >= 10, "reply: aligned")
				w.Buf[9] = 0 // the padding byte is arbitrary
			}
			nd.Assert(nd.EqBytes(w.Buf, want), "reply: documented layout")
		}
	}
}

// H_ErrorReply: error replies with a code of 0..3 arbitrary bytes and a text of
// 0..4 bytes, any fault
func H_ErrorReply() {
	w := hx.NewWriter(true)
	id := nd.Bytes("id", 8)
	code, text := nd.Bytes("code", nd.Choice("codeLen", 4)), nd.Bytes("text", nd.Choice("textLen", 5))
	err := message.WriteMsgReplyError(w, id, code, text, true)
	ok := len(code) > 0 && printable(code)
	check(w, err, ok, "error reply")
	if ok {
		want := append([]byte{message.MsgReplyError}, id...)
		want = append(want, byte(len(code)))
		want = append(want, code...)
		emitted(w, append(want, text...), "error reply")
	}
}

// H_Others: special replies (every type byte), nameless requests, notifications
// and heartbeats, any fault
func H_Others() {
	w := hx.NewWriter(true)
	id := nd.Bytes("id", 8)
	switch nd.Choice("kind", 6) {
	case 0:
		typ := nd.Byte("type")
		err := message.WriteMsgSpecialRequestReply(w, typ, id)
		ok := nd.And(typ >= 1, typ <= 5)
		if !ok {
			check(w, err, false, "special reply")
		} else {
			check(w, err, true, "special reply")
			emitted(w, append([]byte{typ}, id...), "special reply")
		}
	case 1:
		err := message.WriteMsgNamelessRequest(w, message.MsgRequestCloseSession, id, nil)
		check(w, err, true, "close request")
		emitted(w, append([]byte{message.MsgRequestCloseSession}, id...), "close request")
	case 2:
		key := nd.Bytes("key", nd.Choice("keyLen", 4)+1)
		err := message.WriteMsgNamelessRequest(w, message.MsgRequestRestoreSession, id, key)
		check(w, err, true, "restore request")
		emitted(w, append(append([]byte{message.MsgRequestRestoreSession}, id...), key...), "restore request")
	case 3:
		check(w, message.WriteMsgNotifySessionClosed(w), true, "session closed")
		emitted(w, []byte{message.MsgNotifySessionClosed}, "session closed")
	case 4:
		info := nd.Bytes("info", nd.Choice("infoLen", 4)+1)
		check(w, message.WriteMsgNotifySessionCreated(w, info), true, "session created")
		emitted(w, append([]byte{message.MsgNotifySessionCreated}, info...), "session created")
	case 5:
		check(w, message.WriteMsgHeartbeat(w), true, "heartbeat")
		emitted(w, []byte{message.MsgHeartbeat}, "heartbeat")
	}
}

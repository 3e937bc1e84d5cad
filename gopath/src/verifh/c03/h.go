// Package c03: whatever the writers emit parses back to the same message.
package c03

import (
	"time"

	"verifh/hx"
	"verifh/nd"

	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
)

const bufSize = 600

func parse(b []byte) *message.Message {
	msg := message.NewMessage(bufSize)
	parsed, err := msg.ReadBytes(b)
	nd.Assert(parsed && err == nil, "emitted message parses")
	return msg
}

func ident(msg *message.Message, id []byte) {
	got := msg.Identifier()
	nd.Assert(nd.EqBytes(got[:], id), "identifier")
	nd.Assert(nd.EqBytes(msg.MsgIdentifierBytes, id), "identifier bytes")
}

func encoding() pld.Encoding { return pld.Encoding(nd.Choice("encoding", 3)) }

func requestType(e pld.Encoding, base byte) byte { return base + byte(e) }

func request(name, payload []byte, safe bool) {
	id := nd.Bytes("id", 8)
	enc := encoding()
	w := &hx.Writer{}
	err := message.WriteMsgRequest(w, id, name, enc, payload, safe)
	if err != nil {
		nd.Cover("refused")
		return
	}
	nd.Cover("written")
	msg := parse(w.Buf)
	nd.Assert(msg.MsgType == requestType(enc, message.MsgRequestBinary), "request type")
	ident(msg, id)
	hx.Same(msg.Name(), name, "name")
	hx.Same(msg.Payload(), payload, "payload")
	nd.Assert(msg.PayloadEncoding() == enc, "encoding")
	nd.Assert(msg.RequiresReply(), "requires reply")
}

// H_Request: every request with a name of 0..4 bytes and a payload of 0..6 bytes
func H_Request() {
	request(nd.BytesUpTo("name", 4), nd.BytesUpTo("payload", 6), true)
}

// H_RequestLong: every request with a name of 250..257 bytes and a payload of 0..4 bytes
func H_RequestLong() {
	request(nd.Bytes("name", nd.Choice("nameLen", 8)+250), nd.BytesUpTo("payload", 4), false)
}

func signal(name, payload []byte, safe bool) {
	enc := encoding()
	w := &hx.Writer{}
	err := message.WriteMsgSignal(w, name, enc, payload, safe)
	if err != nil {
		nd.Cover("refused")
		return
	}
	nd.Cover("written")
	msg := parse(w.Buf)
	nd.Assert(msg.MsgType == requestType(enc, message.MsgSignalBinary), "signal type")
	hx.Same(msg.Name(), name, "name")
	hx.Same(msg.Payload(), payload, "payload")
	nd.Assert(msg.PayloadEncoding() == enc, "encoding")
	nd.Assert(!msg.RequiresReply(), "requires no reply")
}

// H_Signal: every signal with a name of 0..4 bytes and a payload of 0..6 bytes
func H_Signal() {
	signal(nd.BytesUpTo("name", 4), nd.BytesUpTo("payload", 6), true)
}

// H_SignalLong: every signal with a name of 250..257 bytes and a payload of 0..4 bytes
func H_SignalLong() {
	signal(nd.Bytes("name", nd.Choice("nameLen", 8)+250), nd.BytesUpTo("payload", 4), false)
}

// H_Reply: every reply with a payload of 0..20 bytes
func H_Reply() {
	id := nd.Bytes("id", 8)
	payload := nd.BytesUpTo("payload", 20)
	enc := encoding()
	w := &hx.Writer{}
	if err := message.WriteMsgReply(w, id, enc, payload); err != nil {
		nd.Cover("refused")
		return
	}
	nd.Cover("written")
	msg := parse(w.Buf)
	nd.Assert(msg.MsgType == requestType(enc, message.MsgReplyBinary), "reply type")
	ident(msg, id)
	hx.Same(msg.Payload(), payload, "payload")
	nd.Assert(len(msg.Name()) == 0, "no name")
	nd.Assert(msg.PayloadEncoding() == enc, "encoding")
	nd.Assert(!msg.RequiresReply(), "requires no reply")
}

func errorReply(code, text []byte) {
	id := nd.Bytes("id", 8)
	w := &hx.Writer{}
	if err := message.WriteMsgReplyError(w, id, code, text, true); err != nil {
		nd.Cover("refused")
		return
	}
	nd.Cover("written")
	msg := parse(w.Buf)
	nd.Assert(msg.MsgType == message.MsgReplyError, "error reply type")
	ident(msg, id)
	hx.Same(msg.Name(), code, "code")
	hx.Same(msg.Payload(), text, "text")
}

// H_ErrorReply: every error reply with a code of 0..4 bytes and a text of 0..8 bytes
func H_ErrorReply() {
	errorReply(nd.BytesUpTo("code", 4), nd.BytesUpTo("text", 8))
}

// H_ErrorReplyLong: error replies with a code of 250..257 bytes (one arbitrary
// byte, the rest constant) and a text of 0..3 bytes
func H_ErrorReplyLong() {
	code := make([]byte, nd.Choice("codeLen", 8)+250)
	for i := range code {
		code[i] = 'c'
	}
	code[nd.Choice("where", 3)*124] = nd.Byte("codeByte")
	errorReply(code, nd.BytesUpTo("text", 3))
}

// H_Special: every special reply, every identifier
func H_Special() {
	id := nd.Bytes("id", 8)
	typ := nd.Byte("type")
	w := &hx.Writer{}
	if err := message.WriteMsgSpecialRequestReply(w, typ, id); err != nil {
		nd.Cover("refused")
		return
	}
	nd.Cover("written")
	msg := parse(w.Buf)
	nd.Assert(msg.MsgType == typ, "special reply type")
	ident(msg, id)
	nd.Assert(len(msg.Name()) == 0 && len(msg.Payload()) == 0, "nothing else")
	nd.Assert(!msg.RequiresReply(), "requires no reply")
}

// H_Nameless: every session closure or restoration request, key of 1..20 bytes
func H_Nameless() {
	id := nd.Bytes("id", 8)
	w := &hx.Writer{}
	if nd.Choice("kind", 2) == 0 {
		nd.Assert(message.WriteMsgNamelessRequest(w, message.MsgRequestCloseSession, id, nil) == nil, "close request written")
		msg := parse(w.Buf)
		nd.Assert(msg.MsgType == message.MsgRequestCloseSession, "close request type")
		ident(msg, id)
		nd.Assert(len(msg.Payload()) == 0, "no payload")
		nd.Assert(msg.RequiresReply(), "requires reply")
		return
	}
	key := nd.BytesUpTo("key", 20)
	nd.Assume(len(key) > 0)
	nd.Assert(message.WriteMsgNamelessRequest(w, message.MsgRequestRestoreSession, id, key) == nil, "restore request written")
	msg := parse(w.Buf)
	nd.Assert(msg.MsgType == message.MsgRequestRestoreSession, "restore request type")
	ident(msg, id)
	hx.Same(msg.Payload(), key, "key")
	nd.Assert(msg.RequiresReply(), "requires reply")
}

// H_Notifications: session notifications (info of 1..20 bytes) and heartbeats
func H_Notifications() {
	w := &hx.Writer{}
	switch nd.Choice("kind", 3) {
	case 0:
		info := nd.BytesUpTo("info", 20)
		nd.Assume(len(info) > 0)
		nd.Assert(message.WriteMsgNotifySessionCreated(w, info) == nil, "session created written")
		msg := parse(w.Buf)
		nd.Assert(msg.MsgType == message.MsgNotifySessionCreated, "session created type")
		hx.Same(msg.Payload(), info, "info")
	case 1:
		nd.Assert(message.WriteMsgNotifySessionClosed(w) == nil, "session closed written")
		msg := parse(w.Buf)
		nd.Assert(msg.MsgType == message.MsgNotifySessionClosed, "session closed type")
		nd.Assert(len(msg.Payload()) == 0, "session closed carries nothing")
	case 2:
		nd.Assert(message.WriteMsgHeartbeat(w) == nil, "heartbeat written")
		msg := parse(w.Buf)
		nd.Assert(msg.MsgType == message.MsgHeartbeat, "heartbeat type")
		nd.Assert(len(msg.Payload()) == 0, "heartbeat carries nothing")
	}
}

// H_AcceptConf: every handshake: all versions, all buffer sizes, sub-protocol
// names of 0..12 bytes, every read timeout in whole milliseconds that fits
func H_AcceptConf() {
	handshake(nd.Bytes("name", nd.Choice("nameLen", 13)), time.Duration(nd.Uint32("timeoutMs"))*time.Millisecond)
}

// H_AcceptConfTimeout: every read timeout (nanoseconds, 64 bits)
func H_AcceptConfTimeout() {
	handshake([]byte("sub"), time.Duration(nd.Uint64("timeout")))
}

func handshake(name []byte, timeout time.Duration) {
	conf := message.ServerConfiguration{
		MajorProtocolVersion: nd.Byte("major"),
		MinorProtocolVersion: nd.Byte("minor"),
		SubProtocolName:      name,
		ReadTimeout:          timeout,
		MessageBufferSize:    nd.Uint32("bufferSize"),
	}
	b, err := message.NewAcceptConfMessage(conf)
	ms := int64(conf.ReadTimeout) / int64(time.Millisecond)
	nd.Assert((err == nil) == nd.And(ms >= 0, ms <= 4294967295), "refused exactly if the timeout does not fit")
	if err != nil {
		nd.Cover("refused")
		return
	}
	nd.Cover("written")
	msg := parse(b)
	nd.Assert(msg.MsgType == message.MsgAcceptConf, "handshake type")
	c := msg.ServerConfiguration
	nd.Assert(c.MajorProtocolVersion == conf.MajorProtocolVersion, "major version")
	nd.Assert(c.MinorProtocolVersion == conf.MinorProtocolVersion, "minor version")
	nd.Assert(c.MessageBufferSize == conf.MessageBufferSize, "buffer size")
	nd.Assert(c.ReadTimeout == time.Duration(ms)*time.Millisecond, "read timeout to the millisecond")
	hx.Same(c.SubProtocolName, conf.SubProtocolName, "sub-protocol name")
}

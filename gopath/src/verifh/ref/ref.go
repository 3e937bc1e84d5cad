// Package ref is a reference model of the documented binary message layout,
// written from the protocol description (README "Message" section and the
// layout comments of the message constants), independent of the parsers.
package ref

import "encoding/binary"

// Msg is a decoded message: offsets into the encoded bytes
type Msg struct {
	OK      bool
	Type    byte
	HasID   bool // identifier is bytes 1..8
	NameOff int
	NameLen int
	PayOff  int
	PayLen  int
	Enc     int // 0 binary, 1 utf8, 2 utf16

	Conf       bool
	Major      byte
	Minor      byte
	TimeoutMs  uint32
	BufferSize uint32
}

// message type codes of the protocol
const (
	ReplyError         = 0
	ReplyShutdown      = 1
	ReplyInternalError = 2
	ReplySessNotFound  = 3
	ReplyMaxConns      = 4
	ReplySessDisabled  = 5
	SessionCreated     = 21
	SessionClosed      = 22
	AcceptConf         = 23
	CloseSession       = 31
	RestoreSession     = 32
	Heartbeat          = 33
	SignalBinary       = 63
	SignalUtf8         = 64
	SignalUtf16        = 65
	RequestBinary      = 127
	RequestUtf8        = 128
	RequestUtf16       = 129
	ReplyBinary        = 191
	ReplyUtf8          = 192
	ReplyUtf16         = 193
)

// Decode decodes one message
func Decode(b []byte) (m Msg) {
	n := len(b)
	if n < 1 {
		return
	}
	m.Type = b[0]
	switch m.Type {
	case ReplyShutdown, ReplyInternalError, ReplySessNotFound, ReplyMaxConns, ReplySessDisabled:
		// type, identifier
		m.HasID = true
		m.OK = n >= 9
	case ReplyError:
		// type, identifier, code length (1..255), code, message
		if n < 11 {
			return
		}
		cl := int(b[9])
		if cl == 0 || n < 10+cl {
			return
		}
		m.HasID = true
		m.NameOff, m.NameLen = 10, cl
		m.PayOff, m.PayLen = 10+cl, n-10-cl
		m.Enc = 1
		m.OK = true
	case SessionCreated:
		// type, session info (at least one byte)
		m.PayOff, m.PayLen = 1, n-1
		m.OK = n >= 2
	case SessionClosed, Heartbeat:
		m.OK = n == 1
	case AcceptConf:
		// type, major, minor, read timeout ms (4, LE), buffer size (4, LE), name
		if n < 11 {
			return
		}
		m.Conf = true
		m.Major, m.Minor = b[1], b[2]
		m.TimeoutMs = binary.LittleEndian.Uint32(b[3:7])
		m.BufferSize = binary.LittleEndian.Uint32(b[7:11])
		m.NameOff, m.NameLen = 11, n-11
		m.OK = true
	case CloseSession:
		m.HasID = true
		m.OK = n == 9
	case RestoreSession:
		m.HasID = true
		m.PayOff, m.PayLen = 9, n-9
		m.OK = n >= 10
	case SignalBinary, SignalUtf8:
		// type, name length, name, payload; a name, a payload or both
		m.Enc = int(m.Type) - SignalBinary
		if n < 3 {
			return
		}
		named(&m, b, 1, false)
	case SignalUtf16:
		m.Enc = 2
		if n < 4 || n%2 != 0 {
			return
		}
		named(&m, b, 1, true)
	case RequestBinary, RequestUtf8:
		// type, identifier, name length, name, payload
		m.Enc = int(m.Type) - RequestBinary
		m.HasID = true
		if n < 11 {
			return
		}
		named(&m, b, 9, false)
	case RequestUtf16:
		m.Enc = 2
		m.HasID = true
		if n < 12 || n%2 != 0 {
			return
		}
		named(&m, b, 9, true)
	case ReplyBinary, ReplyUtf8:
		// type, identifier, payload (optional)
		m.Enc = int(m.Type) - ReplyBinary
		m.HasID = true
		m.PayOff, m.PayLen = 9, n-9
		m.OK = n >= 9
	case ReplyUtf16:
		// type, identifier, padding, payload (optional)
		m.Enc = 2
		m.HasID = true
		m.PayOff, m.PayLen = 10, n-10
		m.OK = n >= 10 && n%2 == 0
	}
	return
}

// named decodes "name length, name, padding of odd names (aligned), payload"
func named(m *Msg, b []byte, at int, aligned bool) {
	n := len(b)
	nl := int(b[at])
	m.NameOff, m.NameLen = at+1, nl
	end := at + 1 + nl
	if n < end {
		return
	}
	if aligned && nl%2 != 0 {
		end++
		if n < end {
			return
		}
	}
	m.PayOff, m.PayLen = end, n-end
	m.OK = m.NameLen+m.PayLen > 0
}

// EncodeNamed composes a signal (id nil) or a request
func EncodeNamed(typ byte, id, name, payload []byte, aligned bool) []byte {
	out := []byte{typ}
	out = append(out, id...)
	out = append(out, byte(len(name)))
	out = append(out, name...)
	if aligned && len(name)%2 != 0 {
		out = append(out, 0)
	}
	return append(out, payload...)
}

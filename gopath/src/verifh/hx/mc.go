package hx

import (
	"time"

	"verifh/nd"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
	"github.com/qbeon/webwire-go/transport/memchan"
)

// MemChan is an in-memory transport whose accepted connections are recorded
type MemChan struct {
	T        *memchan.Transport
	Accepted chan wwr.Socket
	Shutting bool
	Size     uint32
}

// NewMemChan returns an initialised transport
func NewMemChan(size uint32) *MemChan {
	m := &MemChan{T: &memchan.Transport{}, Accepted: make(chan wwr.Socket, 4), Size: size}
	err := m.T.Initialize(
		wwr.ServerOptions{MessageBufferSize: size, ReadTimeout: time.Minute},
		func() bool { return m.Shutting },
		func(o wwr.ConnectionOptions, s wwr.Socket) { m.Accepted <- s },
	)
	nd.Assert(err == nil, "transport initialised")
	return m
}

// Client returns a new client socket
func (m *MemChan) Client() wwr.ClientSocket {
	c, err := (&memchan.ClientTransport{Server: m.T}).NewSocket(time.Second)
	nd.Assert(err == nil && c != nil, "client socket created")
	return c
}

// Pair returns the ends of a new connection
func (m *MemChan) Pair() (wwr.ClientSocket, wwr.Socket) {
	c := m.Client()
	nd.Assert(c.Dial(time.Time{}) == nil, "dialled")
	return c, <-m.Accepted
}

// Send writes a signal
func Send(s wwr.Socket, name, data []byte) error {
	w, err := s.GetWriter()
	if err != nil {
		return err
	}
	return message.WriteMsgSignal(w, name, pld.Binary, data, false)
}

// Recv reads one message
func Recv(s wwr.Socket, size uint32) (*message.Message, wwr.ErrSockRead) {
	m := message.NewMessage(size)
	err := s.Read(m, time.Time{})
	if err != nil {
		return nil, err
	}
	return m, nil
}

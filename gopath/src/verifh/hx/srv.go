package hx

import (
	"context"
	"errors"
	"io"
	"io/ioutil"
	"log"
	"net"
	"net/url"
	"sync"
	"time"

	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

// SockErr is the error of a stub socket's Read
type SockErr struct{ Closed bool }

func (e SockErr) Error() string { return "stub read error" }

// IsCloseErr implements wwr.ErrSockRead
func (e SockErr) IsCloseErr() bool { return e.Closed }

// ErrSock is the error of a stub socket's failing operations
var ErrSock = errors.New("stub socket error")

// Sock is a stub of the server's end of a connection
type Sock struct {
	Limit  int         // size of the outbound buffer
	Script [][]byte    // messages received first
	End    bool        // the peer hangs up after the script
	EndErr bool        // ... with an error that isn't a graceful closure
	In     chan []byte // messages received afterwards

	// FailGet, FailWrite, FailClose make the n-th call (from 1) fail
	FailGet, FailWrite, FailClose int
	gets, writes, flushes         int

	lock   sync.Mutex // guards the fields below
	closed bool
	Closes int // calls of Close
	Reads  int // calls of Read

	Addr   net.Addr                 // the remote address
	OnRead func(deadline time.Time) // called by Read

	done  chan struct{}
	wlock sync.Mutex // held by the current writer
	buf   []byte
	Out   [][]byte       // messages sent (guarded by wlock)
	OnOut func(m []byte) // called with every message sent
	Tap   func(m []byte) // called with every message about to be sent

	Finished bool // the server's connection handler returned
}

// NewSock returns a connected stub socket
func NewSock(limit int) *Sock {
	return &Sock{Limit: limit, In: make(chan []byte, 8), done: make(chan struct{})}
}

type sockWriter struct {
	s      *Sock
	closed bool
	failed bool
}

// GetWriter implements wwr.Socket
func (s *Sock) GetWriter() (io.WriteCloser, error) {
	s.wlock.Lock()
	s.gets++
	if s.gets == s.FailGet || !s.IsConnected() {
		s.wlock.Unlock()
		return nil, ErrSock
	}
	s.buf = nil
	return &sockWriter{s: s}, nil
}

func (w *sockWriter) Write(p []byte) (int, error) {
	nd.Assert(!w.closed, "no write after the writer was closed")
	w.s.writes++
	if w.s.writes == w.s.FailWrite {
		w.s.buf, w.failed = nil, true
		return 0, ErrSock
	}
	if len(w.s.buf)+len(p) > w.s.Limit {
		w.s.buf, w.failed = nil, true
		return 0, wwr.ErrBufferOverflow{}
	}
	w.s.buf = append(w.s.buf, p...)
	return len(p), nil
}

func (w *sockWriter) Close() error {
	nd.Assert(!w.closed, "writer closed once")
	w.closed = true
	s := w.s
	defer s.wlock.Unlock()
	s.flushes++
	if s.Tap != nil && !w.failed {
		s.Tap(s.buf)
	}
	if s.flushes == s.FailClose || w.failed || len(s.buf) == 0 || !s.IsConnected() {
		return ErrSock
	}
	s.Out = append(s.Out, s.buf)
	if s.OnOut != nil {
		s.OnOut(s.buf)
	}
	return nil
}

// Read implements wwr.Socket
func (s *Sock) Read(into *message.Message, deadline time.Time) wwr.ErrSockRead {
	s.lock.Lock()
	s.Reads++
	if s.closed {
		s.lock.Unlock()
		return SockErr{Closed: true}
	}
	s.lock.Unlock()
	if s.OnRead != nil {
		s.OnRead(deadline)
	}
	var b []byte
	switch {
	case len(s.Script) > 0:
		b, s.Script = s.Script[0], s.Script[1:]
	case s.End:
		s.drop()
		return SockErr{Closed: !s.EndErr}
	default:
		select {
		case b = <-s.In:
			if b == nil {
				s.drop()
				return SockErr{Closed: true}
			}
		case <-s.done:
			return SockErr{Closed: true}
		}
	}
	ok, err := into.ReadBytes(b)
	if err != nil || !ok {
		return SockErr{}
	}
	return nil
}

// drop disconnects the socket
func (s *Sock) drop() {
	s.lock.Lock()
	if !s.closed {
		s.closed = true
		close(s.done)
	}
	s.lock.Unlock()
}

// IsConnected implements wwr.Socket
func (s *Sock) IsConnected() bool {
	s.lock.Lock()
	defer s.lock.Unlock()
	return !s.closed
}

// RemoteAddr implements wwr.Socket
func (s *Sock) RemoteAddr() net.Addr { return s.Addr }

// Close implements wwr.Socket
func (s *Sock) Close() error {
	s.lock.Lock()
	s.Closes++
	s.lock.Unlock()
	s.drop()
	return nil
}

// Sent returns the messages sent so far, without the handshake
func (s *Sock) Sent() [][]byte {
	s.wlock.Lock()
	defer s.wlock.Unlock()
	if len(s.Out) == 0 {
		return nil
	}
	return s.Out[1:]
}

// Gets returns the number of calls of GetWriter
func (s *Sock) Gets() int { return s.gets }

// Writes returns the number of calls of Write on the socket's writers
func (s *Sock) Writes() int { return s.writes }

// Flushes returns the number of calls of Close on the socket's writers
func (s *Sock) Flushes() int { return s.flushes }

// Server is a webwire server on a stub transport
type Server struct {
	S        wwr.Server
	Err      error
	Opts     wwr.ServerOptions // as passed to the transport
	Shutting wwr.IsShuttingDown
	Accept   wwr.OnNewConnection

	Inits     int
	Shutdowns int
	lock      sync.Mutex
	socks     []*Sock
	InitErr   error

	OnConnected    func(wwr.ConnectionOptions, wwr.Connection)
	OnDisconnected func(wwr.Connection, error)
	Signal         func(wwr.Connection, wwr.Message)
	Request        func(wwr.Connection, wwr.Message) (wwr.Payload, error)
}

// NewServer creates a server
func NewServer(opts wwr.ServerOptions) *Server { return NewServerInit(opts, nil) }

// NewServerInit creates a server whose transport's initialisation returns init
func NewServerInit(opts wwr.ServerOptions, init error) *Server {
	s := &Server{InitErr: init}
	if opts.WarnLog == nil {
		opts.WarnLog = log.New(ioutil.Discard, "", 0)
	}
	if opts.ErrorLog == nil {
		opts.ErrorLog = log.New(ioutil.Discard, "", 0)
	}
	s.S, s.Err = wwr.NewServer(impl{s}, opts, transport{s})
	return s
}

// Transport returns the stub transport
func (s *Server) Transport() wwr.Transport { return transport{s} }

// Impl returns the stub implementation
func (s *Server) Impl() wwr.ServerImplementation { return impl{s} }

// Plain returns options for a server without sessions
func Plain(size uint32) wwr.ServerOptions {
	return wwr.ServerOptions{Sessions: wwr.Disabled, MessageBufferSize: size}
}

// Sessions returns options for a server with sessions kept by a stub manager
func Sessions(size uint32, m *Mgr) wwr.ServerOptions {
	return wwr.ServerOptions{Sessions: wwr.Enabled, SessionManager: m, SessionKeyGenerator: m, MessageBufferSize: size}
}

// Serve hands a connection to the server and returns when the server is done with it
func (s *Server) Serve(sock *Sock, o wwr.ConnectionOptions) {
	s.lock.Lock()
	s.socks = append(s.socks, sock)
	s.lock.Unlock()
	s.Accept(o, sock)
	sock.Finished = true
}

// Start hands a connection to the server in the background
func (s *Server) Start(sock *Sock, o wwr.ConnectionOptions) { go s.Serve(sock, o) }

// Connect starts a connection and waits until it is established
func (s *Server) Connect(sock *Sock, o wwr.ConnectionOptions) wwr.Connection {
	ch := make(chan wwr.Connection, 1)
	prev := s.OnConnected
	s.OnConnected = func(o wwr.ConnectionOptions, c wwr.Connection) {
		if prev != nil {
			prev(o, c)
		}
		ch <- c
	}
	go s.Serve(sock, o)
	c := <-ch
	s.OnConnected = prev
	return c
}

type transport struct{ s *Server }

func (t transport) Initialize(o wwr.ServerOptions, down wwr.IsShuttingDown, acc wwr.OnNewConnection) error {
	t.s.Inits++
	t.s.Opts, t.s.Shutting, t.s.Accept = o, down, acc
	return t.s.InitErr
}

func (t transport) Serve() error { return nil }

func (t transport) Shutdown() error {
	t.s.lock.Lock()
	t.s.Shutdowns++
	socks := t.s.socks
	t.s.lock.Unlock()
	for _, s := range socks {
		s.drop()
	}
	return nil
}

func (t transport) Address() url.URL { return url.URL{} }

type impl struct{ s *Server }

func (i impl) OnClientConnected(o wwr.ConnectionOptions, c wwr.Connection) {
	if i.s.OnConnected != nil {
		i.s.OnConnected(o, c)
	}
}

func (i impl) OnClientDisconnected(c wwr.Connection, e error) {
	if i.s.OnDisconnected != nil {
		i.s.OnDisconnected(c, e)
	}
}

func (i impl) OnSignal(_ context.Context, c wwr.Connection, m wwr.Message) {
	if i.s.Signal != nil {
		i.s.Signal(c, m)
	}
}

func (i impl) OnRequest(_ context.Context, c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	if i.s.Request != nil {
		return i.s.Request(c, m)
	}
	return wwr.Payload{}, nil
}

// Mgr is a stub session manager and key generator. Sessions are stored until
// they are closed
type Mgr struct {
	Keys []string // keys to be generated, in order
	next int

	lock    sync.Mutex
	Stored  map[string]wwr.SessionLookupResult
	Created []string
	Lookups []string
	Closed  []string

	OnCreate func(wwr.Connection) error
	OnLookup func(key string) (wwr.SessionLookupResult, error)
	OnClosed func(key string) error
}

// NewMgr returns a session manager and generator of the given keys
func NewMgr(keys ...string) *Mgr {
	return &Mgr{Keys: keys, Stored: map[string]wwr.SessionLookupResult{}}
}

// Generate implements wwr.SessionKeyGenerator
func (m *Mgr) Generate() string {
	m.lock.Lock()
	defer m.lock.Unlock()
	k := m.Keys[m.next]
	m.next++
	return k
}

// OnSessionCreated implements wwr.SessionManager
func (m *Mgr) OnSessionCreated(c wwr.Connection) error {
	s := c.Session()
	m.lock.Lock()
	if s != nil {
		m.Created = append(m.Created, s.Key)
		m.Stored[s.Key] = wwr.NewSessionLookupResult(s.Creation, s.LastLookup, wwr.SessionInfoToVarMap(s.Info))
	} else {
		m.Created = append(m.Created, "")
	}
	m.lock.Unlock()
	if m.OnCreate != nil {
		return m.OnCreate(c)
	}
	return nil
}

// OnSessionLookup implements wwr.SessionManager
func (m *Mgr) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	m.lock.Lock()
	m.Lookups = append(m.Lookups, key)
	r := m.Stored[key]
	m.lock.Unlock()
	if m.OnLookup != nil {
		return m.OnLookup(key)
	}
	return r, nil
}

// OnSessionClosed implements wwr.SessionManager
func (m *Mgr) OnSessionClosed(key string) error {
	m.lock.Lock()
	m.Closed = append(m.Closed, key)
	delete(m.Stored, key)
	m.lock.Unlock()
	if m.OnClosed != nil {
		return m.OnClosed(key)
	}
	return nil
}

// Message composition

// ID returns a request identifier ending in n
func ID(n byte) []byte { return []byte{0, 0, 0, 0, 0, 0, 0, n} }

// Request composes a request. The encodings are Binary 0, Utf8 1, Utf16 2
func Request(enc int, id, name, payload []byte) []byte {
	return ref.EncodeNamed(message.MsgRequestBinary+byte(enc), id, name, payload, enc == 2)
}

// Signal composes a signal
func Signal(enc int, name, payload []byte) []byte {
	return ref.EncodeNamed(message.MsgSignalBinary+byte(enc), nil, name, payload, enc == 2)
}

// Restore composes a session restoration request
func Restore(id []byte, key string) []byte {
	return append(append([]byte{message.MsgRequestRestoreSession}, id...), key...)
}

// CloseSession composes a session closure request
func CloseSession(id []byte) []byte {
	return append([]byte{message.MsgRequestCloseSession}, id...)
}

// Reply is a decoded reply
type Reply struct {
	ref.Msg
	Raw []byte
}

// ID returns the identifier of the reply
func (r Reply) ID() []byte { return r.Raw[1:9] }

// Payload returns the payload of the reply
func (r Reply) Payload() []byte { return r.Raw[r.PayOff : r.PayOff+r.PayLen] }

// ParseReply decodes a message sent by the server that must be a reply
func ParseReply(b []byte) Reply {
	m := ref.Decode(b)
	nd.Assert(m.OK && m.HasID, "a well-formed reply")
	return Reply{m, b}
}

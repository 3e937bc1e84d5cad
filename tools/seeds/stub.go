package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"net"
	"net/url"
	"os"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

func fail(format string, args ...interface{}) {
	fmt.Printf("VIOLATED: "+format+"\n", args...)
	os.Exit(1)
}

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fail(format, args...)
	}
}

// eventually waits for a condition
func eventually(cond func() bool, format string, args ...interface{}) {
	for i := 0; i < 3000; i++ {
		if cond() {
			return
		}
		time.Sleep(time.Millisecond)
	}
	fail(format, args...)
}

type sockErr struct{ closed bool }

func (e sockErr) Error() string    { return fmt.Sprintf("sock error (closed: %t)", e.closed) }
func (e sockErr) IsCloseErr() bool { return e.closed }

// Sock is the server's end of a stub connection
type Sock struct {
	in     chan []byte
	done   chan struct{}
	once   sync.Once
	lock   sync.Mutex
	wlock  sync.Mutex
	out    [][]byte
	closes int
	reads  int
	// OnFlush may refuse a message
	OnFlush func(m []byte) error
}

func newSock() *Sock {
	return &Sock{in: make(chan []byte, 64), done: make(chan struct{})}
}

type sockWriter struct {
	s *Sock
	b []byte
}

func (w *sockWriter) Write(p []byte) (int, error) { w.b = append(w.b, p...); return len(p), nil }
func (w *sockWriter) Close() error {
	defer w.s.wlock.Unlock()
	if !w.s.IsConnected() {
		return errors.New("closed")
	}
	if w.s.OnFlush != nil {
		if err := w.s.OnFlush(w.b); err != nil {
			return err
		}
	}
	w.s.lock.Lock()
	w.s.out = append(w.s.out, w.b)
	w.s.lock.Unlock()
	return nil
}

func (s *Sock) GetWriter() (io.WriteCloser, error) {
	s.wlock.Lock()
	if !s.IsConnected() {
		s.wlock.Unlock()
		return nil, errors.New("closed")
	}
	return &sockWriter{s: s}, nil
}

func (s *Sock) Read(into *message.Message, deadline time.Time) wwr.ErrSockRead {
	s.lock.Lock()
	s.reads++
	s.lock.Unlock()
	select {
	case <-s.done:
		return sockErr{true}
	case b := <-s.in:
		if b == nil {
			s.Drop()
			return sockErr{true}
		}
		if ok, err := into.ReadBytes(b); err != nil || !ok {
			return sockErr{}
		}
	}
	return nil
}

// Drop disconnects the socket on behalf of the peer
func (s *Sock) Drop()                { s.once.Do(func() { close(s.done) }) }
func (s *Sock) RemoteAddr() net.Addr { return nil }
func (s *Sock) IsConnected() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}
func (s *Sock) Close() error {
	s.lock.Lock()
	s.closes++
	s.lock.Unlock()
	s.Drop()
	return nil
}

// Out returns the messages sent so far, except for the handshake
func (s *Sock) Out() [][]byte {
	s.lock.Lock()
	defer s.lock.Unlock()
	if len(s.out) < 1 {
		return nil
	}
	return append([][]byte(nil), s.out[1:]...)
}

func (s *Sock) Closes() int {
	s.lock.Lock()
	defer s.lock.Unlock()
	return s.closes
}

// Transport is a stub transport
type Transport struct {
	onNew wwr.OnNewConnection
	isSD  wwr.IsShuttingDown
	opts  wwr.ServerOptions
}

func (t *Transport) Initialize(o wwr.ServerOptions, isSD wwr.IsShuttingDown, onNew wwr.OnNewConnection) error {
	t.onNew, t.isSD, t.opts = onNew, isSD, o
	return nil
}
func (t *Transport) Serve() error     { return nil }
func (t *Transport) Shutdown() error  { return nil }
func (t *Transport) Address() url.URL { return url.URL{} }

// Impl is a server implementation with optional hooks
type Impl struct {
	Connected    func(c wwr.Connection)
	Disconnected func(c wwr.Connection, reason error)
	Signal       func(c wwr.Connection, m wwr.Message)
	Request      func(c wwr.Connection, m wwr.Message) (wwr.Payload, error)
}

func (i *Impl) OnClientConnected(_ wwr.ConnectionOptions, c wwr.Connection) {
	if i.Connected != nil {
		i.Connected(c)
	}
}
func (i *Impl) OnClientDisconnected(c wwr.Connection, reason error) {
	if i.Disconnected != nil {
		i.Disconnected(c, reason)
	}
}
func (i *Impl) OnSignal(_ context.Context, c wwr.Connection, m wwr.Message) {
	if i.Signal != nil {
		i.Signal(c, m)
	}
}
func (i *Impl) OnRequest(_ context.Context, c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	if i.Request != nil {
		return i.Request(c, m)
	}
	return wwr.Payload{}, nil
}

// Mgr is an in-memory session manager with optional hooks
type Mgr struct {
	lock    sync.Mutex
	store   map[string]wwr.SessionLookupResult
	Created func(c wwr.Connection) error
	Lookup  func(key string) (wwr.SessionLookupResult, error)
	Closed  func(key string) error
	closed  []string
}

func (m *Mgr) OnSessionCreated(c wwr.Connection) error {
	if m.Created != nil {
		return m.Created(c)
	}
	s := c.Session()
	m.lock.Lock()
	defer m.lock.Unlock()
	if m.store == nil {
		m.store = map[string]wwr.SessionLookupResult{}
	}
	m.store[s.Key] = wwr.NewSessionLookupResult(s.Creation, s.LastLookup, wwr.SessionInfoToVarMap(s.Info))
	return nil
}
func (m *Mgr) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	if m.Lookup != nil {
		return m.Lookup(key)
	}
	m.lock.Lock()
	defer m.lock.Unlock()
	if r, ok := m.store[key]; ok {
		return r, nil
	}
	return nil, nil
}
func (m *Mgr) OnSessionClosed(key string) error {
	m.lock.Lock()
	m.closed = append(m.closed, key)
	m.lock.Unlock()
	if m.Closed != nil {
		return m.Closed(key)
	}
	m.lock.Lock()
	delete(m.store, key)
	m.lock.Unlock()
	return nil
}
func (m *Mgr) NumClosed() int {
	m.lock.Lock()
	defer m.lock.Unlock()
	return len(m.closed)
}

var quiet = log.New(ioutil.Discard, "", 0)

// start creates a server on a stub transport
func start(impl *Impl, mgr *Mgr, opts wwr.ServerOptions) (wwr.Server, *Transport) {
	if mgr == nil {
		opts.Sessions = wwr.Disabled
	} else {
		opts.SessionManager = mgr
	}
	opts.WarnLog, opts.ErrorLog = quiet, quiet
	t := &Transport{}
	srv, err := wwr.NewServer(impl, opts, t)
	check(err == nil, "server: %v", err)
	return srv, t
}

// connect connects a client, the returned channel is closed when the server is
// done with it
func (t *Transport) connect(o wwr.ConnectionOptions) (*Sock, chan struct{}) {
	s := newSock()
	return s, t.connectSock(o, s)
}

func (t *Transport) connectSock(o wwr.ConnectionOptions, s *Sock) chan struct{} {
	end := make(chan struct{})
	go func() {
		t.onNew(o, s)
		close(end)
	}()
	return end
}

func ident(id byte) []byte { return []byte{id, 0, 0, 0, 0, 0, 0, 0} }

func request(id byte, name string) []byte {
	return append(append(append([]byte{message.MsgRequestBinary}, ident(id)...), byte(len(name))), name...)
}

func signal(name string) []byte {
	return append([]byte{message.MsgSignalBinary, byte(len(name))}, name...)
}

func restore(id byte, key string) []byte {
	return append(append([]byte{message.MsgRequestRestoreSession}, ident(id)...), key...)
}

// buf is a writer that collects everything
type buf struct {
	b      []byte
	writes int
	closes int
	failAt int
}

func (w *buf) Write(p []byte) (int, error) {
	w.writes++
	if w.writes == w.failAt {
		return 0, errors.New("write failure")
	}
	w.b = append(w.b, p...)
	return len(p), nil
}
func (w *buf) Close() error { w.closes++; return nil }

// Package c37: the server runs exactly as long as its transport serves and
// reports what the transport reports.
package c37

import (
	"context"
	"io/ioutil"
	"log"
	"net/url"
	"strings"
	"time"

	"verifh/hx"
	"verifh/nd"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/transport/memchan"
)

// failure is an error of the transport with any text
type failure struct{ text string }

func (f *failure) Error() string { return f.text }

// stub is a transport whose results are given
type stub struct {
	initErr, serveErr, downErr error
	addr                       url.URL
	inits, serves, downs       int
	opts                       wwr.ServerOptions
	down                       wwr.IsShuttingDown
	accept                     wwr.OnNewConnection
	downDuring                 bool // what IsShuttingDown said during the shutdown
	gate                       chan bool
}

func (t *stub) Initialize(o wwr.ServerOptions, down wwr.IsShuttingDown, acc wwr.OnNewConnection) error {
	t.inits++
	t.opts, t.down, t.accept = o, down, acc
	return t.initErr
}

func (t *stub) Serve() error {
	t.serves++
	if t.gate != nil {
		<-t.gate
	}
	return t.serveErr
}

func (t *stub) Shutdown() error {
	t.downs++
	t.downDuring = t.down()
	return t.downErr
}

func (t *stub) Address() url.URL { return t.addr }

type impl struct{ request func() }

func (impl) OnClientConnected(wwr.ConnectionOptions, wwr.Connection) {}
func (impl) OnClientDisconnected(wwr.Connection, error)              {}
func (impl) OnSignal(context.Context, wwr.Connection, wwr.Message)   {}
func (i impl) OnRequest(context.Context, wwr.Connection, wwr.Message) (wwr.Payload, error) {
	i.request()
	return wwr.Payload{}, nil
}

// anyErr is no error or one with any text
func anyErr(label string) error {
	if nd.Choice(label, 2) == 0 {
		return nil
	}
	return &failure{nd.String("text", 3)}
}

func options() wwr.ServerOptions {
	o := hx.Plain(64)
	o.WarnLog, o.ErrorLog = log.New(ioutil.Discard, "", 0), log.New(ioutil.Discard, "", 0)
	return o
}

// H_Results: whatever the transport's operations return, the server's return the
// same: Run exactly, Shutdown and NewServer with the cause in the text
func H_Results() {
	t := &stub{initErr: anyErr("init"), serveErr: anyErr("serve"), downErr: anyErr("down")}
	t.addr = url.URL{Scheme: nd.String("scheme", 2), Host: nd.String("host", 2), Path: nd.String("path", 1)}
	s, err := wwr.NewServer(impl{}, options(), t)
	nd.Assert(t.inits == 1 && t.serves == 0 && t.downs == 0, "initialised once, not started")
	if t.initErr != nil {
		nd.Assert(s == nil && err != nil && strings.HasSuffix(err.Error(), t.initErr.Error()), "no server, and the reason")
		return
	}
	nd.Assert(s != nil && err == nil, "a server")
	for i := 0; i < 2; i++ {
		a := s.Address()
		nd.Assert(nd.And(nd.EqString(a.Scheme, t.addr.Scheme), nd.And(nd.EqString(a.Host, t.addr.Host), nd.EqString(a.Path, t.addr.Path))), "the transport's address")
		t.addr.Host = nd.String("host", 2) // as when a port gets assigned
	}
	nd.Assert(!t.down(), "not shutting down")
	nd.Assert(s.Run() == t.serveErr && t.serves == 1, "Run returns what the transport does")
	nd.Assert(!t.down() && t.downs == 0, "the end of Run is no shutdown")
	err = s.Shutdown()
	nd.Assert(t.downs == 1 && t.downDuring, "the transport is shut down, and told so")
	nd.Assert((err == nil) == (t.downErr == nil), "the shutdown's success")
	nd.Assert(err == nil || strings.HasSuffix(err.Error(), t.downErr.Error()), "the reason of its failure")
	nd.Assert(t.down(), "connections are refused after the shutdown")
	// a failed shutdown can be repeated
	t.downErr = nil
	nd.Assert(s.Shutdown() == nil && t.downs == 2 && t.down(), "shut down again")
	a := s.Address()
	nd.Assert(nd.EqString(a.Host, t.addr.Host), "the transport's address after the shutdown")
}

// H_Invalid: a transport is not touched by a server that can't be created
func H_Invalid() {
	t := &stub{}
	o := options()
	switch nd.Choice("invalid", 3) {
	case 0:
		o.MessageBufferSize = nd.Uint32("size")
		nd.Assume(o.MessageBufferSize > 0 && o.MessageBufferSize < 32)
	case 1:
		o.SubProtocolName = []byte("a sub-protocol name that doesn't fit into the message buffer of this server")
		nd.Assume(len(o.SubProtocolName) > 64)
	default:
		o.Sessions = wwr.OptionValue(5 + nd.Choice("option", 3))
	}
	s, err := wwr.NewServer(impl{}, o, t)
	nd.Assert((s == nil) == (err != nil), "a server or an error")
	nd.Assert(t.inits == 0 || err == nil, "the transport is not touched")
}

// H_Window: while a request with any limit is handled, connections are refused
// from the moment Shutdown is called and the transport is shut down exactly when
// the handler returned, in every interleaving
func H_Window() {
	t := &stub{gate: make(chan bool, 2), downErr: anyErr("down")}
	started, release := make(chan bool, 1), make(chan bool)
	returned := false
	s, err := wwr.NewServer(impl{func() {
		started <- true
		<-release
		nd.Assert(t.downs == 0, "the transport is kept while handlers run")
		returned = true
	}}, options(), t)
	nd.Assert(err == nil, "server created")
	k := hx.NewSock(64)
	go t.accept(wwr.ConnectionOptions{ConcurrencyLimit: hx.Limit()}, k)
	k.In <- hx.Request(0, hx.AnyID(), []byte("r"), nil)
	<-started
	nd.Assert(!t.down(), "not shutting down")
	ran := make(chan error, 1)
	go func() { ran <- s.Run() }()
	result := make(chan error, 1)
	go func() { result <- s.Shutdown() }()
	nd.Quiesce()
	nd.Assert(t.down() && t.downs == 0 && len(result) == 0 && len(ran) == 0, "waiting for the handler")
	release <- true
	err = <-result
	nd.Assert(returned && t.downs == 1 && t.downDuring, "shut down once, after the handler")
	nd.Assert((err == nil) == (t.downErr == nil), "the shutdown's success")
	t.gate <- true
	nd.Assert(<-ran == nil, "Run returned with the transport")
	k.In <- nil
	nd.Quiesce()
}

// H_Memchan: Run and Shutdown, up to 2 of each, over the in-memory transport in
// every interleaving: Run serves until the shutdown, all return, and a later Run
// fails; no dialling succeeds afterwards
func H_Memchan() {
	t := &memchan.Transport{}
	s, err := wwr.NewServer(impl{}, options(), t)
	nd.Assert(err == nil, "server created")
	nd.Assert(s.Address().Scheme == "memchan", "the address")
	runs, downs := 1+nd.Choice("runs", 2), 1+nd.Choice("shutdowns", 2)
	ran, down := make(chan error, 2), make(chan error, 2)
	early := nd.Choice("early", 2) == 1 // Run is waiting when the shutdown begins
	for i := 0; i < runs; i++ {
		go func() { ran <- s.Run() }()
	}
	if early {
		nd.Quiesce()
		nd.Assert(len(ran) == 0, "Run serves")
	}
	for i := 0; i < downs; i++ {
		go func() { down <- s.Shutdown() }()
	}
	for i := 0; i < downs; i++ {
		nd.Assert(<-down == nil, "shut down")
	}
	for i := 0; i < runs; i++ {
		err := <-ran
		nd.Assert(!early || err == nil, "Run ends well")
	}
	nd.Assert(s.Run() != nil, "a server that was shut down doesn't run")
	nd.Assert(s.Shutdown() == nil, "shut down again")
	c, err := (&memchan.ClientTransport{Server: t}).NewSocket(time.Second)
	nd.Assert(err == nil && c.Dial(time.Time{}) != nil && !c.IsConnected(), "no connection after the shutdown")
}

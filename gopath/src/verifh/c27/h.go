// Package c27: server options are validated and completed without surprises.
package c27

import (
	"errors"
	"io/ioutil"
	"log"
	"time"

	"verifh/hx"
	"verifh/nd"
	"verifh/ref"

	wwr "github.com/qbeon/webwire-go"
)

func logger() *log.Logger { return log.New(ioutil.Discard, "", 0) }

// given are options of arbitrary values
func given() wwr.ServerOptions {
	o := wwr.ServerOptions{
		MaxSessionConnections: uint(nd.Uint64("max")),
		ReadTimeout:           time.Duration(nd.Uint64("timeout")),
		MessageBufferSize:     nd.Uint32("size"),
		Sessions:              []wwr.OptionValue{wwr.OptionUnset, wwr.Disabled, wwr.Enabled}[nd.Choice("sessions", 3)],
	}
	m := hx.NewMgr("K")
	// the default manager works on the file system
	if o.Sessions == wwr.Disabled && nd.Choice("manager", 2) == 0 {
		nd.Cover("no manager")
	} else {
		o.SessionManager = m
	}
	if nd.Choice("generator", 2) == 1 {
		o.SessionKeyGenerator = m
	}
	if nd.Choice("logs", 2) == 1 {
		o.WarnLog, o.ErrorLog = logger(), logger()
	}
	if n := nd.Choice("name", 3); n > 0 {
		o.SubProtocolName = nd.Bytes("subprotocol", n-1)
	}
	return o
}

// H_Prepare: every value of every numeric option and every combination of set
// and unset ones
func H_Prepare() {
	o := given()
	parsed := false
	custom := nd.Choice("parser", 2) == 1
	if custom {
		o.SessionInfoParser = func(map[string]interface{}) wwr.SessionInfo {
			parsed = true
			return nil
		}
	}
	in := o
	err := o.Prepare()
	nd.Assert((err == nil) == nd.Or(in.MessageBufferSize == 0, in.MessageBufferSize >= 32), "refused exactly if the buffer is too small")
	if err != nil {
		nd.Cover("refused")
		return
	}
	if in.MessageBufferSize == 0 {
		nd.Assert(o.MessageBufferSize == 8192, "default buffer size")
	} else {
		nd.Assert(o.MessageBufferSize == in.MessageBufferSize, "buffer size kept")
	}
	if in.ReadTimeout < time.Second {
		nd.Assert(o.ReadTimeout == 60*time.Second, "default read timeout")
	} else {
		nd.Assert(o.ReadTimeout == in.ReadTimeout, "read timeout kept")
	}
	nd.Assert(o.MaxSessionConnections == in.MaxSessionConnections, "maximum of connections kept")
	if in.Sessions == wwr.OptionUnset {
		nd.Assert(o.Sessions == wwr.Enabled, "sessions are enabled by default")
	} else {
		nd.Assert(o.Sessions == in.Sessions, "sessions as set")
	}
	nd.Assert(o.SessionManager == in.SessionManager, "manager kept")
	if in.SessionKeyGenerator != nil {
		nd.Assert(o.SessionKeyGenerator == in.SessionKeyGenerator, "generator kept")
	} else if o.Sessions == wwr.Enabled {
		_, ok := o.SessionKeyGenerator.(*wwr.DefaultSessionKeyGenerator)
		nd.Assert(ok, "default generator")
	}
	if in.WarnLog != nil {
		nd.Assert(o.WarnLog == in.WarnLog && o.ErrorLog == in.ErrorLog, "loggers kept")
	} else {
		nd.Assert(o.WarnLog != nil && o.ErrorLog != nil, "default loggers")
	}
	hx.Same(o.SubProtocolName, in.SubProtocolName, "sub-protocol name kept")
	nd.Assert(o.SessionInfoParser != nil, "some parser")
	i := o.SessionInfoParser(map[string]interface{}{"a": 1})
	nd.Assert(parsed == custom && (custom || i.Value("a") == 1), "the parser")

	// preparing twice changes nothing
	twice := o
	nd.Assert(twice.Prepare() == nil, "prepared options are valid")
	nd.Assert(twice.MessageBufferSize == o.MessageBufferSize && twice.ReadTimeout == o.ReadTimeout && twice.Sessions == o.Sessions &&
		twice.SessionKeyGenerator == o.SessionKeyGenerator && twice.WarnLog == o.WarnLog && twice.ErrorLog == o.ErrorLog, "and stay the same")
}

// H_Server: a server is created exactly with valid options; the transport and
// the clients get what was prepared
//
//verif:opts quick=120
func H_Server() {
	o := given()
	nd.Assume(o.WarnLog != nil)
	nd.Assume(o.MessageBufferSize <= 64) // message buffers are allocated
	init := error(nil)
	if nd.Choice("transport", 2) == 1 {
		init = errors.New("transport fails")
	}
	want := o
	valid := want.Prepare() == nil
	fits := uint64(want.ReadTimeout/time.Millisecond) <= 1<<32-1
	s := hx.NewServerInit(o, init)
	if s.Err != nil {
		nd.Cover("refused")
		nd.Assert(s.S == nil, "no server")
		nd.Assert(!valid || !fits || init != nil, "valid options are accepted")
		nd.Assert(s.Inits == 0 || init != nil, "the transport isn't initialised with invalid options")
		return
	}
	nd.Cover("created")
	nd.Assert(valid && fits && init == nil, "invalid options are refused")
	nd.Assert(s.Inits == 1, "the transport is initialised once")
	nd.Assert(s.Opts.MessageBufferSize == want.MessageBufferSize && s.Opts.ReadTimeout == want.ReadTimeout && s.Opts.Sessions == want.Sessions &&
		s.Opts.MaxSessionConnections == want.MaxSessionConnections, "with the prepared options")
	nd.Assert(s.Opts.SessionManager == want.SessionManager && s.Opts.WarnLog == want.WarnLog && s.Opts.ErrorLog == want.ErrorLog, "and the given objects")
	nd.Assert(!s.Shutting(), "not shutting down")
	nd.Assert(s.S.ActiveSessionsNum() == 0, "no sessions yet")

	sock := hx.NewSock(64)
	c := s.Connect(sock, wwr.ConnectionOptions{})
	nd.Quiesce()
	out := sock.Out
	nd.Assert(len(out) == 1, "handshake")
	m := ref.Decode(out[0])
	nd.Assert(m.OK && m.Type == ref.AcceptConf, "well-formed handshake")
	nd.Assert(m.Major == 2 && m.Minor == 0, "announced version")
	nd.Assert(uint64(m.TimeoutMs) == uint64(want.ReadTimeout/time.Millisecond), "announced read timeout")
	nd.Assert(m.BufferSize == want.MessageBufferSize, "announced buffer size")
	hx.Same(out[0][m.NameOff:m.NameOff+m.NameLen], want.SubProtocolName, "announced sub-protocol")
	_, refused := c.CreateSession(nil).(wwr.ErrSessionsDisabled)
	nd.Assert(refused == (want.Sessions == wwr.Disabled), "sessions are on as set")
}

// H_Missing: no server without an implementation or a transport
func H_Missing() {
	s, err := wwr.NewServer(nil, hx.Plain(64), hx.NewServer(hx.Plain(64)).Transport())
	nd.Assert(s == nil && err != nil, "no implementation")
	s, err = wwr.NewServer(hx.NewServer(hx.Plain(64)).Impl(), hx.Plain(64), nil)
	nd.Assert(s == nil && err != nil, "no transport")
}

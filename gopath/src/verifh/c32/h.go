// Package c32: a connection reports what its transport said about it.
package c32

import (
	"math"
	"net"
	"time"

	"verifh/hx"
	"verifh/nd"

	wwr "github.com/qbeon/webwire-go"
)

// H_Reports: every information (0..2 arbitrary keys, arbitrary values), any limit,
// any address or none, at any point in the life of a connection, and besides
// another connection with other information
func H_Reports() {
	s := hx.NewServer(hx.Plain(64))
	nd.Assert(s.Err == nil, "server created")
	n := nd.Choice("infos", 4) - 1
	key := [2]int{nd.Int("key0", math.MinInt64, math.MaxInt64), nd.Int("key1", math.MinInt64, math.MaxInt64)}
	val := [2]byte{nd.Byte("val0"), nd.Byte("val1")}
	o := wwr.ConnectionOptions{ConcurrencyLimit: hx.Limit()}
	switch n {
	case 0:
		o.Info = map[int]interface{}{}
	case 1:
		o.Info = map[int]interface{}{key[0]: val[0]}
	case 2:
		nd.Assume(key[0] != key[1])
		o.Info = map[int]interface{}{key[0]: val[0], key[1]: val[1]}
	}
	sock := hx.NewSock(64)
	addr := &net.TCPAddr{Port: nd.Int("port", 0, 65535)}
	if nd.Choice("addr", 2) == 1 {
		sock.Addr = addr
	}
	other := hx.NewSock(64)
	other.Addr = &net.TCPAddr{Port: 7}
	hooks := 0
	s.OnConnected = func(p wwr.ConnectionOptions, c wwr.Connection) {
		hooks++
		nd.Assert(p.ConcurrencyLimit == o.ConcurrencyLimit && p.Connection == wwr.Accept, "the hook gets the connection options")
		nd.Assert((p.Info == nil) == (o.Info == nil) && len(p.Info) == len(o.Info), "the hook gets the information")
		for k, v := range o.Info {
			nd.Assert(p.Info[k] == v, "the hook gets each piece of information")
		}
	}
	time.Sleep(1234567) // not a round time
	t0 := time.Now()
	c := s.Connect(sock, o)
	t1 := time.Now()
	nd.Assert(hooks == 1, "connected once")
	s.OnConnected = nil
	time.Sleep(1234567)
	d := s.Connect(other, wwr.ConnectionOptions{Info: map[int]interface{}{5: "other"}})
	asked := nd.Int("asked", math.MinInt64, math.MaxInt64)
	made := c.Creation()
	check := func() {
		var want interface{}
		for i := 0; i < n; i++ {
			if asked == key[i] {
				want = val[i]
			}
		}
		nd.Assert(c.Info(asked) == want, "information by key")
		nd.Assert(c.RemoteAddr() == sock.Addr, "remote address")
		nd.Assert(!made.Before(t0) && !made.After(t1), "creation between accepting and the hook")
		nd.Assert(c.Creation().Equal(made), "creation doesn't change")
		nd.Assert(d.Info(5) == "other" && d.RemoteAddr() == net.Addr(other.Addr), "the other connection reports its own")
	}
	nd.Assert(c.IsActive(), "active")
	check()
	sock.In <- hx.Request(0, hx.ID(1), []byte("r"), nil)
	nd.Quiesce()
	time.Sleep(time.Millisecond)
	check()
	switch nd.Choice("end", 3) {
	case 0:
		c.Close()
	case 1:
		sock.In <- nil
	case 2:
		nd.Assert(s.S.Shutdown() == nil, "shut down")
	}
	nd.Quiesce()
	check()
}

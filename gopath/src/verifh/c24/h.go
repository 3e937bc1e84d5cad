// Package c24: pending requests are resolved exactly once, with their own reply.
package c24

import (
	"context"
	"errors"
	"time"

	"verifh/nd"

	webwire "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
	reqman "github.com/qbeon/webwire-go/requestManager"
)

var errFail = errors.New("failed")

func reply(id [8]byte, data []byte, enc int) *message.Message {
	return &message.Message{MsgIdentifier: id, MsgIdentifierBytes: id[:], MsgType: message.MsgReplyBinary + byte(enc),
		MsgPayload: pld.Payload{Encoding: pld.Encoding(enc), Data: data}}
}

// H_Create: 3 goroutines creating one request each, and 2 more one after
// another: identifiers are distinct, everything is pending
//
//verif:opts races
func H_Create() {
	m := reqman.NewRequestManager()
	ch := make(chan *reqman.Request, 3)
	for i := 0; i < 3; i++ {
		go func() { ch <- m.Create() }()
	}
	var all []*reqman.Request
	for i := 0; i < 3; i++ {
		all = append(all, <-ch)
	}
	all = append(all, m.Create(), m.Create())
	for i, a := range all {
		nd.Assert(m.IsPending(a.Identifier), "created requests are pending")
		nd.Assert(nd.EqBytes(a.IdentifierBytes, a.Identifier[:]), "both forms of the identifier agree")
		for _, b := range all[:i] {
			nd.Assert(a.Identifier != b.Identifier, "distinct identifiers")
		}
	}
	nd.Assert(m.PendingRequests() == len(all), "all pending")
}

// H_Resolve: 2 pending requests, then 3 resolutions (fulfil or fail) with an
// arbitrary identifier and payload each: exactly the identified pending request
// is resolved, anything else refused
func H_Resolve() {
	m := reqman.NewRequestManager()
	reqs := []*reqman.Request{m.Create(), m.Create()}
	var got [2]*message.Message
	var failed, done [2]bool
	pending := 2
	for step := 0; step < 3; step++ {
		var id [8]byte
		copy(id[:], nd.Bytes("id", 8))
		msg := reply(id, nd.Bytes("data", 3), nd.Choice("encoding", 3))
		fail := nd.Choice("fail", 2) == 1
		var ok bool
		if fail {
			ok = m.Fail(id, errFail)
		} else {
			ok = m.Fulfill(msg)
		}
		hit := false
		for i, r := range reqs {
			if r.Identifier == id && !done[i] {
				hit, done[i] = true, true
				pending--
				if fail {
					failed[i] = true
				} else {
					got[i] = msg
				}
			}
		}
		nd.Assert(ok == hit, "resolves exactly a pending request with that identifier")
		nd.Assert(m.PendingRequests() == pending, "number of pending requests")
	}
	for i, r := range reqs {
		nd.Assert(m.IsPending(r.Identifier) == !done[i], "pending until resolved")
		if !done[i] {
			continue
		}
		rp, err := r.AwaitReply(context.Background())
		if failed[i] {
			nd.Cover("failed")
			nd.Assert(rp == nil && err == errFail, "exactly the given failure")
		} else {
			nd.Cover("fulfilled")
			nd.Assert(err == nil && rp != nil, "fulfilled")
			nd.Assert(nd.EqBytes(rp.Payload(), got[i].MsgPayload.Data), "exactly its own reply")
			nd.Assert(rp.PayloadEncoding() == got[i].MsgPayload.Encoding, "encoding of its own reply")
		}
	}
}

// H_Race: one waiter and two concurrent resolutions (fulfil or fail each) of
// the same request, and a second request that stays pending: exactly one
// resolution succeeds, none blocks, the waiter gets the winner's result
//
//verif:opts races
func H_Race() {
	m := reqman.NewRequestManager()
	r, other := m.Create(), m.Create()
	var ok [2]bool
	msgs := [2]*message.Message{reply(r.Identifier, nd.Bytes("a", 2), 0), reply(r.Identifier, nd.Bytes("b", 2), 1)}
	var fail [2]bool
	finished := make(chan int, 2)
	for k := 0; k < 2; k++ {
		fail[k] = nd.Choice("fail", 2) == 1
		go func(k int) {
			if fail[k] {
				ok[k] = m.Fail(r.Identifier, errFail)
			} else {
				ok[k] = m.Fulfill(msgs[k])
			}
			finished <- k
		}(k)
	}
	rp, err := r.AwaitReply(context.Background())
	<-finished
	<-finished
	nd.Assert(ok[0] != ok[1], "exactly one resolution succeeds")
	w := 0
	if ok[1] {
		w = 1
	}
	if fail[w] {
		nd.Assert(err == errFail && rp == nil, "the winner's failure")
	} else {
		nd.Assert(err == nil, "the winner's reply")
		nd.Assert(nd.EqBytes(rp.Payload(), msgs[w].MsgPayload.Data) && rp.PayloadEncoding() == msgs[w].MsgPayload.Encoding, "the winner's reply content")
	}
	nd.Assert(!m.IsPending(r.Identifier), "resolved is not pending")
	nd.Assert(m.IsPending(other.Identifier) && m.PendingRequests() == 1, "the other request is untouched")
}

// H_Abandoned: two concurrent resolutions of a request nobody waits for: none blocks
//
//verif:opts races
func H_Abandoned() {
	m := reqman.NewRequestManager()
	r := m.Create()
	var ok [2]bool
	for k := 0; k < 2; k++ {
		go func(k int) {
			if k == 0 {
				ok[k] = m.Fulfill(reply(r.Identifier, nil, 0))
			} else {
				ok[k] = m.Fail(r.Identifier, errFail)
			}
		}(k)
	}
	nd.Quiesce()
	nd.Assert(nd.Live() == 0, "resolving never blocks")
	nd.Assert(ok[0] != ok[1], "exactly one resolution succeeds")
	nd.Assert(m.PendingRequests() == 0, "nothing pending")
}

// H_Cancel: waiting races with cancellation and with a resolution
//
//verif:opts races
func H_Cancel() {
	m := reqman.NewRequestManager()
	r := m.Create()
	ctx, cancel := context.WithCancel(context.Background())
	var ok bool
	data := nd.Bytes("data", 2)
	fin := make(chan struct{}, 2)
	go func() { cancel(); fin <- struct{}{} }()
	go func() { ok = m.Fulfill(reply(r.Identifier, data, 0)); fin <- struct{}{} }()
	rp, err := r.AwaitReply(ctx)
	nd.Assert(!m.IsPending(r.Identifier), "no longer pending")
	<-fin
	<-fin
	if err != nil {
		nd.Cover("cancelled")
		_, canceled := err.(webwire.ErrCanceled)
		nd.Assert(canceled && webwire.IsErrCanceled(err) && rp == nil, "cancellation reported")
	} else {
		nd.Cover("fulfilled")
		nd.Assert(ok && nd.EqBytes(rp.Payload(), data), "own reply")
	}
	nd.Assert(!m.Fail(r.Identifier, errFail), "nothing left to resolve")
	nd.Assert(m.PendingRequests() == 0, "nothing pending")
}

// H_Timeout: a deadline expires, racing with a resolution, or not
//
//verif:opts races
func H_Timeout() {
	m := reqman.NewRequestManager()
	r := m.Create()
	ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
	defer cancel()
	resolve := nd.Choice("resolve", 2) == 1
	ok := false
	fin := make(chan struct{}, 1)
	if resolve {
		go func() { ok = m.Fulfill(reply(r.Identifier, nil, 0)); fin <- struct{}{} }()
	}
	rp, err := r.AwaitReply(ctx)
	nd.Assert(!m.IsPending(r.Identifier), "no longer pending")
	if resolve {
		<-fin
	}
	if err != nil {
		nd.Cover("timeout")
		_, deadline := err.(webwire.ErrDeadlineExceeded)
		nd.Assert(deadline && webwire.IsErrTimeout(err) && rp == nil, "timeout reported")
	} else {
		nd.Cover("fulfilled")
		nd.Assert(ok, "fulfilled")
	}
	nd.Assert(m.PendingRequests() == 0, "nothing pending")
}

// H_Errors: translation of context errors
func H_Errors() {
	_, d := webwire.TranslateContextError(context.DeadlineExceeded).(webwire.ErrDeadlineExceeded)
	_, c := webwire.TranslateContextError(context.Canceled).(webwire.ErrCanceled)
	nd.Assert(d && c, "known errors")
	nd.Assert(webwire.TranslateContextError(errFail) != nil, "unknown errors stay errors")
	nd.Assert(!webwire.IsErrTimeout(errFail) && !webwire.IsErrCanceled(errFail), "no misclassification")
}

// Package c22: session keys.
package c22

import (
	"verifh/nd"

	webwire "github.com/qbeon/webwire-go"
)

func urlSafe(c byte) bool {
	return nd.Or(nd.Or(nd.And(c >= 'a', c <= 'z'), nd.And(c >= 'A', c <= 'Z')),
		nd.Or(nd.And(c >= '0', c <= '9'), nd.Or(c == '-', nd.Or(c == '_', c == '='))))
}

// H_Distinct: two keys drawn with arbitrary randomness (all values of all
// random bytes) have the same fixed length, consist of URL-safe characters and
// are equal only if the randomness drawn was equal
func H_Distinct() {
	gen := webwire.NewDefaultSessionKeyGenerator()
	a := gen.Generate()
	ra := nd.Rand()
	b := gen.Generate()
	rb := nd.Rand()
	nd.Assert(len(a) == len(b) && len(a) > 0, "fixed length")
	nd.Assert(len(ra) >= 32 && len(rb) == len(ra), "at least 256 random bits per key")
	for i := 0; i < len(a); i++ {
		nd.Assert(urlSafe(a[i]), "URL-safe characters")
	}
	nd.Assert(nd.Or(nd.Not(nd.EqString(a, b)), nd.EqBytes(ra, rb)), "equal keys only for equal randomness")
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

type info struct{ v byte }

func (i *info) Fields() []string          { return []string{"v"} }
func (i *info) Value(string) interface{}  { return i.v }
func (i *info) Copy() webwire.SessionInfo { c := *i; return &c }

// H_NewSession: generator results of 0..6 arbitrary characters, any info
func H_NewSession() {
	key := nd.String("key", nd.Choice("len", 7))
	in := &info{nd.Byte("info")}
	calls := 0
	var s webwire.Session
	p := panics(func() {
		s = webwire.NewSession(in, func() string { calls++; return key })
	})
	nd.Assert(p == (len(key) == 0), "an empty key is refused, others are accepted")
	if p {
		return
	}
	nd.Assert(calls == 1, "generator asked once")
	nd.Assert(s.Key == key, "exactly the generated key")
	nd.Assert(s.Info == webwire.SessionInfo(in), "exactly the given info")
	nd.Assert(!s.Creation.IsZero() && s.LastLookup.Equal(s.Creation), "created now")
}

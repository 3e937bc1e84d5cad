// Package c23: session data handed out is isolated and complete.
package c23

import (
	"time"

	"verifh/nd"

	webwire "github.com/qbeon/webwire-go"
)

type obj = map[string]interface{}
type arr = []interface{}

// value builds the same arbitrary JSON compliant value n times
func value(depth, n int) (out []interface{}) {
	out = make([]interface{}, n)
	kinds := 6
	if depth == 0 {
		kinds = 4
	}
	switch nd.Choice("kind", kinds) {
	case 0: // null
	case 1:
		b := nd.Bool("bool")
		for i := range out {
			out[i] = b
		}
	case 2:
		v := nd.Int("int", 0, 1<<30)
		for i := range out {
			out[i] = v
		}
	case 3:
		s := nd.String("string", 2)
		for i := range out {
			out[i] = s
		}
	case 4:
		l := nd.Choice("elems", 3)
		for i := range out {
			out[i] = make(arr, l)
		}
		for k := 0; k < l; k++ {
			for i, v := range value(depth-1, n) {
				out[i].(arr)[k] = v
			}
		}
	case 5:
		l := nd.Choice("fields", 3)
		for i := range out {
			out[i] = obj{}
		}
		for k := 0; k < l; k++ {
			for i, v := range value(depth-1, n) {
				out[i].(obj)[names[k]] = v
			}
		}
	}
	return
}

var names = []string{"a", "b", "c"}

func equal(x, y interface{}) bool {
	switch a := x.(type) {
	case nil:
		return y == nil
	case bool:
		b, ok := y.(bool)
		return ok && a == b
	case int:
		b, ok := y.(int)
		return ok && a == b
	case string:
		b, ok := y.(string)
		return ok && a == b
	case arr:
		b, ok := y.(arr)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !equal(a[i], b[i]) {
				return false
			}
		}
		return true
	case obj:
		b, ok := y.(obj)
		if !ok || len(a) != len(b) {
			return false
		}
		for k, v := range a {
			w, has := b[k]
			if !has || !equal(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

// spoil overwrites everything that can be reached
func spoil(x interface{}) {
	switch a := x.(type) {
	case arr:
		for i := range a {
			spoil(a[i])
			a[i] = "spoiled"
		}
		if cap(a) > len(a) {
			a = a[:cap(a)]
			a[len(a)-1] = "spoiled"
		}
	case obj:
		for k, v := range a {
			spoil(v)
			a[k] = "spoiled"
		}
		a["new"] = 1
	}
}

func fields(info webwire.SessionInfo, want int) {
	f := info.Fields()
	nd.Assert(len(f) == want, "every field listed once")
	for i := range f {
		for j := range f {
			nd.Assert(i == j || f[i] != f[j], "no field listed twice")
		}
	}
}

// three instances of an arbitrary info: the original and two references
func infos(depth int) (o [3]obj) {
	l := nd.Choice("size", 3)
	for i := range o {
		o[i] = obj{}
	}
	for k := 0; k < l; k++ {
		for i, v := range value(depth, 3) {
			o[i][names[k]] = v
		}
	}
	return
}

func depth() int { return 1 + nd.Tier() }

// H_Copy: info of up to 2 fields with values nested up to 2 levels (thorough:
// 3), lists and objects of up to 2 elements, all contents symbolic: copies are
// equal and everything done to them leaves the original as it was
func H_Copy() {
	o := infos(depth())
	info := webwire.GenericSessionInfoParser(o[0])
	c := info.Copy()
	fields(c, len(o[1]))
	for k, v := range o[1] {
		nd.Assert(equal(v, c.Value(k)), "copy is complete")
		nd.Assert(equal(v, info.Value(k)), "value is exact")
	}
	nd.Assert(c.Value("none") == nil, "no such field")
	spoil(o[0]) // through the original's own data
	for k, v := range o[1] {
		nd.Assert(equal(v, c.Value(k)), "copy unaffected by the original")
	}
}

// H_Value: values and variable maps handed out are isolated (same bounds)
func H_Value() {
	o := infos(depth())
	info := webwire.GenericSessionInfoParser(o[0])
	if nd.Choice("api", 2) == 0 {
		for k := range o[1] {
			spoil(info.Value(k))
		}
	} else {
		m := webwire.SessionInfoToVarMap(info)
		nd.Assert(equal(o[2], m), "variable map is complete")
		spoil(m)
	}
	fields(info, len(o[1]))
	for k, v := range o[1] {
		nd.Assert(equal(v, info.Value(k)), "info unaffected by what is done to its values")
	}
}

// H_Clone: cloning a session with arbitrary key, times and info of 1 field
// (same depth)
func H_Clone() {
	var none *webwire.Session
	nd.Assert(none.Clone() == nil, "no session, no clone")
	s := webwire.Session{
		Key:        nd.String("key", nd.Choice("keyLen", 4)),
		Creation:   time.Unix(int64(nd.Int("creation", 0, 1<<32)), 0),
		LastLookup: time.Unix(int64(nd.Int("lookup", 0, 1<<32)), 0),
	}
	o := [3]obj{}
	has := nd.Choice("info", 2) == 1
	if has {
		v := value(depth(), 3)
		for i := range o {
			o[i] = obj{"f": v[i]}
		}
		s.Info = webwire.GenericSessionInfoParser(o[0])
	}
	c := s.Clone()
	nd.Assert(c != nil && c != &s, "a copy")
	nd.Assert(c.Key == s.Key, "key")
	nd.Assert(c.Creation.Equal(s.Creation), "creation time")
	nd.Assert(c.LastLookup.Equal(s.LastLookup), "lookup time")
	nd.Assert((c.Info == nil) == (s.Info == nil), "info present")
	if has {
		fields(c.Info, 1)
		nd.Assert(equal(o[1]["f"], c.Info.Value("f")), "info is equal")
		spoil(o[0])
		nd.Assert(equal(o[1]["f"], c.Info.Value("f")), "clone unaffected by the original")
	}
	c.Key = "other"
	c.Creation = time.Time{}
	nd.Assert(s.Key != "other" && !s.Creation.IsZero(), "original unaffected by the clone")
}

// typed builds the same value of a concrete (not generic) container type n times
func typed(n int) (kind int, out []interface{}) {
	out = make([]interface{}, n)
	kind = nd.Choice("type", 8)
	x, y := nd.Int("x", 0, 1<<30), nd.Int("y", 0, 1<<30)
	s := nd.String("s", 2)
	for i := range out {
		switch kind {
		case 0:
			out[i] = []int{x, y}
		case 1:
			out[i] = []string{s, "t"}
		case 2:
			out[i] = [][]int{{x}, {y, x}}
		case 3:
			out[i] = map[string]int{"a": x, "b": y}
		case 4:
			out[i] = map[string][]int{"a": {x, y}}
		case 5:
			out[i] = []map[string]int{{"a": x}, {"b": y}}
		case 6:
			out[i] = arr{[]int{x}, map[string][]string{"a": {s}}}
		case 7:
			out[i] = obj{"l": []obj{{"a": x}}, "m": map[string]obj{"n": {"b": y}}}
		}
	}
	return
}

// spoilTyped overwrites the innermost elements of a value built by typed
func spoilTyped(kind int, v interface{}) {
	switch kind {
	case 0:
		v.([]int)[1] = -1
	case 1:
		v.([]string)[0] = "spoiled"
	case 2:
		v.([][]int)[1][0] = -1
	case 3:
		v.(map[string]int)["b"] = -1
	case 4:
		v.(map[string][]int)["a"][0] = -1
	case 5:
		v.([]map[string]int)[1]["b"] = -1
	case 6:
		v.(arr)[0].([]int)[0] = -1
		v.(arr)[1].(map[string][]string)["a"][0] = "spoiled"
	case 7:
		v.(obj)["l"].([]obj)[0]["a"] = -1
		v.(obj)["m"].(map[string]obj)["n"]["b"] = -1
	}
}

func ints(x, y []int) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func equalTyped(kind int, v, w interface{}) bool {
	switch kind {
	case 0:
		return ints(v.([]int), w.([]int))
	case 1:
		a, b := v.([]string), w.([]string)
		return len(a) == 2 && len(b) == 2 && a[0] == b[0] && a[1] == b[1]
	case 2:
		a, b := v.([][]int), w.([][]int)
		return len(a) == 2 && len(b) == 2 && ints(a[0], b[0]) && ints(a[1], b[1])
	case 3:
		a, b := v.(map[string]int), w.(map[string]int)
		return len(a) == 2 && len(b) == 2 && a["a"] == b["a"] && a["b"] == b["b"]
	case 4:
		a, b := v.(map[string][]int), w.(map[string][]int)
		return len(a) == 1 && len(b) == 1 && ints(a["a"], b["a"])
	case 5:
		a, b := v.([]map[string]int), w.([]map[string]int)
		return len(a) == 2 && len(b) == 2 && len(a[0]) == 1 && len(b[0]) == 1 && a[0]["a"] == b[0]["a"] && len(a[1]) == 1 && len(b[1]) == 1 && a[1]["b"] == b[1]["b"]
	case 6:
		a, b := v.(arr), w.(arr)
		p, q := a[1].(map[string][]string)["a"], b[1].(map[string][]string)["a"]
		return len(a) == 2 && len(b) == 2 && ints(a[0].([]int), b[0].([]int)) && len(p) == 1 && len(q) == 1 && p[0] == q[0]
	case 7:
		a, b := v.(obj), w.(obj)
		return len(a) == 2 && len(b) == 2 && a["l"].([]obj)[0]["a"] == b["l"].([]obj)[0]["a"] && a["m"].(map[string]obj)["n"]["b"] == b["m"].(map[string]obj)["n"]["b"]
	}
	return false
}

// H_Typed: lists and maps of concrete types nested in each other, through every
// way of getting at them
func H_Typed() {
	k, v := typed(2)
	orig := obj{"f": v[0]}
	info := webwire.GenericSessionInfoParser(orig)
	s := webwire.Session{Key: "k", Info: info}
	nd.Assert(equalTyped(k, info.Value("f"), v[1]), "value is exact")
	switch nd.Choice("api", 5) {
	case 0:
		spoilTyped(k, info.Value("f"))
	case 1:
		spoilTyped(k, webwire.SessionInfoToVarMap(info)["f"])
	case 2:
		spoilTyped(k, info.Copy().Value("f"))
	case 3:
		spoilTyped(k, s.Clone().Info.Value("f"))
	case 4:
		c := info.Copy()
		spoilTyped(k, orig["f"])
		orig["g"] = 1
		nd.Assert(len(c.Fields()) == 1 && equalTyped(k, c.Value("f"), v[1]), "copy unaffected by the original")
		return
	}
	nd.Assert(len(info.Fields()) == 1 && equalTyped(k, info.Value("f"), v[1]), "info unaffected by what is done to its values")
}

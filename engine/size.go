package main

// The number of objects something holds on to (nd.Size).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isHarness(p *types.Package) bool { return p != nil && strings.HasPrefix(p.Path(), "verifh/") }

func harnessType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && isHarness(n.Obj().Pkg())
}

func harnessFunc(fn *ssa.Function) bool {
	for fn != nil {
		if fn.Pkg != nil && isHarness(fn.Pkg.Pkg) {
			return true
		}
		if o := fn.Object(); o != nil && isHarness(o.Pkg()) {
			return true
		}
		fn = fn.Parent()
	}
	return false
}

// sizeOf counts the map entries, slice elements, queued messages and objects
// reachable from a value without passing through the harness
func sizeOf(root Value) int {
	n := 0
	ptrs := map[*Value]bool{}
	maps := map[*Map]bool{}
	chans := map[*Chan]bool{}
	funcs := map[*Closure]bool{}
	arrs := map[*Value]int{}
	var visit func(v Value)
	visit = func(v Value) {
		switch v := v.(type) {
		case *Value:
			if v == nil || ptrs[v] {
				return
			}
			ptrs[v] = true
			n++
			visit(*v)
		case *SymPtr:
			if v != nil {
				for _, x := range v.arr {
					visit(x)
				}
			}
		case *SliceData:
			visit(v.s)
		case Struct:
			for _, x := range v {
				visit(x)
			}
		case Tuple:
			for _, x := range v {
				visit(x)
			}
		case *Slice:
			if v == nil || len(v.arr) == 0 {
				return
			}
			lo, hi := 0, len(v.arr)
			if v.off.IsConst() {
				lo = int(v.off.c)
				if v.len.IsConst() {
					hi = lo + int(v.len.c)
				}
			}
			if lo >= hi || hi > len(v.arr) {
				return
			}
			if arrs[&v.arr[lo]] >= hi-lo {
				return
			}
			arrs[&v.arr[lo]] = hi - lo
			n += hi - lo
			for _, x := range v.arr[lo:hi] {
				visit(x)
			}
		case *Map:
			if v == nil || maps[v] {
				return
			}
			maps[v] = true
			for _, e := range v.entries {
				if !e.deleted {
					n++
					visit(e.k)
					visit(e.v)
				}
			}
		case *Chan:
			if v == nil || chans[v] {
				return
			}
			chans[v] = true
			for _, x := range v.buf {
				n++
				visit(x.v)
			}
		case *Closure:
			if v == nil || funcs[v] || harnessFunc(v.fn) {
				return
			}
			funcs[v] = true
			for _, x := range v.env {
				visit(x)
			}
		case Iface:
			if v.t != nil && !harnessType(v.t) {
				visit(v.v)
			}
		}
	}
	visit(root)
	return n
}

func init() {
	reg("verifh/nd.Calm", func(t *Thread, fn *ssa.Function, a []Value) Value {
		t.m.calm = t.m.Branch(term(a[0]))
		return nil
	})
	reg("verifh/nd.Size", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return CInt(int64(sizeOf(a[0])))
	})
}

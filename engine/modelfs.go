package main

// Models of os.File and the remaining file operations, and of the streaming
// JSON encoder and decoder.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// openFile is the state of an *os.File
type openFile struct {
	name   Value
	f      *memFile
	pos    int
	read   bool
	write  bool
	app    bool
	closed bool
}

func (m *Machine) osErr(name string) Iface {
	if name == "ErrNotExist" {
		return m.notExist()
	}
	if i, ok := m.sync[name].(Iface); ok {
		return i
	}
	i := m.errStr(map[string]string{"ErrExist": "file already exists", "ErrClosed": "file already closed",
		"ErrPermission": "permission denied", "ErrInvalid": "invalid argument"}[name])
	m.sync[name] = i
	return i
}

func (t *Thread) pathErr(op string, path Value, inner Iface) Iface {
	pe := t.m.ex.prog.byPath["io/fs"].Type("PathError")
	if pe == nil {
		panic(unsupported("io/fs not loaded"))
	}
	var st Value = Struct{op, path, inner}
	return Iface{t: types.NewPointer(pe.Type()), v: &st}
}

// isOSErr is os.IsNotExist and the like
func isOSErr(name string) intrinsic {
	return func(t *Thread, fn *ssa.Function, a []Value) Value {
		e := a[0].(Iface)
		want := t.m.osErr(name)
		if e.t == nil {
			return False
		}
		if s, ok := e.v.(*Value); ok && s != nil && e.t.String() == "*io/fs.PathError" {
			e = (*s).(Struct)[2].(Iface)
		}
		if e.t != nil && t.m.ifaceEq(e, want).True() {
			return True
		}
		return False
	}
}

func (f *memFS) drop(x *memFile) {
	var out []*memFile
	for _, y := range f.files {
		if y != x {
			out = append(out, y)
		}
	}
	f.files = out
}

func (t *Thread) ioEOF() Iface {
	m := t.m
	pk := m.ex.prog.byPath["io"]
	if pk == nil {
		panic(unsupported("io not loaded"))
	}
	return (*m.globalPtr(t, pk.Members["EOF"].(*ssa.Global))).(Iface)
}

// fileInfo builds an *os.fileStat
func (t *Thread) fileInfo(x *memFile) Iface {
	st := t.m.ex.prog.byPath["os"].Type("fileStat")
	if st == nil {
		panic(unsupported("os.fileStat"))
	}
	v := zero(st.Type())
	s := v.(Struct)
	s[fieldIndex(st.Type(), "name")] = t.callSSA(t.m.ex.prog.byPath["path/filepath"].Func("Base"), []Value{x.path}, nil)
	s[fieldIndex(st.Type(), "size")] = CInt(int64(len(x.data)))
	s[fieldIndex(st.Type(), "modTime")] = t.m.timeValue(t.m.now)
	mode := uint64(0o644)
	if x.dir {
		mode = 1<<31 | 0o755
	}
	s[fieldIndex(st.Type(), "mode")] = Const(32, mode)
	return Iface{t: types.NewPointer(st.Type()), v: &v}
}

func regFiles() {
	reg("os.IsNotExist", isOSErr("ErrNotExist"))
	reg("os.IsExist", isOSErr("ErrExist"))
	reg("os.IsPermission", isOSErr("ErrPermission"))
	reg("os.TempDir", func(t *Thread, fn *ssa.Function, a []Value) Value { return "/nd/tmp" })
	stat := func(t *Thread, fn *ssa.Function, a []Value) Value {
		f := t.fsOp("os.Stat", &a[0], false)
		x := t.fsFind(f, a[0])
		if x == nil {
			return Tuple{Iface{}, t.pathErr("stat", a[0], t.m.notExist())}
		}
		return Tuple{t.fileInfo(x), Iface{}}
	}
	reg("os.Stat", stat)
	reg("os.Lstat", stat)
	reg("os.Mkdir", func(t *Thread, fn *ssa.Function, a []Value) Value {
		f := t.fsOp("os.Mkdir", &a[0], true)
		if t.fsFind(f, a[0]) != nil {
			return t.pathErr("mkdir", a[0], t.m.osErr("ErrExist"))
		}
		f.files = append(f.files, &memFile{path: a[0], dir: true, denied: t.cint(a[1])&0300 != 0300})
		return Iface{}
	})
	chmod := func(t *Thread, f *memFS, x *memFile, mode Value) {
		if x.dir {
			x.denied = t.cint(mode)&0300 != 0300
		}
	}
	reg("os.Chmod", func(t *Thread, fn *ssa.Function, a []Value) Value {
		f := t.fsOp("os.Chmod", &a[0], true)
		x := t.fsFind(f, a[0])
		if x == nil {
			return t.pathErr("chmod", a[0], t.m.notExist())
		}
		chmod(t, f, x, a[1])
		return Iface{}
	})
	reg("os.RemoveAll", func(t *Thread, fn *ssa.Function, a []Value) Value {
		f := t.fsOp("os.RemoveAll", &a[0], true)
		var out []*memFile
		n := strLen(a[0])
		for _, x := range f.files {
			gone := t.m.tb.strEq(x.path, a[0])
			if strLen(x.path) > n {
				gone = t.m.tb.And(t.m.tb.strEq(strSlice(x.path, 0, n), a[0]), t.m.tb.Eq(strCell(x.path, n), Const(8, '/')))
			}
			if !t.m.Branch(gone) {
				out = append(out, x)
			}
		}
		f.files = out
		return Iface{}
	})

	newFile := func(t *Thread, o *openFile) Value {
		v := zero(t.m.ex.prog.byPath["os"].Type("File").Type())
		p := &v
		t.m.sync[p] = o
		return p
	}
	open := func(t *Thread, path Value, flag int64, perm int64) Value {
		f := t.fsOp("os.OpenFile", &path, true)
		null := Value((*Value)(nil))
		if t.fsDenied(f, path) {
			return Tuple{null, t.pathErr("open", path, t.m.osErr("ErrPermission"))}
		}
		x := t.fsFind(f, path)
		const (
			rdwr, wronly     = 2, 1
			create, excl     = 0100, 0200
			trunc, appending = 01000, 02000
		)
		if x == nil {
			if flag&create == 0 {
				return Tuple{null, t.pathErr("open", path, t.m.notExist())}
			}
			x = &memFile{path: path}
			f.files = append(f.files, x)
		} else if flag&(create|excl) == create|excl {
			return Tuple{null, t.pathErr("open", path, t.m.osErr("ErrExist"))}
		} else if x.dir && flag&3 != 0 {
			return Tuple{null, t.pathErr("open", path, t.m.osErr("ErrInvalid"))}
		}
		o := &openFile{name: path, f: x, read: flag&1 == 0, write: flag&3 != 0, app: flag&appending != 0}
		if flag&trunc != 0 {
			x.data = nil
		}
		return Tuple{newFile(t, o), Iface{}}
	}
	reg("os.OpenFile", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return open(t, a[0], t.cint(a[1]), t.cint(a[2]))
	})
	reg("os.Open", func(t *Thread, fn *ssa.Function, a []Value) Value { return open(t, a[0], 0, 0) })
	reg("os.Create", func(t *Thread, fn *ssa.Function, a []Value) Value { return open(t, a[0], 2|0100|01000, 0666) })
	temp := func(t *Thread, fn *ssa.Function, a []Value) Value {
		dir, ok := a[0].(string)
		pat, ok2 := a[1].(string)
		if !ok || !ok2 {
			panic(unsupported("temporary file with a symbolic name"))
		}
		if dir == "" {
			dir = "/nd/tmp"
		}
		n, _ := t.m.sync["tempfiles"].(int)
		t.m.sync["tempfiles"] = n + 1
		suffix := ""
		for i := len(pat) - 1; i >= 0; i-- {
			if pat[i] == '*' {
				pat, suffix = pat[:i], pat[i+1:]
				break
			}
		}
		return open(t, fmt.Sprintf("%s/%s%d%s", dir, pat, 1000+n, suffix), 2|0100|0200, 0600)
	}
	reg("os.CreateTemp", temp)
	reg("io/ioutil.TempFile", temp)

	file := func(t *Thread, v Value, op string) (*openFile, *Iface) {
		p := t.ptrArg(v)
		o, ok := t.m.sync[p].(*openFile)
		if !ok {
			panic(unsupported("file that wasn't opened (" + op + ")"))
		}
		f := t.m.fsys()
		t.yield(&pend{name: op, objs: []*Obj{f.obj}, write: true})
		t.acquire(f.vc)
		t.release(&f.vc)
		f.ops = append(f.ops, o.name)
		if o.closed {
			e := t.pathErr(op, o.name, t.m.osErr("ErrClosed"))
			return o, &e
		}
		return o, nil
	}
	write := func(t *Thread, v Value, cells []*Term) Value {
		o, err := file(t, v, "write")
		if err != nil {
			return Tuple{CInt(0), *err}
		}
		if !o.write {
			return Tuple{CInt(0), t.pathErr("write", o.name, t.m.osErr("ErrPermission"))}
		}
		if o.app {
			o.pos = len(o.f.data)
		}
		n := len(cells)
		fail := t.m.fsys().fail && o.pos+n > fsPartial
		if fail {
			n = fsPartial - o.pos
			if n < 0 {
				n = 0
			}
		}
		data := append([]*Term(nil), o.f.data...)
		for len(data) < o.pos+n {
			data = append(data, Const(8, 0))
		}
		copy(data[o.pos:], cells[:n])
		o.f.data = data
		o.pos += n
		if fail {
			return Tuple{CInt(int64(n)), t.pathErr("write", o.name, t.m.errStr("input/output error"))}
		}
		return Tuple{CInt(int64(n)), Iface{}}
	}
	reg("(*os.File).Write", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return write(t, a[0], t.sliceCells(a[1].(*Slice)))
	})
	reg("(*os.File).WriteString", func(t *Thread, fn *ssa.Function, a []Value) Value { return write(t, a[0], strCells(a[1])) })
	reg("(*os.File).Read", func(t *Thread, fn *ssa.Function, a []Value) Value {
		o, err := file(t, a[0], "read")
		if err != nil {
			return Tuple{CInt(0), *err}
		}
		if !o.read || o.f.dir {
			return Tuple{CInt(0), t.pathErr("read", o.name, t.m.osErr("ErrInvalid"))}
		}
		s := a[1].(*Slice)
		n := int(t.m.Concretize(s.len))
		left := len(o.f.data) - o.pos
		if n == 0 {
			return Tuple{CInt(0), Iface{}}
		}
		if left <= 0 {
			return Tuple{CInt(0), t.ioEOF()}
		}
		if n > left {
			n = left
		}
		for i := 0; i < n; i++ {
			t.m.setCell(s, i, o.f.data[o.pos+i])
		}
		o.pos += n
		return Tuple{CInt(int64(n)), Iface{}}
	})
	reg("(*os.File).Seek", func(t *Thread, fn *ssa.Function, a []Value) Value {
		o, err := file(t, a[0], "seek")
		if err != nil {
			return Tuple{CInt(0), *err}
		}
		at := t.cint(a[1])
		switch t.cint(a[2]) {
		case 1:
			at += int64(o.pos)
		case 2:
			at += int64(len(o.f.data))
		}
		if at < 0 {
			return Tuple{CInt(0), t.pathErr("seek", o.name, t.m.osErr("ErrInvalid"))}
		}
		o.pos = int(at)
		return Tuple{CInt(at), Iface{}}
	})
	reg("(*os.File).Truncate", func(t *Thread, fn *ssa.Function, a []Value) Value {
		o, err := file(t, a[0], "truncate")
		if err != nil {
			return *err
		}
		n := int(t.cint(a[1]))
		if n < len(o.f.data) {
			o.f.data = o.f.data[:n]
		}
		for len(o.f.data) < n {
			o.f.data = append(o.f.data[:len(o.f.data):len(o.f.data)], Const(8, 0))
		}
		return Iface{}
	})
	reg("(*os.File).Stat", func(t *Thread, fn *ssa.Function, a []Value) Value {
		o, err := file(t, a[0], "stat")
		if err != nil {
			return Tuple{Iface{}, *err}
		}
		return Tuple{t.fileInfo(o.f), Iface{}}
	})
	reg("(*os.File).Sync", func(t *Thread, fn *ssa.Function, a []Value) Value {
		if _, err := file(t, a[0], "sync"); err != nil {
			return *err
		}
		return Iface{}
	})
	reg("(*os.File).Chmod", func(t *Thread, fn *ssa.Function, a []Value) Value {
		o, err := file(t, a[0], "chmod")
		if err != nil {
			return *err
		}
		chmod(t, t.m.fsys(), o.f, a[1])
		return Iface{}
	})
	reg("(*os.File).Name", func(t *Thread, fn *ssa.Function, a []Value) Value {
		o, ok := t.m.sync[t.ptrArg(a[0])].(*openFile)
		if !ok {
			panic(unsupported("file that wasn't opened (Name)"))
		}
		return o.name
	})
	reg("(*os.File).Close", func(t *Thread, fn *ssa.Function, a []Value) Value {
		o, err := file(t, a[0], "close")
		if err != nil {
			return *err
		}
		o.closed = true
		return Iface{}
	})

	// streaming JSON
	reg("encoding/json.MarshalIndent", func(t *Thread, fn *ssa.Function, a []Value) Value {
		// (without the indentation, which means nothing to a reader)
		i := a[0].(Iface)
		var b jbuf
		if err := t.jsonEncode(&b, i.t, i.v, 0); err != nil {
			return Tuple{nilSlice, *err}
		}
		return Tuple{cellsSlice(b.cells), Iface{}}
	})
	reg("encoding/json.Valid", func(t *Thread, fn *ssa.Function, a []Value) Value {
		_, err := (&jdec{t: t, c: t.sliceCells(a[0].(*Slice))}).parseAll()
		return CBool(err == "")
	})
	type stream struct {
		i    Iface
		dec  *jdec
		keep []*Term
		err  Iface
		end  bool
	}
	mk := func(t *Thread, fn *ssa.Function, a []Value) Value {
		v := zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		p := &v
		t.m.sync[p] = &stream{i: a[0].(Iface)}
		return p
	}
	reg("encoding/json.NewEncoder", mk)
	reg("encoding/json.NewDecoder", mk)
	reg("(*encoding/json.Encoder).SetIndent", func(t *Thread, fn *ssa.Function, a []Value) Value { return nil })
	reg("(*encoding/json.Encoder).Encode", func(t *Thread, fn *ssa.Function, a []Value) Value {
		s := t.m.sync[t.ptrArg(a[0])].(*stream)
		i := a[1].(Iface)
		var b jbuf
		if err := t.jsonEncode(&b, i.t, i.v, 0); err != nil {
			return *err
		}
		b.str("\n")
		return t.invoke(s.i, "Write", cellsSlice(b.cells)).(Tuple)[1]
	})
	reg("(*encoding/json.Decoder).Decode", func(t *Thread, fn *ssa.Function, a []Value) Value {
		s := t.m.sync[t.ptrArg(a[0])].(*stream)
		// the whole stream is read first (the real decoder reads ahead as well)
		for !s.end {
			buf := cellsSlice(make512())
			r := t.invoke(s.i, "Read", buf).(Tuple)
			n := int(t.m.Concretize(term(r[0])))
			for i := 0; i < n; i++ {
				s.keep = append(s.keep, t.m.cell(buf, i).(*Term))
			}
			if e := r[1].(Iface); e.t != nil {
				s.end = true
				if !t.m.ifaceEq(e, t.ioEOF()).True() {
					s.err = e
				}
			}
		}
		if s.dec == nil {
			s.dec = &jdec{t: t, c: s.keep}
		}
		if _, ok := s.dec.peek(); !ok {
			if s.err.t != nil {
				return s.err
			}
			return t.ioEOF()
		}
		n, err := s.dec.parse(0)
		if err != "" {
			if s.err.t != nil {
				return s.err
			}
			return t.m.errStr(err)
		}
		dst := a[1].(Iface)
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok || dst.v.(*Value) == nil {
			return t.m.errStr("json: Unmarshal(non-pointer)")
		}
		if e := t.jsonAssign(n, pt.Elem(), dst.v.(*Value)); e != "" {
			return t.m.errStr(e)
		}
		return Iface{}
	})
}

func make512() []*Term {
	out := make([]*Term, 512)
	for i := range out {
		out[i] = Const(8, 0)
	}
	return out
}

// Package zz exercises the engine's models of the standard library: each harness
// must run to its end. It belongs to no property.
package zz

import (
	"bufio"
	"bytes"
	"container/list"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	"verifh/nd"
)

func H_Bytes() {
	b := nd.Bytes("b", 3)
	_ = bytes.Compare(b, []byte("abc"))
	_ = bytes.Contains(b, []byte("bc"))
	_ = bytes.Count(b, []byte("b"))
	_ = bytes.HasPrefix(b, []byte("a"))
	_ = bytes.Index(b, []byte("bc"))
	_ = bytes.LastIndexByte(b, 'c')
	_ = bytes.TrimSpace(b)
	_ = bytes.Join([][]byte{b, b}, []byte(","))
	_ = bytes.Repeat([]byte{0}, 3)
	_ = bytes.EqualFold(b, b)
}

func H_Buffer() {
	b := nd.Bytes("b", 3)
	var buf bytes.Buffer
	buf.Write(b)
	buf.WriteByte('x')
	buf.WriteString("hello")
	nd.Assert(buf.Len() == 9, "len")
	out := buf.Bytes()
	nd.Assert(out[0] == b[0], "content")
	r := bytes.NewReader(out)
	x := make([]byte, 2)
	_, err := io.ReadFull(r, x)
	nd.Assert(err == nil && x[1] == b[1], "reader")
	w := bufio.NewWriter(&buf)
	w.Write(b)
	w.Flush()
	all, _ := ioutil.ReadAll(r)
	nd.Assert(len(all) == 7, "rest")
	io.Copy(&buf, bytes.NewReader(b))
}

func H_Strings() {
	s := nd.String("s", 3)
	_ = strings.Contains(s, "b")
	_ = strings.HasPrefix(s, "a")
	_ = strings.Index(s, "bc")
	_ = strings.ContainsAny(s, "/\\")
	_ = strings.ContainsRune(s, '/')
	_ = strings.IndexFunc(s, func(r rune) bool { return r < 32 })
	_ = strings.Compare(s, "abc")
	_ = strings.Count(s, "a")
	_ = strings.Replace(s, "/", "_", -1)
	_ = strings.Split(s, "/")
	_ = strings.TrimSuffix(s, "c")
	_ = strings.LastIndex(s, "c")
	var b strings.Builder
	b.WriteString(s)
	b.WriteByte('x')
	nd.Assert(b.Len() == 4, "builder")
	_ = strings.NewReader(s)
}

func H_Case() {
	s := nd.String("s", 2)
	_ = strings.ToLower(s)
	_ = strings.ToUpper(s)
}

func H_Map() {
	s := nd.String("s", 2)
	_ = strings.Map(func(r rune) rune { return r }, s)
	_ = strings.Fields(s)
	_ = strings.Title("abc")
}

func H_Binary() {
	b := nd.Bytes("b", 8)
	v := binary.LittleEndian.Uint64(b)
	c := make([]byte, 8)
	binary.BigEndian.PutUint64(c, v)
	nd.Assert(c[7] == b[0], "swap")
	_ = binary.LittleEndian.AppendUint16(nil, 7)
	var buf bytes.Buffer
	err := binary.Write(&buf, binary.LittleEndian, uint32(7))
	nd.Assert(err == nil && buf.Len() == 4, "binary.Write")
}

func H_Conv() {
	_ = strconv.Itoa(5)
	_ = strconv.FormatInt(77, 10)
	_ = strconv.FormatUint(77, 16)
	_, _ = strconv.Atoi("12")
	_ = strconv.Quote("abc")
	_ = hex.EncodeToString(nd.Bytes("b", 2))
	_ = base64.RawURLEncoding.EncodeToString(nd.Bytes("b", 3))
	_, _ = base64.URLEncoding.DecodeString("aaaa")
	_ = utf8.RuneCountInString(nd.String("s", 1))
	_ = utf16.Decode([]uint16{nd.Uint16("u"), nd.Uint16("v")})
	_ = utf8.AppendRune(nil, rune(nd.Uint16("w")))
	_ = utf8.Valid(nd.Bytes("c", 2))
}

func H_Sort() {
	a := []string{"c", "a", "b"}
	sort.Strings(a)
	nd.Assert(a[0] == "a", "sorted")
	x := []int{3, 1, 2}
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	nd.Assert(x[0] == 1, "sorted")
	sort.Ints(x)
	i := sort.Search(3, func(i int) bool { return x[i] >= 2 })
	nd.Assert(i == 1, "search")
}

func H_List() {
	l := list.New()
	l.PushBack(1)
	nd.Assert(l.Len() == 1, "list")
}

func H_Atomic() {
	var a int32
	atomic.AddInt32(&a, 2)
	nd.Assert(atomic.LoadInt32(&a) == 2, "load")
	nd.Assert(atomic.CompareAndSwapInt32(&a, 2, 3), "cas")
	atomic.StoreInt32(&a, 1)
	nd.Assert(atomic.SwapInt32(&a, 4) == 1, "swap")
	var b atomic.Bool
	b.Store(true)
	nd.Assert(b.Load() && b.CompareAndSwap(true, false), "bool")
	var c atomic.Int64
	c.Add(2)
	nd.Assert(c.Load() == 2, "int64")
	var u atomic.Uint32
	nd.Assert(u.Add(1) == 1, "uint32")
	var v atomic.Value
	nd.Assert(v.Load() == nil, "value")
	v.Store("x")
	nd.Assert(v.Load().(string) == "x", "value")
	var p atomic.Pointer[int]
	n := 5
	p.Store(&n)
	nd.Assert(*p.Load() == 5, "pointer")
	var u64 uint64
	atomic.AddUint64(&u64, ^uint64(0))
}

func H_SyncMap() {
	var m sync.Map
	m.Store("a", 1)
	v, ok := m.Load("a")
	nd.Assert(ok && v.(int) == 1, "load")
	_, loaded := m.LoadOrStore("a", 2)
	nd.Assert(loaded, "loaded")
	m.Delete("a")
	_, ok = m.Load("a")
	nd.Assert(!ok, "deleted")
	m.Store("b", 1)
	m.Range(func(k, v interface{}) bool { nd.Assert(k.(string) == "b", "range"); return true })
	v, ok = m.LoadAndDelete("b")
	nd.Assert(ok, "load and delete")
}

func H_Sync() {
	var o sync.Once
	o.Do(func() {})
	f := sync.OnceFunc(func() {})
	f()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done() }()
	wg.Wait()
	var mu sync.Mutex
	nd.Assert(mu.TryLock(), "try")
	mu.Unlock()
	var rw sync.RWMutex
	l := rw.RLocker()
	l.Lock()
	l.Unlock()
	nd.Assert(rw.TryRLock(), "try")
	rw.RUnlock()
	c := sync.NewCond(&mu)
	c.Broadcast()
}

func H_Context() {
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	<-ctx.Done()
	nd.Assert(errors.Is(ctx.Err(), context.DeadlineExceeded), "deadline")
	ctx, c2 := context.WithCancel(context.WithValue(context.Background(), "k", 1))
	c2()
	<-ctx.Done()
	nd.Assert(ctx.Err() == context.Canceled, "canceled")
	_, _ = ctx.Deadline()
	ctx, c3 := context.WithCancelCause(context.Background())
	c3(io.EOF)
	nd.Assert(context.Cause(ctx) == io.EOF, "cause")
}

func H_Time() {
	t := time.Now()
	_ = t.Add(time.Second).Sub(t)
	_ = time.Since(t)
	_ = t.Unix()
	_ = t.UnixNano()
	_ = t.IsZero()
	_ = t.UTC()
	_ = t.Truncate(time.Second)
	_ = t.Round(0)
	tk := time.NewTicker(time.Millisecond)
	<-tk.C
	tk.Stop()
	tm := time.NewTimer(time.Hour)
	if !tm.Stop() {
		<-tm.C
	}
	_ = time.Unix(1, 2)
	_ = time.Duration(1500).Seconds()
	_ = t.Format(time.RFC3339)
	_ = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
}

type e1 struct{ a int }

func (e e1) Error() string { return "e1" }

func H_Errors() {
	w := fmt.Errorf("x: %w", e1{1})
	var t e1
	nd.Assert(errors.As(w, &t) && t.a == 1, "as")
	nd.Assert(errors.Is(w, e1{1}), "is")
	nd.Assert(errors.Unwrap(w) == e1{1}, "unwrap")
	_ = errors.Join(w, io.EOF)
	nd.Assert(w.Error() == "x: e1", "text")
}

func H_Files() {
	d := nd.TempDir()
	p := filepath.Join(d, "a")
	nd.Assert(os.MkdirAll(filepath.Join(d, "x", "y"), 0o755) == nil, "mkdirall")
	nd.Assert(os.Mkdir(filepath.Join(d, "z"), 0o755) == nil, "mkdir")
	f, err := os.OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)
	nd.Assert(err == nil, "openfile")
	n, err := f.Write([]byte("hello"))
	nd.Assert(n == 5 && err == nil, "write")
	n, err = f.WriteString("!")
	nd.Assert(n == 1 && err == nil, "write")
	nd.Assert(f.Sync() == nil, "sync")
	nd.Assert(f.Close() == nil, "close")
	nd.Assert(f.Close() != nil, "closed")
	b, err := os.ReadFile(p)
	nd.Assert(err == nil && string(b) == "hello!", "read")
	f, err = os.Open(p)
	nd.Assert(err == nil, "open")
	b, err = io.ReadAll(f)
	nd.Assert(err == nil && string(b) == "hello!", "readall")
	f.Close()
	_, err = os.Open(p + "1")
	nd.Assert(os.IsNotExist(err) && errors.Is(err, os.ErrNotExist), "missing")
	nd.Assert(os.Rename(p, p+"2") == nil, "rename")
	st, err := os.Stat(p + "2")
	nd.Assert(err == nil && st.Size() == 6 && !st.IsDir() && st.Name() == "a2", "stat")
	f, err = os.Create(p)
	nd.Assert(err == nil && f.Name() == p, "create")
	enc := json.NewEncoder(f)
	nd.Assert(enc.Encode(map[string]int{"a": 1}) == nil, "encode")
	f.Close()
	f, _ = os.Open(p)
	var m map[string]int
	nd.Assert(json.NewDecoder(f).Decode(&m) == nil && m["a"] == 1, "decode")
	f.Close()
	f, err = os.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
	nd.Assert(os.IsExist(err), "exclusive")
	f, err = os.CreateTemp(d, "tmp")
	nd.Assert(err == nil, "createtemp")
	f.Close()
	nd.Assert(os.Remove(f.Name()) == nil, "remove")
	nd.Assert(os.RemoveAll(filepath.Join(d, "x")) == nil, "removeall")
	_, err = os.Getwd()
	nd.Assert(err == nil, "getwd")
	_, _ = filepath.Abs("x")
	_ = filepath.Base(p)
	_ = filepath.Ext(p)
	_ = filepath.Dir(p)
	_ = filepath.Clean(p + "/../b")
	_, _ = filepath.Rel(d, p)
	_ = os.TempDir()
	_ = os.Chmod(p, 0o600)
}

func H_Json() {
	b, err := json.MarshalIndent(map[string]int{"a": 1}, "", " ")
	nd.Assert(err == nil && len(b) > 5, "indent")
	nd.Assert(json.Valid([]byte("{}")), "valid")
	var buf bytes.Buffer
	nd.Assert(json.NewEncoder(&buf).Encode(1) == nil, "encode")
	var x struct{ A *int }
	nd.Assert(json.Unmarshal([]byte(`{"A":5}`), &x) == nil && *x.A == 5, "unmarshal")
	var raw json.RawMessage
	nd.Assert(json.Unmarshal([]byte(`{"A":5}`), &raw) == nil, "raw")
}

type pair[K comparable, V any] struct {
	k K
	v V
}

func mk[K comparable, V any](k K, v V) pair[K, V] { return pair[K, V]{k, v} }

func H_Lang() {
	p := mk("a", nd.Byte("x"))
	nd.Assert(p.k == "a", "generic")
	for i := range 3 {
		defer func() { _ = i }()
	}
	a := [3]byte{1, 2, 3}
	for _, v := range a {
		nd.Assert(v > 0, "array")
	}
	m := map[string][]int{"a": {1}}
	clear(m)
	nd.Assert(len(m) == 0, "clear")
	nd.Assert(min(1, 2) == 1 && max(1, 2) == 2, "minmax")
	s := a[:]
	q := (*[3]byte)(s)
	nd.Assert(q[1] == 2, "array pointer")
	var e interface{} = p
	switch v := e.(type) {
	case pair[string, byte]:
		nd.Assert(v.k == "a", "type switch")
	default:
		nd.Fail("type switch")
	}
	func() {
		defer func() { nd.Assert(recover() != nil, "recovered") }()
		var z []int
		_ = z[len(s)]
	}()
	goto end
end:
	ch := make(chan int, 1)
	select {
	case ch <- 1:
	default:
	}
	for range 1 {
		nd.Assert(<-ch == 1, "chan")
	}
	fn := p.get
	nd.Assert(fn() == "a", "method value")
	g := pair[string, byte].get
	nd.Assert(g(p) == "a", "method expr")
}

func (p pair[K, V]) get() K { return p.k }

func H_Fmt() {
	s := fmt.Sprintf("%s-%d-%v-%x-%q-%T", "a", 5, []int{1}, 255, "q", 5)
	_ = s
	nd.Assert(fmt.Sprintf("%s.%s", "a", "b") == "a.b", "strings")
	nd.Assert(fmt.Sprintf("%d/%v", 5, "x") == "5/x", "ints")
	nd.Assert(fmt.Sprint("a", 1) == "a1", "sprint")
	fmt.Fprintln(ioutil.Discard, "x")
	fmt.Fprintf(os.Stderr, "x")
}

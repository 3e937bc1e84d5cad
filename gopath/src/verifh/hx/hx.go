// Package hx holds stubs shared by the harnesses.
package hx

import (
	"errors"
	"io"
	"verifh/nd"
)

// ErrWrite is the failure of an injected write fault
var ErrWrite = errors.New("injected write failure")

// ErrClose is the failure of an injected close fault
var ErrClose = errors.New("injected close failure")

// ErrRead is the failure of an injected read fault
var ErrRead = errors.New("injected read failure")

// Writer records what is written; the k-th write and the close may fail
type Writer struct {
	Buf       []byte
	Writes    int
	Closes    int
	AfterEnd  bool // a write or close after the writer was closed
	FailWrite int  // 1-based index of the failing write, 0: none
	FailClose bool
	Failed    bool // a fault was injected
}

func (w *Writer) Write(p []byte) (int, error) {
	w.Writes++
	if w.Closes > 0 {
		w.AfterEnd = true
	}
	if w.FailWrite == w.Writes {
		w.Failed = true
		return 0, ErrWrite
	}
	w.Buf = append(w.Buf, p...)
	return len(p), nil
}

func (w *Writer) Close() error {
	if w.Closes > 0 {
		w.AfterEnd = true
	}
	w.Closes++
	if w.FailClose {
		w.Failed = true
		return ErrClose
	}
	return nil
}

// NewWriter returns a writer with arbitrary faults
func NewWriter(faults bool) *Writer {
	w := &Writer{}
	if faults {
		w.FailWrite = nd.Choice("failWrite", 8)
		w.FailClose = nd.Choice("failClose", 2) == 1
	}
	return w
}

// Reader delivers Data in arbitrary chunks and may fail
type Reader struct {
	Data     []byte
	pos      int
	Fail     bool // fail with ErrRead after the data instead of EOF
	WithLast bool // deliver EOF/failure together with the last chunk
	Zero     bool // deliver an empty read first
	Reads    int
	chunks   []int
}

// NewReader returns a reader that delivers data in at most n chunks
func NewReader(data []byte, n int) *Reader {
	r := &Reader{Data: data}
	left := len(data)
	for i := 0; i < n-1 && left > 0; i++ {
		k := nd.Int("chunk", 0, len(data))
		nd.Assume(k <= left)
		k = nd.Concretize(k)
		r.chunks = append(r.chunks, k)
		left -= k
	}
	r.WithLast = nd.Bool("withLast")
	return r
}

func (r *Reader) end() error {
	if r.Fail {
		return ErrRead
	}
	return io.EOF
}

func (r *Reader) Read(p []byte) (int, error) {
	r.Reads++
	if r.pos >= len(r.Data) {
		return 0, r.end()
	}
	n := len(r.Data) - r.pos
	if len(r.chunks) > 0 {
		n = r.chunks[0]
		if n > len(p) {
			r.chunks[0] -= len(p)
		} else {
			r.chunks = r.chunks[1:]
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.Data[r.pos:r.pos+n])
	r.pos += n
	if r.pos >= len(r.Data) && r.WithLast {
		return n, r.end()
	}
	return n, nil
}

// Same asserts that two byte slices are equal: same length and, at an
// arbitrary (symbolic) index, the same byte.
func Same(a, b []byte, label string) {
	nd.Assert(len(a) == len(b), label+" length")
	i := nd.Int("at:"+label, 0, 1<<16)
	if i < len(a) && i < len(b) {
		nd.Assert(a[i] == b[i], label)
	}
}

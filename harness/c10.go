package main

import (
	"io"

	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// faulty fails once it has taken limit bytes; afterwards it works again, so that anything the
// writer delivers after the failure is seen.
type faulty struct {
	b      []byte
	limit  int
	mode   int
	failed bool
	err    error // what the writer must report
	short  int   // how much of the failing write is delivered
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.failed || len(f.b)+len(p) <= f.limit {
		f.b = append(f.b, p...)
		return len(p), nil
	}
	f.failed = true
	n := 0
	switch f.short {
	case 1:
		n = 1
	case 2:
		n = len(p) - 1
	case 3:
		n = sym.Pin(f.limit - len(f.b))
	}
	if n >= len(p) {
		n = len(p) - 1
	}
	switch f.mode {
	case 1:
		f.b = append(f.b, p[:n]...)
		f.err = io.ErrShortWrite
		return n, nil
	case 2:
		// everything was taken, and yet it failed
		f.b = append(f.b, p...)
		f.err = errBad
		return len(p), errBad
	}
	f.b = append(f.b, p[:n]...)
	f.err = errBad
	return n, errBad
}

// indentation is how a writer is to be configured.
func withBuf(n int) xw.Option { return func(w *xw.Writer) { w.InitialBufSize = n } }

func config(size int, indent bool) []xw.Option {
	o := []xw.Option{withBuf(size)}
	if indent {
		o = append(o, xw.WithIndent())
	}
	return o
}

// faultRun plays a script on a failing writer and checks what it reports.
func faultRun(p *script, size int, indent bool, mode, short int) {
	// what a fault-free run delivers, and which calls produce output
	var ref sink
	w := xw.Open(&ref, config(0, indent)...)
	var produced []bool
	var depths []int
	for _, f := range p.calls {
		n := len(ref.b)
		depths = append(depths, w.Depth())
		ok(f(w), "a valid call")
		ok(w.Flush(), "Flush")
		produced = append(produced, len(ref.b) > n)
	}
	ok(w.EndAllFlush(), "EndAllFlush")

	f := &faulty{limit: sym.Int(0, len(ref.b)), mode: mode, short: short}
	w = xw.Open(f, config(size, indent)...)
	var first error
	note := func(err error) {
		if err != nil && first == nil {
			sym.Assert(f.failed, "an error although the underlying writer works")
			sym.Assert(err == f.err, "the error is not that of the underlying writer")
			first = err
		}
	}
	for i, call := range p.calls {
		// a refused Start leaves the writer elsewhere: what follows is then another history
		before := f.failed && w.Depth() == depths[i]
		err := call(w)
		note(err)
		if before && produced[i] {
			sym.Assert(err != nil, "a call after the failure reports success")
		}
	}
	err := w.EndAllFlush()
	note(err)
	if f.failed {
		sym.Cover("fault")
		sym.Assert(err == f.err, "EndAllFlush does not report the failure")
		sym.Assert(w.Flush() == f.err, "Flush does not report the failure")
		// whoever tries again gets the error again, and no panic
		for i := 0; i < 3; i++ {
			sym.Assert(w.EndAllFlush() == f.err, "EndAllFlush does not report the failure again")
		}
		sym.Assert(w.WriteRaw("more") == f.err, "WriteRaw does not report the failure")
		sym.Assert(w.WriteText("more") != nil || w.Depth() >= 0, "WriteText does not report the failure")
		sym.Assert(len(f.b) <= len(ref.b) && string(f.b) == string(ref.b[:len(f.b)]), "what was delivered is not a prefix of the output")
	} else {
		sym.Cover("no fault")
		sym.Assert(first == nil, "an error without a fault")
		sym.Assert(string(f.b) == string(ref.b), "no error, but not everything was delivered")
	}
}

// C10_faults: a failing writer is reported whenever it fails.
// Bound: 7 documents with every kind of node, and 1 arbitrary valid call (thorough: 2) out of 49 in
// each of 18 places; a fault after any number of bytes, with none, one, all but one or all of the failing
// write delivered, as an error or as a short write; buffers of 16 and 64 (thorough: also 33 and
// 2048) bytes, with and without indenter.
func C10_faults() {
	p := anyScript(1 + sym.Tier())
	sizes := []int{16, 64, 33, 2048}
	size := sizes[sym.Choice(2+2*sym.Tier())]
	indent := sym.Choice(2) == 1
	m := sym.Choice(4)
	switch m {
	case 0, 1, 2: // an error
		faultRun(p, size, indent, 0, m)
	case 3: // a short write
		faultRun(p, size, indent, 1, 1)
	}
}

// C10_points: the same with the exact number of bytes delivered.
// Bound: 3 of the documents, every number of delivered bytes, the three ways of failing, buffer of 16 bytes.
func C10_points() {
	p := &script{}
	p.doc(1 + sym.Choice(3))
	faultRun(p, 16, sym.Choice(2) == 1, sym.Choice(3), 3)
}

// C10_depth: the failure is also reported by a call which ends many nodes at once.
// Bound: 2 or 4 (thorough: 2 to 6) elements around what is open of 3 (thorough: 7) shapes, all but the first
// (thorough: any number of them) ended by EndToDepth, then one more element; a fault after any number of bytes;
// a buffer of 1 or 16 bytes, without (thorough: also with) indenter.
func C10_depth() {
	n := []int{2, 4, 3, 5, 6}[sym.Choice(2+3*sym.Tier())]
	p := &script{}
	for i := 0; i < n; i++ {
		p.start(xw.Elem{Name: "el" + num(i)})
	}
	p.shape([]int{0, 5, 3, 4, 6, 10, 11}[sym.Choice(3+4*sym.Tier())])
	d := 0
	if sym.Tier() == 1 {
		d = sym.Choice(n - 1)
	}
	p.call(func(w *xw.Writer) error { return w.EndToDepth(d, xw.ElemNode) })
	p.start(xw.Elem{Name: "last"})
	faultRun(p, []int{1, 16}[sym.Choice(2)], sym.Choice(1+sym.Tier()) == 1, 0, 0)
}

var _ = reg("C10_depth", C10_depth)
var _ = reg("C10_faults", C10_faults)
var _ = reg("C10_points", C10_points)

package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// stream is an io.Writer which takes notes of how it is called.
type stream struct {
	b     []byte
	calls int
	empty int
}

func (s *stream) Write(p []byte) (int, error) {
	s.calls++
	if len(p) == 0 {
		s.empty++
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

// streams plays calls, and watches what is delivered between them.
func streams(calls []func(w *xw.Writer) error, size int, opts ...xw.Option) {
	limit := size
	if limit <= 0 {
		limit = 2048 // the default, as big as it has always been
	}
	var s stream
	w := xw.Open(&s, append([]xw.Option{withBuf(size)}, opts...)...)
	var all sink // what the calls so far produce
	twin := xw.Open(&all, opts...)
	step := func(f func(w *xw.Writer) error) {
		before := len(s.b)
		ea, eb := f(w), f(twin)
		sym.Assert((ea == nil) == (eb == nil), "a result depends on the buffer")
		ok(twin.Flush(), "Flush")
		sym.Assert(len(s.b) >= before && len(s.b) <= len(all.b) && string(s.b) == string(all.b[:len(s.b)]), "what is delivered is not what has been written so far")
		sym.Assert(len(all.b)-len(s.b) <= limit, "more than the buffer is held back")
	}
	for _, f := range calls {
		step(f)
	}
	step(func(w *xw.Writer) error { return w.EndAll() })
	ok(w.Flush(), "Flush")
	sym.Observe("out", s.b)
	sym.Assert(string(s.b) == string(all.b), "Flush did not deliver everything")
	n := s.calls
	ok(w.Flush(), "Flush")
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Assert(s.calls == n, "Flush writes although nothing is held back")
	sym.Assert(s.empty == 0, "the io.Writer is given nothing to write")
	sym.Cover("streamed")
}

// C25_docs: what the calls have produced is delivered as they are made.
// Bound: 7 documents with every kind of node, and 1 arbitrary valid call (thorough: 2) out of 49 in
// each of 18 places; 7 buffer sizes; with and without indenter.
func C25_docs() {
	p := anyScript(1 + sym.Tier())
	var opts []xw.Option
	if sym.Choice(2) == 1 {
		opts = append(opts, xw.WithIndent())
	}
	streams(p.calls, bufSizes[sym.Choice(len(bufSizes))], opts...)
}

// C25_refused: refused calls hold nothing back either.
// Bound: 18 places, then 2 (thorough: 3) of 46 calls, whether they are accepted or not; buffers of 1, 16 and 33 bytes.
func C25_refused() {
	p := &script{}
	p.place(sym.Choice(places))
	for i := 0; i < 2+sym.Tier(); i++ {
		p.call(carry(sym.Choice(carriers), string([]byte{'x' + byte(i)})).call)
	}
	streams(p.calls, []int{1, 16, 33}[sym.Choice(3)])
}

// C25_big: however long the content.
// Bound: 1 arbitrary byte before, after or in the middle of filler of 9 lengths from 5000 to 65537
// (thorough: 18 to 131072), ASCII or to be escaped, in text, attribute value, comment, CDATA, PI, raw, comment and
// CDATA content, entity value and the content of an element that is started; buffers of 16 and 4096 bytes and the default one.
func C25_big() {
	n := big()
	unit := []string{"x", "&"}[sym.Choice(2)]
	if unit == "&" {
		if n > 20000 {
			sym.Stop()
		}
		n /= 4
	}
	pre, post := around(n, unit)
	text := pre + mark() + post
	var calls []func(w *xw.Writer) error
	start := func(n xw.Startable) {
		calls = append(calls, func(w *xw.Writer) error { return w.Start(n) })
	}
	write := func(n xw.Writable) {
		calls = append(calls, func(w *xw.Writer) error { return w.Write(n) })
	}
	switch sym.Choice(10) {
	case 0:
		start(xw.Elem{Name: "e"})
		write(xw.Text(text))
	case 1:
		start(xw.Elem{Name: "e"})
		write(xw.Attr{Name: "a", Value: text})
	case 2:
		write(xw.Comment{Content: text})
	case 3:
		write(xw.CData{Content: text})
	case 4:
		write(xw.PI{Target: "t", Content: text})
	case 5:
		write(xw.Raw(text))
	case 6:
		start(xw.Comment{})
		write(xw.CommentContent(text))
	case 7:
		start(xw.CData{})
		write(xw.CDataContent(text))
	case 8:
		write(xw.DTDEntity{Name: "n", Content: text})
	case 9:
		start(xw.Elem{Name: "e", Content: []xw.Writable{xw.Text(text), xw.Elem{Name: "c"}}})
		calls = append(calls, func(w *xw.Writer) error { return w.Next() })
	}
	write(xw.Raw("after"))
	streams(calls, []int{16, 4096, -1, 0}[sym.Choice(4)])
}

// C25_counts: however many calls.
// Bound: 15 counts from 16 to 300 (thorough: 26 up to 600) of nodes of three mixes, with nothing open, in an element or each in an
// element of its own; with and without indenter; buffers of 16, 33 and 4096 bytes; a symbolic letter in the last one.
func C25_counts() {
	n := count()
	mix := sym.Choice(3)
	nest := sym.Choice(3)
	var calls []func(w *xw.Writer) error
	if nest == 1 {
		calls = append(calls, func(w *xw.Writer) error { return w.Start(xw.Elem{Name: "r"}) })
	}
	for i := 0; i < n; i++ {
		i := i
		if nest == 2 {
			calls = append(calls, func(w *xw.Writer) error { return w.Start(xw.Elem{Name: "n" + num(i)}) })
		}
		calls = append(calls, func(w *xw.Writer) error { return w.Write(flatNode(i, mix)) })
	}
	last := letter()
	calls = append(calls, func(w *xw.Writer) error { return w.Write(xw.Comment{Content: last}) })
	var opts []xw.Option
	if sym.Choice(2) == 1 {
		opts = append(opts, xw.WithIndent())
	}
	streams(calls, []int{16, 33, 4096}[sym.Choice(3)], opts...)
}

var (
	_ = reg("C25_docs", C25_docs)
	_ = reg("C25_refused", C25_refused)
	_ = reg("C25_big", C25_big)
	_ = reg("C25_counts", C25_counts)
)

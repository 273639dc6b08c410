package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// bufSizes are InitialBufSize values; 0 and negative mean the default.
var bufSizes = []int{1, 16, 17, 33, 64, 4096, -1}

// compareRuns plays calls (not necessarily valid ones) without flushing and with the default buffer,
// and then with another buffer and flushes after the calls for which flush says so.
func compareRuns(calls []func(w *xw.Writer) error, size int, flush func(i int) bool, opts ...xw.Option) {
	var a, b sink
	wa := xw.Open(&a, opts...)
	wb := xw.Open(&b, append([]xw.Option{withBuf(size)}, opts...)...)
	// what each prefix of the calls produces
	var all sink
	wc := xw.Open(&all, opts...)
	if flush(-1) {
		ok(wb.Flush(), "Flush")
	}
	for i, f := range calls {
		ea, eb, ec := f(wa), f(wb), f(wc)
		sym.Assert((ea == nil) == (eb == nil), "a result depends on the buffer")
		sym.Assert((ea == nil) == (ec == nil), "a result depends on flushing")
		sym.Assert(wa.Depth() == wb.Depth() && wb.Depth() == wc.Depth(), "the depth depends on buffering or flushing")
		ok(wc.Flush(), "Flush")
		if flush(i) {
			ok(wb.Flush(), "Flush")
			sym.Assert(string(b.b) == string(all.b), "Flush did not deliver everything")
			if i%2 == 0 {
				ok(wb.Flush(), "Flush")
				sym.Assert(len(b.b) == len(all.b), "Flush delivered something twice")
			}
		}
		sym.Assert(len(b.b) <= len(all.b) && string(b.b) == string(all.b[:len(b.b)]), "the output depends on buffering or flushing")
	}
	ea, eb, ec := wa.EndAllFlush(), wb.EndAllFlush(), wc.EndAllFlush()
	sym.Assert((ea == nil) == (eb == nil) && (ea == nil) == (ec == nil), "the result of EndAllFlush depends on buffering or flushing")
	if ea != nil {
		ok(wa.Flush(), "Flush")
		ok(wb.Flush(), "Flush")
		ok(wc.Flush(), "Flush")
	}
	sym.Observe("out", a.b)
	sym.Assert(string(a.b) == string(b.b), "the output depends on the buffer")
	sym.Assert(string(a.b) == string(all.b), "the output depends on flushing")
	sym.Cover("compared")
}

// flushPlan is one of the ways of placing flushes.
func flushPlan(n int) func(i int) bool {
	switch sym.Choice(4) {
	case 0:
		return func(int) bool { return false }
	case 1:
		return func(int) bool { return true }
	case 2:
		k := sym.Choice(n + 1)
		return func(i int) bool { return i == k-1 }
	default:
		return func(i int) bool { return i%2 == 1 }
	}
}

// C11_docs: output and results are the same whatever the buffer and the flushes.
// Bound: 7 documents with every kind of node, and 1 arbitrary valid call (thorough: 2) out of 49 in
// each of 18 places; 7 buffer sizes; no flush, one flush anywhere, or flushes after every or every other
// call; with and without indenter.
func C11_docs() {
	p := anyScript(1 + sym.Tier())
	var opts []xw.Option
	if sym.Choice(2) == 1 {
		opts = append(opts, xw.WithIndent())
	}
	compareRuns(p.calls, bufSizes[sym.Choice(len(bufSizes))], flushPlan(len(p.calls)), opts...)
}

// C11_refused: the same for calls which are refused.
// Bound: 18 places, then 2 (thorough: 3) of 46 calls, whether they are accepted or not; buffers of 16 and 33
// bytes; flush after each call or after none.
func C11_refused() {
	p := &script{}
	p.place(sym.Choice(places))
	for i := 0; i < 2; i++ {
		p.call(carry(sym.Choice(carriers), string([]byte{'x' + byte(i)})).call)
	}
	if sym.Tier() > 0 {
		p.call(carry(sym.Choice(carriers), "z").call)
	}
	size := []int{16, 33}[sym.Choice(2)]
	all := sym.Choice(2) == 1
	compareRuns(p.calls, size, func(int) bool { return all })
}

// C11_boundary: content that lies across the end of the buffer.
// Bound: text, attribute value, comment, CDATA, raw and element names of 0-40 letters with one
// arbitrary byte in any place (for names: a letter), after 0-3 letters of markup; buffers of 16 and 17 bytes, no flush or
// a flush before it; lengths near 2048 with the default buffer.
func C11_boundary() {
	n := sym.Choice(41)
	size := 16 + sym.Choice(2)
	if sym.Choice(2) == 1 {
		size = 0
		n += 2020
		if sym.Tier() == 0 && n%4 != 0 {
			sym.Stop()
		}
	}
	at := n
	switch sym.Choice(3) {
	case 0:
		at = 0
	case 1:
		at = n / 2
	}
	f := fill(n, "f")
	kind := sym.Choice(6)
	var mid string
	if kind == 5 {
		mid = letter()
	} else {
		mid = sym.StringN(1)
	}
	s := f[:at] + mid + f[at:]
	var calls []func(w *xw.Writer) error
	calls = append(calls, func(w *xw.Writer) error { return w.Start(xw.Elem{Name: "e"}) })
	var n1 xw.Writable
	switch kind {
	case 0:
		n1 = xw.Text(s)
	case 1:
		n1 = xw.Attr{Name: "a", Value: s}
	case 2:
		n1 = xw.Comment{Content: s}
	case 3:
		n1 = xw.CData{Content: s}
	case 4:
		n1 = xw.Raw(s)
	case 5:
		n1 = xw.Elem{Name: s}
	}
	calls = append(calls, func(w *xw.Writer) error { return w.Write(n1) })
	before := sym.Choice(2) == 1
	compareRuns(calls, size, func(i int) bool { return before && i == 0 })
}

// C11_top: nodes with nothing open.
// Bound: 3 (thorough: 4) calls out of 14 that start from nothing and leave nothing open (nodes by Write, Block, or
// Start and End; refused ones too), with and without an indenter; flush after each call, after one of them or none; 16-byte
// and default buffer.
func C11_top() {
	var calls []func(w *xw.Writer) error
	n := 3 + sym.Tier()
	for i := 0; i < n; i++ {
		s, u := letter(), mark()
		var f func(w *xw.Writer) error
		wr := func(n xw.Writable) { f = func(w *xw.Writer) error { return w.Write(n) } }
		bl := func(n xw.Startable, c ...xw.Writable) { f = func(w *xw.Writer) error { return w.Block(n, c...) } }
		st := func(n xw.Startable) {
			f = func(w *xw.Writer) error {
				if err := w.Start(n); err != nil {
					return err
				}
				return w.EndAny()
			}
		}
		switch sym.Choice(14) {
		case 0:
			wr(xw.Elem{Name: s})
		case 1:
			bl(xw.Elem{Name: s}, xw.Elem{Name: "c"})
		case 2:
			wr(xw.Text(u))
		case 3:
			wr(xw.Comment{Content: u})
		case 4:
			st(xw.CData{Content: u})
		case 5:
			wr(xw.PI{Target: s, Content: u})
		case 6:
			st(xw.Doc{})
		case 7:
			bl(xw.DTD{Name: s}, xw.DTDElem{Name: s, Decl: "ANY"})
		case 8:
			wr(xw.DTDEntity{Name: s, Content: u})
		case 9:
			wr(xw.DTDAttList{Name: s, Attrs: []xw.DTDAttr{{Name: "a", Type: "ID"}}})
		case 10:
			wr(xw.Raw(u))
		case 11:
			wr(xw.Notation{Name: s, SystemID: u})
		case 12:
			st(xw.Elem{Name: "0"})
		case 13:
			f = func(w *xw.Writer) error { return w.EndAny() }
		}
		calls = append(calls, f)
	}
	var opts []xw.Option
	if sym.Choice(2) == 1 {
		opts = append(opts, xw.WithIndent())
	}
	k := sym.Choice(n + 2)
	compareRuns(calls, []int{16, -1}[sym.Choice(2)], func(i int) bool { return k == n+1 || i == k-1 }, opts...)
}

var _ = reg("C11_top", C11_top)
var _ = reg("C11_docs", C11_docs)
var _ = reg("C11_refused", C11_refused)
var _ = reg("C11_boundary", C11_boundary)

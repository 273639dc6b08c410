package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// alone is the output of a script on a writer of its own.
func alone(p *script, opts func() []xw.Option) string {
	s := &sink{}
	w := xw.Open(s, opts()...)
	for _, c := range p.calls {
		ok(c(w), "a valid call")
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	return string(s.b)
}

// turns says which of two scripts makes the next call, by one of several patterns.
func turns(pattern, i int) int {
	switch pattern {
	case 0:
		return i % 2
	case 1:
		return i / 2 % 2
	case 2:
		return 1 - i/3%2
	case 3: // the other all at once, in the middle
		if i < 3 {
			return 0
		}
		return 1
	}
	panic("pattern")
}

func interleaved(a, b *script, pattern int, optsA, optsB func() []xw.Option) {
	interleavedAs(a, b, alone(a, optsA), alone(b, optsB), pattern, optsA, optsB)
}

// interleavedAs: the outputs must be wantA and wantB.
func interleavedAs(a, b *script, wantA, wantB string, pattern int, optsA, optsB func() []xw.Option) {
	sa, sb := &sink{}, &sink{}
	ws := [2]*xw.Writer{xw.Open(sa, optsA()...), xw.Open(sb, optsB()...)}
	next := [2]int{}
	calls := [2][]func(w *xw.Writer) error{a.calls, b.calls}
	for i := 0; next[0] < len(calls[0]) || next[1] < len(calls[1]); i++ {
		k := turns(pattern, i)
		if next[k] >= len(calls[k]) {
			k = 1 - k
		}
		ok(calls[k][next[k]](ws[k]), "a valid call")
		next[k]++
	}
	d := ws[1].Depth()
	ok(ws[0].EndAllFlush(), "EndAllFlush")
	sym.Assert(ws[1].Depth() == d, "ending one writer changed the depth of another")
	ok(ws[1].EndAllFlush(), "EndAllFlush")
	sym.Observe("a", sa.b)
	sym.Observe("b", sb.b)
	sym.Assert(string(sa.b) == wantA, "a writer wrote something else than alone")
	sym.Assert(string(sb.b) == wantB, "a writer wrote something else than alone")
	sym.Cover("interleaved")
}

// indents gives each writer an indenter of its own, or none.
func indents(i int) func() []xw.Option {
	return func() []xw.Option {
		switch i {
		case 1:
			return []xw.Option{xw.WithIndent()}
		case 2:
			return []xw.Option{xw.WithIndentString("\t")}
		case 3:
			return []xw.Option{withBuf(16)}
		}
		return nil
	}
}

// C22_docs: two documents at a time.
// Bound: every pair of 7 documents with every kind of node, interleaved in 4 patterns, each with one
// indenter or another, or none.
func C22_docs() {
	a, b := &script{}, &script{}
	a.doc(sym.Choice(docs))
	b.doc(sym.Choice(docs))
	interleaved(a, b, sym.Choice(4), indents(sym.Choice(3)), indents(sym.Choice(4)))
}

// C22_options: the same option values for several writers.
// Bound: one slice of options (3 kinds) for two writers of every pair of 7 documents, interleaved in 4 patterns, and for a
// third which is left unfinished before or between them; the outputs are those of options of their own.
func C22_options() {
	a, b := &script{}, &script{}
	a.doc(sym.Choice(docs))
	b.doc(sym.Choice(docs))
	own := indents(1 + sym.Choice(3))
	wantA, wantB := alone(a, own), alone(b, own)
	one := own()
	shared := func() []xw.Option { return one }
	if k := sym.Choice(3); k > 0 {
		w := xw.Open(&sink{}, one...)
		for i, c := range a.calls {
			if i < 2*k {
				ok(c(w), "a valid call")
			}
		}
	}
	interleavedAs(a, b, wantA, wantB, sym.Choice(4), shared, shared)
}

var _ = reg("C22_options", C22_options)

// C22_calls: a call on one writer between two calls on another.
// Bound: each writer in one of 18 places, 1 valid call out of 49 on the first and (thorough: 49; quick:
// 1) on the second; the first's calls before, between and after those of the second.
func C22_calls() {
	a, b := &script{}, &script{}
	pl := sym.Choice(places)
	a.place(pl)
	a.any("x", true)
	ind := sym.Choice(2)
	b.place(sym.Choice(places))
	if sym.Tier() > 0 {
		b.any("y", true)
	} else if b.m.allows(xw.ElemNode) {
		b.start(xw.Elem{Name: letter(), Attrs: tattrs(2)})
	} else if b.m.allows(xw.CDataContentNode) {
		b.write(xw.CDataContent(mark()))
	} else if b.m.allows(xw.CommentContentNode) {
		b.write(xw.CommentContent(mark()))
	} else if b.m.top() != nil {
		b.endAny()
	}
	pattern := sym.Choice(2)
	interleaved(a, b, 2*pattern, indents(ind), indents(0))
}

// ---------- values

const valueKinds = 12

func spareAttrs(a ...xw.Attr) []xw.Attr {
	b := make([]xw.Attr, 0, len(a)+2)
	b = append(b, a...)
	spare := append(b, xw.Attr{Name: "spare", Value: "1"}, xw.Attr{Name: "spare", Value: "2"})
	return spare[:len(a)]
}

func spareDefs(a ...xw.DTDAttr) []xw.DTDAttr {
	b := make([]xw.DTDAttr, 0, len(a)+1)
	b = append(b, a...)
	return append(b, xw.DTDAttr{Name: "spare"})[:len(a)]
}

func spareNodes(a ...xw.Writable) []xw.Writable {
	b := make([]xw.Writable, 0, len(a)+1)
	b = append(b, a...)
	return append(b, xw.Text("spare"))[:len(a)]
}

// valueOf is one of a number of values with everything that can be shared with the caller. Called
// twice with the same arguments it gives equal values which share nothing.
func valueOf(i int, s, t string) xw.Writable {
	switch i {
	case 0:
		return xw.Elem{Name: s, Attrs: spareAttrs(xw.Attr{Name: "a", Value: t}, xw.Attr{Name: "b", Value: "<\""})}
	case 1:
		return xw.Elem{Prefix: "p", URI: "u" + t, Name: s, Attrs: spareAttrs(xw.Attr{Prefix: "q", URI: t, Name: "a"}, xw.Attr{Prefix: "p", URI: "u" + t, Name: "b"})}
	case 2:
		return xw.Elem{Name: s, Full: true, Content: spareNodes(xw.Text(t), xw.Elem{Name: t, Attrs: spareAttrs(xw.Attr{Name: s}), Content: spareNodes(xw.Comment{Content: s}, xw.Text(t))}, xw.CData{Content: t})}
	case 3:
		return xw.Elem{Name: s, Attrs: spareAttrs(), Content: spareNodes()}
	case 4:
		return xw.Text("a" + t + "\"<")
	case 5:
		return xw.Comment{Content: t}
	case 6:
		return xw.CData{Content: s + t}
	case 7:
		return xw.PI{Target: s, Content: t}
	case 8:
		return xw.DTDAttList{Name: s, Attrs: spareDefs(xw.DTDAttr{Name: "a", Type: xw.DTDAttrString, Value: t}, xw.DTDAttr{Name: "b", Type: xw.DTDAttrID, Default: xw.DTDAttrRequired})}
	case 9:
		return xw.DTDEntity{Name: s, PublicID: "p", SystemID: t, NDataID: s}
	case 10:
		return xw.Notation{Name: s, PublicID: t, SystemID: s}
	case 11:
		return xw.DTDElem{Name: s, Decl: "(" + t + ")"}
	}
	panic("value")
}

func sameAttrs(a, b []xw.Attr) bool {
	if len(a) != len(b) || cap(a) != cap(b) {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameNodes(a, b []xw.Writable) bool {
	if len(a) != len(b) || cap(a) != cap(b) {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	for i := range a {
		if !sameValue(a[i], b[i]) {
			return false
		}
	}
	return true
}

// sameValue: nothing in a, which was written, differs from b, which was not.
func sameValue(a, b xw.Writable) bool {
	switch a := a.(type) {
	case xw.Elem:
		b, good := b.(xw.Elem)
		return good && a.Prefix == b.Prefix && a.Name == b.Name && a.URI == b.URI && a.Full == b.Full && sameAttrs(a.Attrs, b.Attrs) && sameNodes(a.Content, b.Content)
	case xw.DTDAttList:
		b, good := b.(xw.DTDAttList)
		if !good || a.Name != b.Name || len(a.Attrs) != len(b.Attrs) || cap(a.Attrs) != cap(b.Attrs) {
			return false
		}
		x, y := a.Attrs[:cap(a.Attrs)], b.Attrs[:cap(b.Attrs)]
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	return a == b
}

// writeValue writes a value in one of the ways it can be written.
func writeValue(w *xw.Writer, way int, n xw.Writable) {
	s, startable := n.(xw.Startable)
	e, elem := n.(xw.Elem)
	switch way {
	case 0:
		ok(w.Write(n), "Write")
	case 1:
		if !startable {
			sym.Stop()
		}
		ok(w.Start(s), "Start")
		ok(w.EndAny(), "EndAny")
	case 2:
		if !startable {
			sym.Stop()
		}
		ok(w.Block(s), "Block")
	case 3:
		if !elem {
			sym.Stop()
		}
		ok(w.Start(e), "Start")
		if len(e.Content) == 0 {
			ok(w.Write(xw.Attr{Prefix: "zz", URI: "y", Name: "more"}), "Write")
		}
		ok(w.Write(xw.Text("more"), xw.Elem{Name: "more"}), "Write")
		ok(w.EndElemFull(), "EndElemFull")
	case 4:
		if !elem {
			sym.Stop()
		}
		ok(w.Block(xw.Elem{Name: "o"}, spareNodes(n, n)...), "Block")
	case 5:
		if !elem {
			sym.Stop()
		}
		ok(w.Write(xw.Elem{Name: "o", Content: spareNodes(n)}), "Write")
	}
}

// C22_values: a value is the same after it has been written and can be written again.
// Bound: 12 values (elements with attributes, namespaces and content, and the other nodes; slices with
// spare capacity), written in 6 ways, twice to one writer and once to another, with and without indenter;
// names and contents symbolic.
func C22_values() {
	kind := sym.Choice(valueKinds)
	way := sym.Choice(6)
	s, t := letter(), letter()
	n, same := valueOf(kind, s, t), valueOf(kind, s, t)
	ind := sym.Choice(2)
	open := func() (*sink, *xw.Writer) {
		o := &sink{}
		w := xw.Open(o, indents(ind)()...)
		if kind < 8 {
			ok(w.Start(xw.Elem{Name: "root"}), "Start")
		} else {
			ok(w.Start(xw.DTD{Name: "root"}), "Start")
		}
		return o, w
	}
	a, wa := open()
	writeValue(wa, way, n)
	sym.Assert(sameValue(n, same), "writing a value changed it")
	if kind < 8 {
		ok(wa.Write(xw.Elem{Name: "between", Attrs: []xw.Attr{{Name: "k", Value: "v"}, {Name: "l"}}, Content: []xw.Writable{xw.Text("x")}}), "Write")
	} else {
		ok(wa.Write(xw.DTDElem{Name: "between", Decl: "ANY"}), "Write")
	}
	writeValue(wa, way, n)
	ok(wa.EndAllFlush(), "EndAllFlush")
	sym.Assert(sameValue(n, same), "writing a value changed it")
	b, wb := open()
	writeValue(wb, way, same)
	if kind < 8 {
		ok(wb.Write(xw.Elem{Name: "between", Attrs: []xw.Attr{{Name: "k", Value: "v"}, {Name: "l"}}, Content: []xw.Writable{xw.Text("x")}}), "Write")
	} else {
		ok(wb.Write(xw.DTDElem{Name: "between", Decl: "ANY"}), "Write")
	}
	writeValue(wb, way, valueOf(kind, s, t))
	ok(wb.EndAllFlush(), "EndAllFlush")
	sym.Assert(string(a.b) == string(b.b), "writing a value again gives something else")
	sym.Cover("written again")
}

// C22_args: what is passed to a call as a list, or by a pointer, is left alone.
// Bound: lists of nodes for Start, Write, WriteAttr and Block, names for End, forced version and
// encoding and standalone of a Doc; symbolic letters.
func C22_args() {
	s := &sink{}
	w := xw.Open(s, indents(sym.Choice(2))()...)
	x, y := letter(), letter()
	ver, enc, sa := "1."+x, "e"+y, sym.Choice(2) == 1
	saWas := sa
	doc := xw.Doc{ForcedVersion: &ver, ForcedEncoding: &enc, Standalone: &sa}
	was := doc
	els := []xw.Startable{doc, xw.Elem{Name: x}, xw.Elem{Name: y}, xw.Elem{Name: "spare"}}
	ok(w.Start(els[:3]...), "Start")
	sym.Assert(doc == was && ver == "1."+x && enc == "e"+y && sa == saWas, "writing a Doc changed it")
	d, good := els[0].(xw.Doc)
	sym.Assert(good && d == was, "Start changed its list")
	sym.Assert(sameValue(els[1].(xw.Elem), xw.Elem{Name: x}) && sameValue(els[2].(xw.Elem), xw.Elem{Name: y}) && sameValue(els[3].(xw.Elem), xw.Elem{Name: "spare"}), "Start changed its list")
	attrs := []xw.Attr{{Name: "a", Value: x}, {Prefix: "p", URI: "u", Name: "b", Value: y}}
	ok(w.WriteAttr(attrs...), "WriteAttr")
	sym.Assert(attrs[0] == xw.Attr{Name: "a", Value: x} && attrs[1] == xw.Attr{Prefix: "p", URI: "u", Name: "b", Value: y}, "WriteAttr changed its list")
	nodes := []xw.Writable{xw.Text(x), xw.Comment{Content: y}, xw.Text("spare")}
	ok(w.Write(nodes[:2]...), "Write")
	ok(w.Block(xw.Elem{Name: "blk"}, nodes[:2]...), "Block")
	sym.Assert(sameNodes(nodes, []xw.Writable{xw.Text(x), xw.Comment{Content: y}, xw.Text("spare")}[:3:3]), "Write changed its list")
	names := []string{y, x}
	ok(w.EndElem(names[:1]...), "EndElem")
	ok(w.End(xw.ElemNode, names[1:]...), "End")
	sym.Assert(names[0] == y && names[1] == x, "End changed its list")
	// the same again
	s2 := &sink{}
	w2 := xw.Open(s2)
	ok(w2.Start(doc), "Start")
	ok(w2.EndAllFlush(), "EndAllFlush")
	want := "<?xml version=\"1." + x + "\" encoding=\"e" + y + "\" standalone=\"" + []string{"no", "yes"}[sym.If(saWas, 1, 0)] + "\"?>\n"
	sym.Assert(string(s2.b) == want, "the Doc written again is another")
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Observe("out", s.b)
	sym.Cover("args")
}

// C22_indent: each writer indents with its own indent string and newline string, at any depth.
// Bound: two writers with different indent strings out of 4 and newline strings out of 3, 0-10 (thorough:
// 0-20) elements deep each, interleaved in 4 patterns or one after the other; each output is compared with the
// plain output.
func C22_indent() {
	units := []string{" ", "\t", "\t  ", "    "}
	nls := []string{"\n", "\r\n", "\n\n"}
	x := sym.Choice(4)
	y := (x + 1 + sym.Choice(3)) % 4
	nx := sym.Choice(3)
	ny := sym.Choice(3)
	depth := []int{3, 6, 10, 20}
	var p [2]script
	var plain [2]string
	var ws [2]*xw.Writer
	outs := [2]*sink{{}, {}}
	for k := range p {
		n := depth[sym.Choice(3+sym.Tier())]
		for i := 0; i < n; i++ {
			p[k].start(xw.Elem{Name: letter()})
		}
		p[k].write(xw.Comment{Content: "c"})
		for i := 0; i < n; i++ {
			p[k].endAny()
		}
		plain[k] = alone(&p[k], func() []xw.Option { return nil })
		unit, nl := units[x], nls[nx]
		if k == 1 {
			unit, nl = units[y], nls[ny]
		}
		ws[k] = xw.Open(outs[k], xw.WithIndentString(unit))
		ws[k].NewlineString = nl
	}
	pattern := sym.Choice(5)
	next := [2]int{}
	for i := 0; next[0] < len(p[0].calls) || next[1] < len(p[1].calls); i++ {
		k := 0
		if pattern < 4 {
			k = turns(pattern, i)
		}
		if next[k] >= len(p[k].calls) {
			k = 1 - k
		}
		ok(p[k].calls[next[k]](ws[k]), "a valid call")
		next[k]++
	}
	ok(ws[0].EndAllFlush(), "EndAllFlush")
	ok(ws[1].EndAllFlush(), "EndAllFlush")
	checkIndent([]byte(plain[0]), outs[0].b, nls[nx], units[x])
	checkIndent([]byte(plain[1]), outs[1].b, nls[ny], units[y])
	sym.Cover("own indent")
}

var _ = reg("C22_docs", C22_docs)
var _ = reg("C22_indent", C22_indent)
var _ = reg("C22_calls", C22_calls)
var _ = reg("C22_values", C22_values)
var _ = reg("C22_args", C22_args)

// C22_after: writers which were finished, and are used on, while others come.
// Bound: a writer of one of 7 documents is finished by EndAllFlush, or EndAll and Flush, or after a refused call; then a second is
// opened, of one of 7 documents, of which 0-4 calls are made; then the first one writes another element
// with an attribute and a child, interleaved with the rest in 2 patterns; with or without indenters, with a small buffer or not.
func C22_after() {
	a, more, b := &script{}, &script{}, &script{}
	a.doc(sym.Choice(docs))
	b.doc(sym.Choice(docs))
	more.start(xw.Elem{Name: letter(), Attrs: []xw.Attr{{Name: "k", Value: mark()}}})
	more.write(xw.Elem{Name: letter()})
	more.start(xw.Elem{Name: letter()})
	oa, ob := indents(sym.Choice(4)), indents(sym.Choice(2))
	finish := sym.Choice(3)
	first := func(w *xw.Writer) {
		a.play(w)
		switch finish {
		case 0:
			ok(w.EndAllFlush(), "EndAllFlush")
		case 1:
			ok(w.EndAll(), "EndAll")
			ok(w.Flush(), "Flush")
		case 2:
			sym.Assert(w.EndElem("!") != nil, "End of another node was accepted")
			ok(w.EndAllFlush(), "EndAllFlush")
		}
	}
	x := &sink{}
	w := xw.Open(x, oa()...)
	first(w)
	more.play(w)
	ok(w.EndAllFlush(), "EndAllFlush")
	wantA, wantB := string(x.b), alone(b, ob)

	sa, sb := &sink{}, &sink{}
	wa := xw.Open(sa, oa()...)
	first(wa)
	wb := xw.Open(sb, ob()...)
	k := sym.Choice(5)
	if k > len(b.calls) {
		k = len(b.calls)
	}
	for _, c := range b.calls[:k] {
		ok(c(wb), "a valid call")
	}
	rest := b.calls[k:]
	one := sym.Choice(2) == 1
	for i, c := range more.calls {
		ok(c(wa), "a valid call")
		if one && i < len(rest) {
			ok(rest[i](wb), "a valid call")
		}
	}
	if one && len(rest) > 0 {
		rest = rest[min(len(rest), len(more.calls)):]
	}
	for _, c := range rest {
		ok(c(wb), "a valid call")
	}
	ok(wb.EndAllFlush(), "EndAllFlush")
	ok(wa.EndAllFlush(), "EndAllFlush")
	sym.Observe("a", sa.b)
	sym.Observe("b", sb.b)
	sym.Assert(string(sa.b) == wantA, "a writer wrote something else than alone")
	sym.Assert(string(sb.b) == wantB, "a writer wrote something else than alone")
	sym.Cover("after")
}

var _ = reg("C22_after", C22_after)

package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// counts are numbers at which a representation or a preallocation could give out.
func count() int {
	sym.Large()
	s := []int{16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}
	if sym.Tier() > 0 {
		s = append(s, 15, 31, 63, 130, 254, 258, 400, 511, 512, 513, 600)
	}
	return s[sym.Choice(len(s))]
}

// num is i in letters.
func num(i int) string {
	s := string(rune('a' + i%26))
	for i /= 26; i > 0; i /= 26 {
		s = string(rune('a'+i%26)) + s
	}
	return s
}

// flatNode is the i-th of many nodes in an element.
func flatNode(i int, mix int) xw.Writable {
	switch mix {
	case 0:
		return xw.Elem{Name: num(i)}
	case 1:
		return []xw.Writable{xw.Text("t"), xw.Elem{Name: "e", Content: []xw.Writable{xw.Text(num(i))}}, xw.Comment{Content: num(i)}, xw.CData{Content: num(i)}}[i%4]
	}
	return xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: num(i), Value: num(i)}}}
}

// C07_counts: trees with many nodes on a level, attributes on an element, levels and pieces of text.
// Bound: 15 counts from 16 to 300 (thorough: 26 up to 600) of siblings of three mixes, in one Content, by calls
// or all but the last one in Content; attributes; levels, by calls or by Content; texts; elements
// started and ended inside one element; up to 65537 calls of Next; a symbolic letter in the last one.
func C07_counts() {
	t := open()
	kind := sym.Choice(8)
	n := 0
	if kind == 7 {
		sym.Large()
		n = []int{255, 256, 257, 65535, 65536, 65537}[sym.Choice(6)]
	} else {
		n = count()
	}
	t.start(xw.Elem{Name: "r"})
	last := letter()
	switch kind {
	case 0: // siblings
		mix, by := sym.Choice(3), sym.Choice(3)
		e := xw.Elem{Name: "p"}
		var calls []xw.Writable
		for i := 0; i < n-1; i++ {
			c := flatNode(i, mix)
			if by == 0 {
				calls = append(calls, c)
			} else {
				e.Content = append(e.Content, c)
			}
		}
		if l := (xw.Elem{Name: last}); by == 2 {
			calls = append(calls, l)
		} else {
			e.Content = append(e.Content, l)
		}
		t.start(e)
		ok(t.w.Next(), "Next")
		t.m.child()
		t.m.content(e)
		for _, c := range calls {
			t.write(c)
		}
	case 1: // attributes
		k := []int{0, 1, n / 2, n}[sym.Choice(4)]
		e := xw.Elem{Name: "p"}
		for i := 0; i < n; i++ {
			a := xw.Attr{Name: num(i), Value: num(i)}
			if i == n-1 {
				a.Value = last
			}
			e.Attrs = append(e.Attrs, a)
		}
		all := e.Attrs
		e.Attrs = all[:k:k]
		t.start(e)
		ok(t.w.WriteAttr(all[k:]...), "WriteAttr")
		for _, a := range all[k:] {
			t.m.write(a)
		}
	case 2: // levels
		for i := 0; i < n; i++ {
			t.start(xw.Elem{Name: num(i)})
		}
		t.write(xw.Text(last))
	case 3: // levels in Content
		in := xw.Elem{Name: last}
		for i := 0; i < n; i++ {
			in = xw.Elem{Name: num(i), Content: []xw.Writable{in}}
		}
		t.write(in)
	case 4: // texts
		for i := 0; i < n; i++ {
			t.write(xw.Text(num(i)))
		}
		t.write(xw.Text("&" + last))
	case 5: // started and ended
		for i := 0; i < n; i++ {
			t.start(xw.Elem{Name: num(i)})
			if i%3 == 1 {
				t.write(xw.Text("x"))
			}
			t.end()
		}
		t.write(xw.Elem{Name: last})
	case 6: // an empty element after and in many full ones
		for i := 0; i < n; i++ {
			t.write(xw.Elem{Name: "f", Full: true, Content: []xw.Writable{xw.Text("x")}})
		}
		t.end()
		t.start(xw.Elem{Name: last})
	case 7:
		t.start(xw.Elem{Name: last})
		for i := 0; i < n; i++ {
			ok(t.w.Next(), "Next")
		}
		t.m.child()
	}
	sym.Cover("many")
	t.finish()
}

var _ = reg("C07_counts", C07_counts)

// C08_counts: Depth and ends with many open elements.
// Bound: 15 counts from 16 to 300 (thorough: 26 up to 600) of open elements; then down by EndAny to half of it
// and EndToDepth; EndToDepth 0, 1, half or all but one, with the right name or kind or another; EndAll; EndDoc; or an End of something else.
func C08_counts() {
	p := newPair()
	n := count()
	doc := sym.Choice(2) == 1
	if doc {
		p.start(xw.Doc{})
	}
	last := letter()
	for i := 0; i < n; i++ {
		e := xw.Elem{Name: num(i)}
		if i == n/2 {
			e.Name = last
		}
		p.start(e)
	}
	top := p.m.depth()
	to := func(d int) {
		ok(p.w.EndToDepth(d, p.m.st[d+1].kind, p.m.st[d+1].name), "EndToDepth")
		for p.m.depth() > d {
			ok(p.twin.w.EndAny(), "EndAny")
			p.m.pop()
		}
		sym.Assert(p.w.Depth() == d, "depth after EndToDepth")
	}
	all := func(f func(w *xw.Writer) error) {
		ok(f(p.w), "an End of everything")
		for p.m.depth() >= 0 {
			ok(p.twin.w.EndAny(), "EndAny")
			p.m.pop()
		}
		sym.Assert(p.w.Depth() == -1, "depth after ending everything")
	}
	switch sym.Choice(7) {
	case 6:
		d := []int{1, n / 2, top - 1, top - 8}[sym.Choice(4)]
		var err error
		switch sym.Choice(3) {
		case 0:
			err = p.w.EndToDepth(d, xw.ElemNode, p.m.st[d+1].name+"_")
		case 1:
			err = p.w.EndToDepth(d, xw.CommentNode)
		case 2:
			err = p.w.EndToDepth(top, xw.ElemNode)
		}
		sym.Observe("err", err != nil)
		sym.Assert(err != nil, "EndToDepth ends a node which does not match, or none")
		sym.Assert(p.w.Depth() > d, "EndToDepth ends a node which does not match")
		sym.Cover("refused")
		return
	case 0:
		for p.m.depth() > n/2 {
			p.same(func(w *xw.Writer) error { return w.EndAny() })
			p.m.pop()
		}
		to(p.m.depth() - 1 - sym.Choice(3))
	case 1:
		d := []int{1, n / 2, top - 1, top - 8}[sym.Choice(4)]
		to(d)
		p.write(xw.Elem{Name: "more"})
	case 2:
		all(func(w *xw.Writer) error { return w.EndAll() })
	case 3:
		if !doc {
			sym.Stop()
		}
		all(func(w *xw.Writer) error { return w.EndDoc() })
	case 4:
		p.refused(func(w *xw.Writer) error { return w.EndElem(last + "_") }, "End with another name")
		p.refused(func(w *xw.Writer) error { return w.EndComment() }, "End of another kind")
		sym.Assert(p.w.Depth() == top, "a refused End changed the depth")
	case 5:
		for p.m.depth() > 0 {
			name := p.m.top().name
			p.same(func(w *xw.Writer) error { return w.EndElem(name) })
			p.m.pop()
		}
	}
	sym.Cover("many")
	p.compare()
}

var _ = reg("C08_counts", C08_counts)

// C05_counts: content given in many pieces, and many sections.
// Bound: 15 counts from 16 to 300 (thorough: 26 up to 600) of pieces of 1 byte, or of complete sections, then 2 pieces
// of 1 byte out of - > ] ! ? x CR; comment or CDATA section, in an element.
func C05_counts() {
	s := openSection(2, sym.Choice(2) == 1)
	n := count()
	b := sym.Choice(2)
	if b == 0 {
		ok(s.start(""), "Start")
		for i := 0; i < n; i++ {
			p := num(i % 26)
			if s.cdata {
				p = "]"
			} else if i%2 == 0 {
				p = "-"
			}
			ok(s.content(p), "content")
			s.acc += p
		}
	} else {
		e := s.ev()
		for i := 0; i < n; i++ {
			ok(s.start(""), "Start")
			p := num(i)
			ok(s.content(p), "content")
			ok(s.end(), "End")
			e.val = p
			s.pre = append(s.pre, e)
		}
		ok(s.start("x"), "Start")
		s.acc = "x"
	}
	for i := 0; i < 2; i++ {
		p := adversary()
		if s.content(p) == nil {
			s.acc += p
		}
	}
	s.finish()
	ok(s.w.EndAllFlush(), "EndAllFlush")
	s.check()
}

// adversary is a byte that may be part of a delimiter.
func adversary() string {
	return []string{"-", ">", "]", "!", "?", "x", "\r"}[sym.Choice(7)]
}

var _ = reg("C05_counts", C05_counts)

// C11_counts: many flushes, and many calls between two.
// Bound: 15 counts from 16 to 300 (thorough: 26 up to 600) of calls of 5 kinds, a Flush after each, every 7th or none;
// buffers of 16, 33 and 4096.
func C11_counts() {
	n := count()
	calls := []func(w *xw.Writer) error{
		func(w *xw.Writer) error { return w.Start(xw.Elem{Name: "r"}) },
	}
	last := letter()
	for i := 0; i < n; i++ {
		i := i
		calls = append(calls, func(w *xw.Writer) error {
			if i == n-1 {
				return w.Write(xw.Text(last))
			}
			switch i % 5 {
			case 0:
				return w.Write(xw.Text("x&y"))
			case 1:
				return w.Start(xw.Elem{Name: num(i), Attrs: []xw.Attr{{Name: "k", Value: num(i)}}})
			case 2:
				return w.Write(xw.Comment{Content: "c"})
			case 3:
				return w.EndElem(num(i - 2))
			}
			return w.Write(xw.Elem{Name: "!"})
		})
	}
	every := []int{1, 7, n + 2}[sym.Choice(3)]
	compareRuns(calls, []int{16, 33, 4096}[sym.Choice(3)], func(i int) bool { return i%every == every-1 })
}

var _ = reg("C11_counts", C11_counts)

// C12_counts: indentation of many children and of deep nesting.
// Bound: 15 counts from 16 to 300 (thorough: 26 up to 600) of child elements by calls or by Content; of levels,
// with or without siblings; of children that are not elements before one that is; of declarations.
func C12_counts() {
	p := &script{}
	n := count()
	kind := sym.Choice(5)
	p.start(xw.Elem{Name: "r"})
	last := letter()
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			p.write(xw.Elem{Name: num(i)})
		}
		p.write(xw.Elem{Name: last})
	case 1:
		e := xw.Elem{Name: last}
		for i := 0; i < n; i++ {
			e.Content = append(e.Content, xw.Elem{Name: num(i)})
		}
		p.write(e)
	case 2:
		sib := sym.Choice(2) == 1
		for i := 0; i < n; i++ {
			p.start(xw.Elem{Name: num(i)})
			if sib {
				p.write(xw.Elem{Name: "s"})
			}
		}
		p.write(xw.Elem{Name: last})
		for p.m.depth() > 0 {
			p.endAny()
		}
	case 3:
		for i := 0; i < n; i++ {
			p.write([]xw.Writable{xw.Text("x"), xw.Comment{Content: "c"}, xw.CData{}, xw.PI{Target: "p"}}[i%4])
		}
		p.write(xw.Elem{Name: last})
	case 4:
		p.m, p.calls = model{}, nil
		p.start(xw.DTD{Name: "d"})
		p.start(xw.DTDAttList{Name: last})
		for i := 0; i < n; i++ {
			p.write(xw.DTDAttr{Name: num(i), Type: xw.DTDAttrString})
		}
		p.endAny()
		for i := 0; i < n; i++ {
			p.write(xw.DTDElem{Name: num(i), Decl: xw.DTDElemEmpty})
		}
		p.endAny()
	}
	var a, b sink
	wa := xw.Open(&a)
	wb := xw.Open(&b, xw.WithIndent())
	p.play(wa)
	p.play(wb)
	ok(wa.EndAllFlush(), "EndAllFlush")
	ok(wb.EndAllFlush(), "EndAllFlush")
	checkIndent(a.b, b.b, "\n", " ")
	checkLines(a.b, b.b)
}

var _ = reg("C12_counts", C12_counts)

// C13_counts: many prefixes on an element, and many elements with prefixes.
// Bound: 15 counts from 16 to 300 (thorough: 26 up to 600) of attributes with different prefixes, or the same one; of
// nested or adjacent elements with the same prefix; then a repeated prefix with a symbolic URI.
func C13_counts() {
	n := count()
	var out sink
	w := xw.Open(&out)
	m := &nsElem{}
	u := letter()
	switch kind := sym.Choice(4); kind {
	case 0, 1:
		ok(w.Start(xw.Elem{Name: "e"}), "Start")
		var kvs []kv
		for i := 0; i < n; i++ {
			a := xw.Attr{Prefix: "q", URI: "u", Name: num(i)}
			if kind == 0 {
				a.Prefix, a.URI = "q"+num(i), "u"+num(i)
			}
			m.use(a.Prefix, a.URI)
			ok(w.WriteAttr(a), "WriteAttr")
			kvs = append(kvs, kv{a.Prefix + ":" + a.Name, ""})
		}
		again := xw.Attr{Prefix: "q", URI: u, Name: "again"}
		if kind == 0 {
			again.Prefix = "q" + num([]int{0, 1, n / 2, n - 1}[sym.Choice(4)])
		}
		err := w.WriteAttr(again)
		good := m.use(again.Prefix, again.URI)
		sym.Assert((err == nil) == good, "a prefix bound to two URIs is accepted, or a good one refused")
		if good {
			kvs = append(kvs, kv{again.Prefix + ":again", ""})
		}
		ok(w.EndAllFlush(), "EndAllFlush")
		nsCheck(&out, []*nsElem{m}, [][]kv{kvs})
	case 2, 3:
		var ms []*nsElem
		var kvs [][]kv
		if kind == 3 {
			ok(w.Start(xw.Elem{Name: "r"}), "Start")
			ms, kvs = append(ms, &nsElem{}), append(kvs, nil)
		}
		for i := 0; i < n; i++ {
			e := &nsElem{}
			uri := "u" + num(i%7)
			if i == n-1 {
				uri = u
			}
			e.use("p", uri)
			ok(w.Start(xw.Elem{Prefix: "p", URI: uri, Name: "e"}), "Start")
			if kind == 3 {
				ok(w.EndElem(), "EndElem")
			}
			ms, kvs = append(ms, e), append(kvs, nil)
		}
		ok(w.EndAllFlush(), "EndAllFlush")
		nsCheck(&out, ms, kvs)
	}
}

var _ = reg("C13_counts", C13_counts)

// C14_counts: one call with many nodes does what as many calls do.
// Bound: 15 counts from 16 to 300 (thorough: 26 up to 600) of nodes given to one Write, Start, WriteAttr or Block,
// or as Attrs, Content or the definitions of an attribute list; with and without indenter.
func C14_counts() {
	a, b, wa, wb := twoWriters(sym.Choice(2) == 1)
	n := count()
	last := letter()
	name := func(i int) string {
		if i == n-1 {
			return last
		}
		return num(i)
	}
	var nodes []xw.Writable
	e := xw.Elem{Name: "e"}
	switch sym.Choice(6) {
	case 0, 1:
		for i := 0; i < n; i++ {
			nodes = append(nodes, []xw.Writable{xw.Elem{Name: name(i)}, xw.Text(name(i)), xw.Comment{Content: name(i)}}[i%3])
		}
		ok(wa.Start(e), "Start")
		for _, x := range nodes {
			ok(wa.Write(x), "Write")
		}
		ok(wa.EndElem(), "EndElem")
		switch sym.Choice(3) {
		case 0:
			ok(wb.Block(e, nodes...), "Block")
		case 1:
			ok(wb.Start(e), "Start")
			ok(wb.Write(nodes...), "Write")
			ok(wb.EndElem(), "EndElem")
		case 2:
			e.Content = nodes
			ok(wb.Write(e), "Write")
		}
	case 2:
		var s []xw.Startable
		for i := 0; i < n; i++ {
			s = append(s, xw.Elem{Name: name(i)})
			ok(wa.Start(s[i]), "Start")
		}
		ok(wb.Start(s...), "Start")
	case 3:
		for i := 0; i < n; i++ {
			e.Attrs = append(e.Attrs, xw.Attr{Name: num(i), Value: name(i)})
			nodes = append(nodes, e.Attrs[i])
		}
		ok(wa.Start(xw.Elem{Name: "e"}), "Start")
		for _, x := range nodes {
			ok(wa.Write(x), "Write")
		}
		ok(wa.EndElem(), "EndElem")
		switch sym.Choice(3) {
		case 0:
			ok(wb.Write(e), "Write")
		case 1:
			ok(wb.Start(xw.Elem{Name: "e"}), "Start")
			ok(wb.WriteAttr(e.Attrs...), "WriteAttr")
			ok(wb.EndElem(), "EndElem")
		case 2:
			ok(wb.Block(xw.Elem{Name: "e"}, nodes...), "Block")
		}
	case 4, 5:
		l := xw.DTDAttList{Name: "l"}
		for i := 0; i < n; i++ {
			l.Attrs = append(l.Attrs, xw.DTDAttr{Name: num(i), Type: xw.DTDAttrString, Value: name(i)})
			nodes = append(nodes, l.Attrs[i])
		}
		ok(wa.Start(xw.DTD{Name: "d"}), "Start")
		ok(wa.Start(xw.DTDAttList{Name: "l"}), "Start")
		for _, x := range nodes {
			ok(wa.Write(x), "Write")
		}
		ok(wa.EndDTDAttList(), "EndDTDAttList")
		ok(wa.EndDTD(), "EndDTD")
		if sym.Choice(2) == 0 {
			ok(wb.Block(xw.DTD{Name: "d"}, l), "Block")
		} else {
			ok(wb.Start(xw.DTD{Name: "d"}), "Start")
			ok(wb.Block(xw.DTDAttList{Name: "l"}, nodes...), "Block")
			ok(wb.EndDTD(), "EndDTD")
		}
	}
	sameOutput(a, b, wa, wb)
}

var _ = reg("C14_counts", C14_counts)

// C20_counts: many declarations and many definitions.
// Bound: 15 counts from 16 to 300 (thorough: 26 up to 600) of declarations of 5 kinds in a DTD, or of definitions in
// a list, given with it or written; a symbolic letter in the last one; with and without indenter.
func C20_counts() {
	t := open(indents(sym.Choice(2))()...)
	n := count()
	last := letter()
	t.start(xw.DTD{Name: "d"})
	name := func(i int) string {
		if i == n-1 {
			return last
		}
		return num(i)
	}
	if sym.Choice(2) == 0 {
		mix := sym.Choice(2)
		for i := 0; i < n; i++ {
			k := 0
			if mix == 1 {
				k = i % 5
			}
			t.write([]xw.Writable{
				xw.DTDElem{Name: name(i), Decl: xw.DTDElemAny},
				xw.DTDEntity{Name: name(i), Content: "v"},
				xw.Notation{Name: name(i), SystemID: "s"},
				xw.Comment{Content: name(i)},
				xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: name(i), Type: xw.DTDAttrID}}},
			}[k])
		}
	} else {
		l := xw.DTDAttList{Name: "l"}
		k := []int{0, n / 2, n}[sym.Choice(3)]
		for i := 0; i < n; i++ {
			l.Attrs = append(l.Attrs, xw.DTDAttr{Name: name(i), Type: xw.DTDAttrString, Default: xw.DTDAttrDefault, Value: num(i)})
		}
		all := l.Attrs
		l.Attrs = all[:k:k]
		t.start(l)
		for _, d := range all[k:] {
			t.write(d)
		}
		t.end()
	}
	sym.Cover("many")
	t.finish()
}

var _ = reg("C20_counts", C20_counts)

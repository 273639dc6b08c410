package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// scanner walks over markup and knows how deep it is in elements, DTDs and attribute lists.
type scanner struct {
	b     []byte
	i     int
	level int
	dtd   bool // inside a DOCTYPE
	list  bool // inside an ATTLIST
}

func (s *scanner) has(p string) bool {
	return s.i+len(p) <= len(s.b) && string(s.b[s.i:s.i+len(p)]) == p
}

// to moves behind the next p.
func (s *scanner) to(p string) {
	for s.i < len(s.b) && !s.has(p) {
		s.i++
	}
	s.i += len(p)
}

// tag moves to the next byte out of stop which is not quoted.
func (s *scanner) tag(stop string) {
	q := byte(0)
	for ; s.i < len(s.b); s.i++ {
		c := s.b[s.i]
		if q != 0 {
			if c == q {
				q = 0
			}
			continue
		}
		if c == '"' || c == '\'' {
			q = c
			continue
		}
		for j := 0; j < len(stop); j++ {
			if c == stop[j] {
				return
			}
		}
	}
}

// step moves over one piece of markup or one byte of anything else. It returns what white space
// before it would be next to: 't' for text, 'c' for CDATA, 0 for markup.
func (s *scanner) step() byte {
	switch {
	case s.list:
		if s.has(">") {
			s.i++
			s.list = false
			s.level--
			return 0
		}
		// one attribute definition: name, type, default
		s.i++
		s.tag(" ")
		s.i++
		s.tag(" ")
		s.i++
		if s.has("#FIXED ") {
			s.i += len("#FIXED ")
		}
		s.tag(" >")
		return 0
	case s.has("<!--"):
		s.to("-->")
	case s.has("<![CDATA["):
		s.to("]]>")
		return 'c'
	case s.has("<?"):
		s.to("?>")
	case s.has("<!DOCTYPE"):
		s.tag("[>")
		s.dtd = true
		s.level++
		if s.has("[") {
			s.i++
		}
	case s.dtd && (s.has("]>") || s.has(">")):
		s.to(">")
		s.dtd = false
		s.level--
	case s.has("<!ATTLIST "):
		s.i += len("<!ATTLIST ")
		s.tag(" >")
		s.list = true
		s.level++
	case s.has("<!"):
		s.tag(">")
		s.i++
	case s.has("</"):
		s.to(">")
		s.level--
	case s.has("<"):
		s.tag(">")
		if s.b[s.i-1] != '/' {
			s.level++
		}
		s.i++
	default:
		s.i++
		return 't'
	}
	return 0
}

// closer: the next piece of markup closes the level it is in.
func (s *scanner) closer() bool {
	return s.has("</") || s.list && s.has(">") || !s.list && s.dtd && (s.has("]>") || s.has(">"))
}

// checkIndent compares plain output with the indented output of the same calls.
func checkIndent(plain, ind []byte, nl, unit string) {
	sym.Observe("plain", plain)
	sym.Observe("indented", ind)
	s := &scanner{b: plain}
	j := 0
	prev := byte(0)
	for {
		// before the next piece of markup there may be an insertion
		start := s.i
		level := s.level
		top := level == 0
		if s.closer() {
			level--
		}
		kind := byte(0)
		end := start
		if s.i < len(plain) {
			kind = s.step()
			end = s.i
			if end > len(plain) {
				end = len(plain)
			}
		}
		piece := plain[start:end]
		if top {
			kind = 0 // outside every element white space does not matter
		}
		if !(len(ind) >= j+len(piece) && string(ind[j:j+len(piece)]) == string(piece) && (len(piece) > 0 || j == len(ind))) {
			sym.Assert(len(ind) >= j+len(nl) && string(ind[j:j+len(nl)]) == nl, "something other than white space was inserted, or in the wrong place")
			sym.Assert(prev == 0 && kind == 0, "white space was inserted next to text")
			j += len(nl)
			for k := 0; k < level; k++ {
				sym.Assert(len(ind) >= j+len(unit) && string(ind[j:j+len(unit)]) == unit, "the indentation is not the depth")
				j += len(unit)
			}
			sym.Assert(len(ind) >= j+len(piece) && string(ind[j:j+len(piece)]) == string(piece), "the indentation is not the depth")
			sym.Cover("indented")
		}
		sym.Assert(len(ind) >= j+len(piece) && string(ind[j:j+len(piece)]) == string(piece), "indenting changed the markup")
		j += len(piece)
		prev = kind
		if start >= len(plain) {
			break
		}
	}
	sym.Assert(j == len(ind), "something was added at the end")
}

// checkLines: in an element that contains only elements every child and the end tag have a line of
// their own.
func checkLines(plain, ind []byte) {
	pe, m1 := read(plain)
	ie, m2 := read(ind)
	sym.Assert(m1 == "" && m2 == "", "output is not well-formed")
	// the same nodes, but for white space
	var a, b []ev
	for _, e := range pe {
		if e.k != evText || !blank(e.val) {
			a = append(a, e)
		}
	}
	for _, e := range ie {
		if e.k != evText || !blank(e.val) {
			b = append(b, e)
		}
	}
	sym.Assert(sameEvs(a, b), "indenting changed the nodes")
	// which elements have only elements
	only := make([]int, len(pe)) // 0 nothing, 1 elements, 2 something else
	var st []int
	for i, e := range pe {
		switch e.k {
		case evStart:
			if len(st) > 0 && only[st[len(st)-1]] == 0 {
				only[st[len(st)-1]] = 1
			}
			st = append(st, i)
		case evEnd:
			st = st[:len(st)-1]
		default:
			if len(st) > 0 {
				only[st[len(st)-1]] = 2
			}
		}
	}
	// walk the indented output and look at those
	st = nil
	n := 0
	space := false
	for _, e := range ie {
		if e.k == evText && blank(e.val) {
			space = true
			continue
		}
		for pe[n].k == evText && blank(pe[n].val) {
			n++
		}
		switch e.k {
		case evStart:
			if len(st) > 0 && only[st[len(st)-1]] == 1 {
				sym.Assert(space, "a child element is not on its own line")
			}
			st = append(st, n)
		case evEnd:
			if only[st[len(st)-1]] == 1 {
				sym.Assert(space, "an end tag is not on its own line")
				sym.Cover("lines")
			}
			st = st[:len(st)-1]
		}
		space = false
		n++
	}
}

var indentStrings = []string{" ", "\t", "  \t", ""}

func indentRun(p *script) {
	nl := []string{"\n", "\r\n"}[sym.Choice(2)]
	unit := indentStrings[sym.Choice(len(indentStrings))]
	setNL := func(w *xw.Writer) { w.NewlineString = nl }
	var a, b sink
	wa := xw.Open(&a, setNL)
	opt := xw.WithIndentString(unit)
	if unit == " " && sym.Choice(2) == 0 {
		opt = xw.WithIndent()
	}
	wb := xw.Open(&b, setNL, opt)
	p.play(wa)
	p.play(wb)
	sym.Assert(wa.Depth() == wb.Depth(), "indenting changed the depth")
	ok(wa.EndAllFlush(), "EndAllFlush")
	ok(wb.EndAllFlush(), "EndAllFlush")
	checkIndent(a.b, b.b, nl, unit)
	if !p.m.bare {
		checkLines(a.b, b.b)
	}
}

// C12_docs: indenting inserts white space only between markup, as deep as it is nested.
// Bound: 5 documents with every kind of node, and 2 (thorough: 3) arbitrary valid calls out of 49 in each of 18
// places; newline LF or CR LF, 4 indent strings.
func C12_docs() {
	p := &script{}
	if sym.Choice(2) == 0 {
		p.doc(sym.Choice(docs - 1))
	} else {
		p.place(sym.Choice(places))
		for i := 0; i < 2+sym.Tier(); i++ {
			p.any(string([]byte{'x' + byte(i)}), true)
		}
		if p.m.bare {
			sym.Stop() // pieces of markup on their own
		}
	}
	sym.Cover("history")
	indentRun(p)
}

// C12_tree: any mixture of elements, text, comments, CDATA, PIs and ends.
// Bound: 5 (thorough: 6) arbitrary calls out of 7 inside an element, itself 0 or 7 deep; one newline and
// indent string.
func C12_tree() {
	p := &script{}
	for i, n := 0, []int{0, 7}[sym.Choice(2)]; i < n; i++ {
		p.start(xw.Elem{Name: letter()})
	}
	p.start(xw.Elem{Name: "r"})
	for i, n := 0, 5+sym.Tier(); i < n; i++ {
		switch sym.Choice(7) {
		case 0:
			p.start(xw.Elem{Name: letter(), Attrs: []xw.Attr{{Name: "a", Value: mark()}}})
		case 1:
			p.write(xw.Elem{Name: letter()})
		case 2:
			p.write(xw.Text(mark()))
		case 3:
			p.write(xw.Comment{Content: mark()})
		case 4:
			p.write(xw.CData{Content: mark()})
		case 5:
			p.write(xw.PI{Target: "p", Content: mark()})
		case 6:
			if p.m.depth() < 1 {
				sym.Stop()
			}
			p.endAny()
		}
	}
	var a, b sink
	wa := xw.Open(&a)
	wb := xw.Open(&b, xw.WithIndentString("\t"))
	p.play(wa)
	p.play(wb)
	ok(wa.EndAllFlush(), "EndAllFlush")
	ok(wb.EndAllFlush(), "EndAllFlush")
	checkIndent(a.b, b.b, "\n", "\t")
	checkLines(a.b, b.b)
}

// C12_blank: text of white space only is text too, and so are the empty and the odd nodes.
// Bound: 4 (thorough: 5) arbitrary calls out of 10 inside an element: text of one symbolic white-space
// character, empty text, CDATA sections and comments, elements, text, Next and ends; indented by a tab.
func C12_blank() {
	p := &script{}
	p.start(xw.Elem{Name: "r"})
	lines := true
	for i, n := 0, 4+sym.Tier(); i < n; i++ {
		switch sym.Choice(10) {
		case 0:
			s := sym.StringN(1)
			sym.Assume(s[0] == ' ' || s[0] == '\t' || s[0] == '\n')
			p.write(xw.Text(s))
		case 1:
			lines = false
			p.write(xw.Text(""))
		case 2:
			p.write(xw.CData{})
			lines = false
		case 3:
			p.write(xw.Comment{})
		case 4:
			p.start(xw.Elem{Name: letter()})
		case 5:
			p.write(xw.Elem{Name: letter()})
		case 6:
			p.write(xw.Text(mark()))
		case 7:
			p.write(xw.CData{Content: mark()})
		case 8:
			p.next()
			lines = false
		case 9:
			if p.m.depth() < 1 {
				sym.Stop()
			}
			p.endAny()
		}
	}
	var a, b sink
	wa := xw.Open(&a)
	wb := xw.Open(&b, xw.WithIndentString("\t"))
	p.play(wa)
	p.play(wb)
	ok(wa.EndAllFlush(), "EndAllFlush")
	ok(wb.EndAllFlush(), "EndAllFlush")
	checkIndent(a.b, b.b, "\n", "\t")
	if lines {
		checkLines(a.b, b.b)
	}
	sym.Cover("blank")
}

var _ = reg("C12_blank", C12_blank)

// C12_content: the same for elements which get their children as Content.
// Bound: up to 3 children of 7 kinds, in an element with or without attributes, written at once or
// started and given another child, 0 or 7 levels deep, after text, an element or nothing.
func C12_content() {
	p := &script{}
	for i, n := 0, []int{0, 7}[sym.Choice(2)]; i < n; i++ {
		p.start(xw.Elem{Name: letter()})
	}
	p.start(xw.Elem{Name: "r"})
	switch sym.Choice(3) {
	case 1:
		p.write(xw.Text(mark()))
	case 2:
		p.write(xw.Elem{Name: letter()})
	}
	e := xw.Elem{Name: "c"}
	if sym.Choice(2) == 1 {
		e.Attrs = []xw.Attr{{Name: "k", Value: mark()}}
	}
	for i, n := 0, 1+sym.Choice(3); i < n; i++ {
		e.Content = append(e.Content, child([]int{0, 1, 2, 3, 4, 5, 7}[sym.Choice(7)]))
	}
	switch sym.Choice(3) {
	case 0:
		p.write(e)
	case 1:
		p.start(e)
		p.m.top().opened = true
		p.m.content(e)
		p.endAny()
	case 2:
		p.start(e)
		p.m.child()
		p.m.content(e)
		p.write(xw.Elem{Name: letter()})
		p.endAny()
	}
	p.write(xw.Elem{Name: letter()})
	var a, b sink
	wa := xw.Open(&a)
	wb := xw.Open(&b, xw.WithIndentString("\t"))
	p.play(wa)
	p.play(wb)
	ok(wa.EndAllFlush(), "EndAllFlush")
	ok(wb.EndAllFlush(), "EndAllFlush")
	checkIndent(a.b, b.b, "\n", "\t")
	checkLines(a.b, b.b)
}

var _ = reg("C12_content", C12_content)

// C12_deep: the indentation keeps up with the nesting.
// Bound: 0-30 (thorough: 0-60) nested elements, each with a sibling before, after, both or none
// and with text, an element or nothing in the innermost.
func C12_deep() {
	p := &script{}
	n := sym.Choice(31 + 30*sym.Tier())
	sib := sym.Choice(4)
	in := sym.Choice(3)
	p.start(xw.Elem{Name: "r"})
	for i := 0; i < n; i++ {
		if sib&1 != 0 {
			p.write(xw.Elem{Name: "s"})
		}
		p.start(xw.Elem{Name: letter()})
	}
	switch in {
	case 1:
		p.write(xw.Text(mark()))
	case 2:
		p.write(xw.Elem{Name: letter()})
	}
	for i := 0; i < n; i++ {
		p.endAny()
		if sib&2 != 0 {
			p.write(xw.Elem{Name: "s"})
		}
	}
	var a, b sink
	wa := xw.Open(&a)
	wb := xw.Open(&b, xw.WithIndent())
	p.play(wa)
	p.play(wb)
	ok(wa.EndAllFlush(), "EndAllFlush")
	ok(wb.EndAllFlush(), "EndAllFlush")
	checkIndent(a.b, b.b, "\n", " ")
	checkLines(a.b, b.b)
}

var _ = reg("C12_docs", C12_docs)
var _ = reg("C12_tree", C12_tree)
var _ = reg("C12_deep", C12_deep)

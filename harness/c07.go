package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// letter is an arbitrary lower-case letter.
func letter() string {
	c := sym.Byte()
	sym.Assume(c >= 'a' && c <= 'z')
	return string([]byte{c})
}

// mark is an arbitrary visible character that has no meaning in content of any kind: not markup, a
// quote or part of a delimiter (those are for C01, C02, C05 and C06).
func mark() string {
	c := sym.Byte()
	sym.Assume(c > ' ' && c < 0x7F && c != '<' && c != '>' && c != '&' && c != '"' && c != '\'' && c != '-' && c != ']' && c != '?' && c != '\\' && c != '{' && c != '|' && c != '}')
	return string([]byte{c})
}

// contentStep performs one arbitrary call that is valid where the writer is. It reports false when no
// such call was chosen.
func (t *tw) contentStep(op int) bool {
	m := &t.m
	switch m.cur() {
	case xw.ElemNode, xw.NoNode, xw.DocNode:
	case xw.CommentNode:
		switch op {
		case 0:
			t.write(xw.CommentContent(mark()))
		case 1:
			t.write(xw.CommentContent(""))
		case 2:
			t.end()
		default:
			return false
		}
		return true
	case xw.CDataNode:
		switch op {
		case 0:
			t.write(xw.CDataContent(mark() + "<"))
		case 1:
			t.write(xw.CDataContent(""))
		case 2:
			t.end()
		default:
			return false
		}
		return true
	default:
		return false
	}
	inElem := m.cur() == xw.ElemNode
	switch op {
	case 0:
		t.start(xw.Elem{Name: letter()})
	case 1:
		t.start(xw.Elem{Name: "b", Attrs: []xw.Attr{{Name: "k" + letter(), Value: mark()}, {Name: "l"}}})
	case 2:
		t.write(xw.Elem{Name: "e"})
	case 3:
		t.write(xw.Elem{Name: "f", Attrs: []xw.Attr{{Name: "k", Value: "&"}}, Content: []xw.Writable{xw.Text("x"), xw.Elem{Name: "g", Content: []xw.Writable{xw.Elem{Name: "h"}}}, xw.Comment{Content: "c"}, xw.CData{Content: "d"}}})
	case 4:
		t.start(xw.Comment{})
	case 5:
		t.start(xw.Comment{Content: "s"})
	case 6:
		t.write(xw.Comment{Content: "w"})
	case 7:
		t.write(xw.PI{Target: letter(), Content: mark()})
	case 8:
		if m.top() == nil {
			return false
		}
		t.end()
	case 9:
		t.write(xw.Elem{Name: "full", Full: true})
	case 10:
		if !inElem {
			return false
		}
		t.write(xw.Text("t<&" + mark()))
	case 11:
		if !inElem {
			return false
		}
		t.write(xw.Text(""))
	case 12:
		if !inElem || m.top().opened {
			return false
		}
		t.write(xw.Attr{Name: "w" + string(rune('0'+len(m.evs[m.top().ev].attrs))), Value: "1"})
	case 13:
		if !inElem {
			return false
		}
		t.start(xw.CData{})
	case 14:
		if !inElem {
			return false
		}
		t.start(xw.CData{Content: "s"})
	case 15:
		if !inElem {
			return false
		}
		t.write(xw.CData{Content: "w"})
	case 16:
		if !inElem {
			return false
		}
		ok(t.w.EndElemFull(), "EndElemFull")
		m.top().full = true
		m.pop()
		sym.Assert(t.w.Depth() == m.depth(), "depth after EndElemFull")
	case 17:
		if !inElem {
			return false
		}
		ok(t.w.Next(), "Next")
		m.child()
	}
	return true
}

const contentOps = 18

// C07_history: any sequence of valid calls for content reads back as the tree it describes.
// Bound: 3 (thorough: 4) arbitrary calls out of 18 kinds, started inside 0, 1, 6, 7 or 8 open
// elements (the stack is reallocated at 8), and 4 inside 0 and 7; a symbolic letter in each name and content.
func C07_history() {
	t := open()
	pre := []int{0, 1, 6, 7, 8}[sym.Choice(5)]
	for i := 0; i < pre; i++ {
		t.start(xw.Elem{Name: "r"})
	}
	n := 3 + sym.Tier()
	if pre == 0 || pre == 7 {
		n = 4
	}
	for i := 0; i < n; i++ {
		if !t.contentStep(sym.Choice(contentOps)) {
			sym.Stop()
		}
	}
	sym.Cover("history")
	t.finish()
}

// C07_attrs: every attribute is on its own element however many there are, and wherever they are given.
// Bound: up to 20 (thorough: 40) attributes, the first k in Elem.Attrs (every k) and the rest with
// WriteAttr in one call or one call each; before and after a sibling and a parent which have other
// attributes; a symbolic letter in each value.
func C07_attrs() {
	t := open()
	t.start(xw.Elem{Name: "p", Attrs: []xw.Attr{{Name: "pa", Value: "pv"}}})
	t.write(xw.Elem{Name: "s", Attrs: []xw.Attr{{Name: "sa", Value: "sv"}}})
	n := sym.Choice(21 + 20*sym.Tier())
	k := sym.Choice(n + 1)
	var attrs []xw.Attr
	for i := 0; i < n; i++ {
		attrs = append(attrs, xw.Attr{Name: "a" + string(rune('a'+i%26)) + string(rune('a'+i/26)), Value: mark()})
	}
	t.start(xw.Elem{Name: "e", Attrs: attrs[:k]})
	if sym.Choice(2) == 0 {
		ok(t.w.WriteAttr(attrs[k:]...), "WriteAttr")
		for _, a := range attrs[k:] {
			t.m.write(a)
		}
	} else {
		for _, a := range attrs[k:] {
			t.write(a)
		}
	}
	if sym.Choice(2) == 0 {
		t.write(xw.Text(mark()))
	}
	t.end()
	t.write(xw.Elem{Name: "s", Attrs: []xw.Attr{{Name: "sa", Value: "sv"}}})
	sym.Cover("attrs")
	t.finish()
}

// child is one of the nodes an element's Content may hold.
func child(i int) xw.Writable {
	switch i {
	case 0:
		return xw.Text(mark() + "&")
	case 1:
		return xw.Elem{Name: letter()}
	case 2:
		return xw.Elem{Name: "q", Full: true, Attrs: []xw.Attr{{Name: "r", Value: mark()}}}
	case 3:
		return xw.Comment{Content: mark()}
	case 4:
		return xw.CData{Content: mark() + "]]"}
	case 5:
		return xw.Elem{Name: "n", Content: []xw.Writable{xw.Comment{}, xw.Elem{Name: "o", Content: []xw.Writable{xw.Text(mark())}}, xw.Text("")}}
	case 6:
		return xw.Text("")
	default:
		return xw.Comment{}
	}
}

// C07_content: Content is written as the children of its element, in order.
// Bound: up to 3 (thorough: 4) children of 8 kinds each, in an element which is started, gets up to
// one more child by a call, and is ended in one of three ways; 0, 6 or 7 levels deep.
func C07_content() {
	t := open()
	for i, n := 0, []int{0, 6, 7}[sym.Choice(3)]; i < n; i++ {
		t.start(xw.Elem{Name: "r"})
	}
	e := xw.Elem{Name: "c", Full: sym.Choice(2) == 1}
	for i, n := 0, sym.Choice(4+sym.Tier()); i < n; i++ {
		e.Content = append(e.Content, child(sym.Choice(8)))
	}
	if sym.Choice(2) == 0 {
		t.write(e)
	} else {
		t.start(e)
		// an attribute still goes into the tag; the content comes when the tag is closed
		t.write(xw.Attr{Name: "late", Value: mark()})
		switch sym.Choice(3) {
		case 0:
			t.m.content(e)
			t.end()
		case 1:
			ok(t.w.Next(), "Next")
			t.m.child()
			t.m.content(e)
			t.write(xw.Text("after"))
			t.end()
		case 2:
			ok(t.w.Write(xw.Elem{Name: "after"}), "Write")
			t.m.child()
			t.m.content(e)
			t.m.write(xw.Elem{Name: "after"})
			t.end()
		}
	}
	t.write(xw.Elem{Name: "sibling"})
	sym.Cover("content")
	t.finish()
}

// C07_deep: nesting by Start, by Content and by both, however deep.
// Bound: 0-40 (thorough: 0-100) started elements, and in them 0-20 elements nested through Content,
// with text before or after the nested one; then a sibling at each level on the way out.
func C07_deep() {
	t := open()
	n := sym.Choice(41 + 60*sym.Tier())
	k := sym.Choice(21)
	if sym.Tier() == 0 && n > 18 && k > 3 {
		sym.Stop()
	}
	name := letter()
	for i := 0; i < n; i++ {
		t.start(xw.Elem{Name: name + string(rune('a'+i%26))})
	}
	var in xw.Writable = xw.Text("bottom" + mark())
	side := sym.Choice(3)
	for i := 0; i < k; i++ {
		e := xw.Elem{Name: "c" + string(rune('a'+i%26))}
		switch side {
		case 0:
			e.Content = []xw.Writable{in}
		case 1:
			e.Content = []xw.Writable{xw.Text("t"), in}
		case 2:
			e.Content = []xw.Writable{in, xw.CData{Content: "t"}}
		}
		in = e
	}
	if n == 0 && k == 0 {
		sym.Stop()
	}
	t.write(in)
	for t.m.depth() >= 0 {
		t.end()
		if t.m.depth() >= 0 {
			t.write(xw.Elem{Name: "s"})
		}
	}
	sym.Cover("deep")
	t.finish()
}

var _ = reg("C07_history", C07_history)
var _ = reg("C07_attrs", C07_attrs)
var _ = reg("C07_content", C07_content)
var _ = reg("C07_deep", C07_deep)

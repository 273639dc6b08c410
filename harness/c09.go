package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// try gives the node to the writer, which must accept it if and only if its place is allowed.
func (p *pair) try(c carrier) {
	m := &p.m
	want := allowed(c.kind, m.cur())
	if c.kind == xw.AttrNode && m.top() != nil && m.top().opened {
		want = false
	}
	if want {
		ok(c.call(p.w), "a node in its place")
		ok(c.call(p.twin.w), "a node in its place")
		m.carried(c)
		sym.Cover("accepted")
		sym.Assert(p.w.Depth() == m.depth(), "depth after an accepted node")
		return
	}
	ok(p.w.Flush(), "Flush")
	n := len(p.out.b)
	p.refused(c.call, "a node out of its place")
	ok(p.w.Flush(), "Flush")
	sym.Assert(len(p.out.b) == n, "a refused node wrote something")
	sym.Cover("refused")
}

// C09_matrix: every kind of node by every API against every parent.
// Bound: 18 stacks of open nodes, then 1 arbitrary node by 46 APIs (16 kinds), another 1 of them,
// and the rest ended; with and without an indenter; names and content symbolic.
func C09_matrix() {
	var p *pair
	indent := sym.Choice(2) == 1
	if indent {
		p = &pair{open(xw.WithIndent()), open(xw.WithIndent())}
		p.m.bare = true
	} else {
		p = newPair()
	}
	p.script(func(s *script) { s.place(sym.Choice(places)) })
	p.try(carry(sym.Choice(carriers), "x"))
	second := []int{0, 2, 4, 7, 9, 11, 14, 16, 19, 21, 24, 26, 28, 30, 33, 35, 38, 40, 42, 44}
	if sym.Tier() > 0 {
		p.try(carry(sym.Choice(carriers), "y"))
	} else {
		p.try(carry(second[sym.Choice(len(second))], "y"))
	}
	p.probe()
	p.compare()
}

// C09_deep: the place is the innermost open node however deep it is.
// Bound: 0-20 (thorough: 0-40) open elements, possibly with a comment or CDATA section open in the
// last, then any node by 46 APIs, a child, and the same for the parent when the node has ended.
func C09_deep() {
	p := newPair()
	n := sym.Choice(21 + 20*sym.Tier())
	for i := 0; i < n; i++ {
		p.start(xw.Elem{Name: letter()})
	}
	if n > 0 {
		switch sym.Choice(4) {
		case 1:
			p.start(xw.Comment{})
		case 2:
			p.start(xw.CData{})
		case 3:
			p.write(xw.Text(mark()))
		}
	}
	c := carry(sym.Choice(carriers), "x")
	d := p.m.depth()
	p.try(c)
	p.probe()
	for p.m.depth() >= d && d >= 0 {
		p.same(func(w *xw.Writer) error { return w.EndAny() })
		p.m.pop()
	}
	if c.kind == xw.AttrNode {
		sym.Stop()
	}
	p.try(c)
	p.compare()
}

// C09_content: the place decides, not what is in the node.
// Bound: 18 stacks of open nodes, then a node of 9 kinds by 2 APIs with every content of up to 3 bytes
// (empty, white space and invalid ones too) in a place that does not allow it; and, in one that does,
// nodes with empty content.
func C09_content() {
	p := newPair()
	p.script(func(s *script) { s.place(sym.Choice(places)) })
	s := sym.String(3)
	kinds := [...]xw.Writable{xw.Text(s), xw.Comment{Content: s}, xw.CData{Content: s}, xw.CommentContent(s), xw.CDataContent(s),
		xw.PI{Target: "t", Content: s}, xw.Attr{Name: "x" + letter(), Value: s}, xw.Elem{Name: "n", Content: []xw.Writable{xw.Text(s)}},
		xw.DTDEntity{Name: "n", Content: s}, xw.DTDAttr{Name: "n", Type: "CDATA", Default: xw.DTDAttrDefault, Value: s}}
	names := [...]xw.NodeKind{xw.TextNode, xw.CommentNode, xw.CDataNode, xw.CommentContentNode, xw.CDataContentNode, xw.PINode, xw.AttrNode, xw.ElemNode, xw.DTDEntityNode, xw.DTDAttrNode}
	i := sym.Choice(len(kinds))
	n, kind := kinds[i], names[i]
	c := carrier{kind: kind, write: n, call: func(w *xw.Writer) error { return w.Write(n) }}
	if sym.Choice(2) == 1 {
		switch n := n.(type) {
		case xw.Text:
			c.call = func(w *xw.Writer) error { return w.WriteText(string(n)) }
		case xw.CommentContent:
			c.call = func(w *xw.Writer) error { return w.WriteCommentContent(string(n)) }
		case xw.CDataContent:
			c.call = func(w *xw.Writer) error { return w.WriteCDataContent(string(n)) }
		case xw.Startable:
			c.call = func(w *xw.Writer) error { return w.Start(n) }
		default:
			sym.Stop()
		}
	}
	if p.m.allows(kind) && s != "" {
		sym.Stop() // whether content is accepted is for other properties
	}
	if !p.m.allows(kind) {
		p.try(c)
		p.probe()
		p.compare()
		return
	}
	ok(c.call(p.w), "a node without content in its place")
	sym.Cover("empty")
}

// C09_after_error: an attribute is accepted exactly until the '>' of the start tag, also after calls
// that failed half way.
// Bound: an element with or without attributes, prefix and refused Content, 1-2 (thorough: 3) calls of 16 kinds of which most
// fail, then an attribute; with and without an indenter.
func C09_after_error() {
	var out sink
	w := xw.Open(&out)
	if sym.Choice(2) == 1 {
		w.Indenter = xw.NewStandardIndenter()
	}
	e := xw.Elem{Name: letter()}
	switch sym.Choice(4) {
	case 1:
		e.Attrs = []xw.Attr{{Name: "k", Value: mark()}}
	case 2:
		e.Prefix, e.URI = letter(), mark()
	case 3:
		e.Full = true
	}
	switch sym.Choice(5) {
	case 1:
		e.Content = []xw.Writable{xw.Text(mark())}
	case 2:
		e.Content = []xw.Writable{xw.Raw(mark())}
	case 3:
		e.Content = []xw.Writable{xw.Comment{Content: "--"}}
	case 4:
		e.Content = []xw.Writable{xw.Elem{Name: "1"}}
	}
	ok(w.Start(e), "element")
	for i, n := 0, 1+sym.Choice(2+sym.Tier()); i < n; i++ {
		var err error
		switch sym.Choice(16) {
		case 0:
			err = w.Next()
		case 1:
			err = w.EndElem()
		case 2:
			err = w.EndElem("0")
		case 3:
			err = w.Start(xw.Elem{Name: "1"})
		case 4:
			err = w.Write(xw.Elem{})
		case 5:
			err = w.Write(xw.Comment{Content: "--"})
		case 6:
			err = w.Start(xw.CData{Content: "]]>"})
		case 7:
			err = w.WriteAttr(xw.Attr{Name: "1"})
		case 8:
			err = w.WriteText(mark())
		case 9:
			err = w.WritePI(xw.PI{Target: "xml"})
		case 10:
			err = w.StartDTD(xw.DTD{Name: "d"})
		case 11:
			err = w.EndComment()
		case 12:
			err = w.WriteAttr(xw.Attr{Name: "x" + [...]string{"y", "z", "w"}[i], Value: mark()})
		case 13:
			err = w.WriteRaw(mark())
		case 14:
			err = w.EndToDepth(0, xw.ElemNode)
		case 15:
			err = w.WriteText("")
		}
		if err != nil {
			sym.Cover("failed")
		}
		if w.Depth() != 0 {
			sym.Stop() // ended, or a comment is open
		}
	}
	ok(w.Flush(), "Flush")
	closed := false
	for _, b := range out.b {
		if b == '>' {
			closed = true
		}
	}
	err := w.WriteAttr(xw.Attr{Name: "late", Value: mark()})
	if closed {
		sym.Assert(err != nil, "an attribute was accepted after the start tag had been closed")
		sym.Cover("late")
	} else {
		ok(err, "an attribute in a start tag")
		sym.Cover("in time")
	}
}

var _ = reg("C09_content", C09_content)
var _ = reg("C09_after_error", C09_after_error)
var _ = reg("C09_matrix", C09_matrix)
var _ = reg("C09_deep", C09_deep)

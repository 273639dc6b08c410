package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// tnode is a node of a document, independent of the style it is written in.
type tnode struct {
	kind  int // 0 element, 1 text, 2 comment, 3 CDATA, 4 PI
	s     string
	attrs []xw.Attr
	full  bool
	kids  []*tnode
}

// plain writes a node with single calls, which is the style to compare with.
func (t *tnode) plain(w *xw.Writer) {
	switch t.kind {
	case 0:
		ok(w.Start(xw.Elem{Name: t.s}), "Start")
		for _, a := range t.attrs {
			ok(w.Write(a), "Write")
		}
		for _, k := range t.kids {
			k.plain(w)
		}
		if t.full {
			ok(w.EndElemFull(), "EndElemFull")
		} else {
			ok(w.End(xw.ElemNode), "End")
		}
	case 1:
		ok(w.Write(xw.Text(t.s)), "Write")
	case 2:
		ok(w.Start(xw.Comment{}), "Start")
		ok(w.Write(xw.CommentContent(t.s)), "Write")
		ok(w.End(xw.CommentNode), "End")
	case 3:
		ok(w.Start(xw.CData{}), "Start")
		ok(w.Write(xw.CDataContent(t.s)), "Write")
		ok(w.End(xw.CDataNode), "End")
	case 4:
		ok(w.Write(xw.PI{Target: "p", Content: t.s}), "Write")
	}
}

// value is the node as one value with Attrs and Content.
func (t *tnode) value() xw.Writable {
	switch t.kind {
	case 0:
		e := t.elem()
		for _, k := range t.kids {
			e.Content = append(e.Content, k.value())
		}
		return e
	case 1:
		return xw.Text(t.s)
	case 2:
		return xw.Comment{Content: t.s}
	case 3:
		return xw.CData{Content: t.s}
	}
	return xw.PI{Target: "p", Content: t.s}
}

func (t *tnode) elem() xw.Elem {
	return xw.Elem{Name: t.s, Attrs: t.attrs, Full: t.full}
}

func (t *tnode) hasPI() bool {
	for _, k := range t.kids {
		if k.kind == 4 || k.hasPI() {
			return true
		}
	}
	return false
}

// styled writes a node in some other style.
func (t *tnode) styled(w *xw.Writer) {
	switch t.kind {
	case 0:
		t.styledElem(w)
	case 1:
		ok(w.WriteText(t.s), "WriteText")
	case 2:
		switch sym.Choice(8) {
		case 0:
			ok(w.WriteComment(xw.Comment{Content: t.s}), "WriteComment")
		case 1:
			ok(w.Write(xw.Comment{Content: t.s}), "Write")
		case 2:
			ok(w.Block(xw.Comment{Content: t.s}), "Block")
		case 3:
			ok(w.Block(xw.Comment{}, xw.CommentContent(t.s)), "Block")
		case 4:
			ok(w.StartComment(xw.Comment{Content: t.s}), "StartComment")
			ok(w.EndComment(), "EndComment")
		case 5:
			ok(w.StartComment(xw.Comment{Content: t.s[:len(t.s)/2]}), "StartComment")
			ok(w.WriteCommentContent(t.s[len(t.s)/2:]), "WriteCommentContent")
			ok(w.EndAny(), "EndAny")
		case 6:
			ok(w.Start(xw.Comment{}), "Start")
			ok(w.Next(), "Next")
			ok(w.Write(xw.CommentContent(t.s[:len(t.s)/2]), xw.CommentContent(t.s[len(t.s)/2:])), "Write")
			ok(w.End(xw.CommentNode), "End")
		case 7:
			d := w.Depth()
			ok(w.Start(xw.Comment{Content: t.s}), "Start")
			ok(w.EndToDepth(d, xw.CommentNode), "EndToDepth")
		}
	case 3:
		switch sym.Choice(8) {
		case 0:
			ok(w.WriteCData(xw.CData{Content: t.s}), "WriteCData")
		case 1:
			ok(w.Write(xw.CData{Content: t.s}), "Write")
		case 2:
			ok(w.Block(xw.CData{Content: t.s}), "Block")
		case 3:
			ok(w.Block(xw.CData{}, xw.CDataContent(t.s)), "Block")
		case 4:
			ok(w.StartCData(xw.CData{Content: t.s}), "StartCData")
			ok(w.EndCData(), "EndCData")
		case 5:
			ok(w.StartCData(xw.CData{Content: t.s[:len(t.s)/2]}), "StartCData")
			ok(w.WriteCDataContent(t.s[len(t.s)/2:]), "WriteCDataContent")
			ok(w.EndAny(), "EndAny")
		case 6:
			ok(w.Start(xw.CData{}), "Start")
			ok(w.Next(), "Next")
			ok(w.Write(xw.CDataContent(t.s[:len(t.s)/2]), xw.CDataContent(t.s[len(t.s)/2:])), "Write")
			ok(w.End(xw.CDataNode), "End")
		case 7:
			d := w.Depth()
			ok(w.Start(xw.CData{Content: t.s}), "Start")
			ok(w.EndToDepth(d, xw.CDataNode), "EndToDepth")
		}
	case 4:
		ok(w.WritePI(xw.PI{Target: "p", Content: t.s}), "WritePI")
	}
}

const elemStyles = 10

func (t *tnode) styledElem(w *xw.Writer) {
	e := t.elem()
	style := sym.Choice(elemStyles)
	if style < 4 && t.hasPI() {
		sym.Stop() // not supported in Content
	}
	if style == 4 || style == 5 {
		for _, k := range t.kids {
			if k.hasPI() {
				sym.Stop()
			}
		}
	}
	kids := func() {
		for _, k := range t.kids {
			k.styled(w)
		}
	}
	values := func() []xw.Writable {
		var v []xw.Writable
		for _, k := range t.kids {
			v = append(v, k.value())
		}
		return v
	}
	switch style {
	case 0: // one value
		ok(w.WriteElem(t.value().(xw.Elem)), "WriteElem")
	case 1:
		ok(w.Write(t.value()), "Write")
	case 2: // Content, but started and ended
		ok(w.StartElem(t.value().(xw.Elem)), "StartElem")
		ok(w.EndElem(t.s), "EndElem")
	case 3: // Content, Block and an attribute by itself
		e = t.value().(xw.Elem)
		e.Attrs = nil
		var n []xw.Writable
		for _, a := range t.attrs {
			n = append(n, a)
		}
		ok(w.Block(e, n...), "Block")
	case 4: // everything in a Block
		e.Attrs = nil
		var n []xw.Writable
		for _, a := range t.attrs {
			n = append(n, a)
		}
		ok(w.Block(e, append(n, values()...)...), "Block")
	case 5: // several nodes in one Write
		e.Attrs = nil
		ok(w.Start(e), "Start")
		ok(w.WriteAttr(t.attrs...), "WriteAttr")
		ok(w.Write(values()...), "Write")
		ok(w.EndAny(), "EndAny")
	case 6: // some attributes with the element
		if len(t.attrs) > 1 {
			e.Attrs = t.attrs[:1]
		}
		ok(w.StartElem(e), "StartElem")
		if len(t.attrs) > 1 {
			ok(w.WriteAttr(t.attrs[1:]...), "WriteAttr")
		}
		kids()
		ok(w.EndElem("", t.s), "EndElem")
	case 7: // full form asked for at the end
		e.Full = false
		ok(w.Start(e), "Start")
		kids()
		if t.full {
			ok(w.EndElemFull(t.s), "EndElemFull")
		} else {
			ok(w.End(xw.ElemNode, t.s), "End")
		}
	case 8: // ended by depth
		d := w.Depth()
		ok(w.Start(e), "Start")
		kids()
		ok(w.EndToDepth(d, xw.ElemNode, t.s), "EndToDepth")
	case 9: // the last child is left open
		d := w.Depth()
		ok(w.Start(e), "Start")
		for i, k := range t.kids {
			if i == len(t.kids)-1 && k.kind == 0 && !k.full {
				ok(w.Start(k.elem()), "Start")
				for _, g := range k.kids {
					g.styled(w)
				}
			} else {
				k.styled(w)
			}
		}
		ok(w.EndToDepth(d, xw.ElemNode), "EndToDepth")
	}
}

func tattrs(n int) []xw.Attr {
	var a []xw.Attr
	for i := 0; i < n; i++ {
		a = append(a, xw.Attr{Name: string([]byte{'a' + byte(i)}), Value: mark()})
	}
	return a
}

func twoWriters(indent bool) (a, b *sink, wa, wb *xw.Writer) {
	a, b = &sink{}, &sink{}
	if indent {
		return a, b, xw.Open(a, xw.WithIndent()), xw.Open(b, xw.WithIndent())
	}
	return a, b, xw.Open(a), xw.Open(b)
}

func sameOutput(a, b *sink, wa, wb *xw.Writer) {
	sym.Assert(wa.Depth() == wb.Depth(), "the depth depends on the style")
	ok(wa.EndAllFlush(), "EndAllFlush")
	ok(wb.EndAllFlush(), "EndAllFlush")
	sym.Observe("plain", a.b)
	sym.Observe("styled", b.b)
	sym.Assert(string(a.b) == string(b.b), "the output depends on the style")
	sym.Cover("compared")
}

// C14_tree: a tree of content is the same in every style.
// Bound: an element with up to 2 attributes and up to 2 children of 5 kinds, element children with up to
// one child themselves, 10 styles for each element, 8 for each comment and CDATA section, Full or not,
// 0 or 7 levels deep, with and without indenter (quick: some combinations of two children only with one attribute); names, values and content symbolic.
func C14_tree() {
	indent := sym.Choice(2) == 1
	a, b, wa, wb := twoWriters(indent)
	deep := 0
	if sym.Choice(2) == 1 {
		deep = 7
	}
	for i := 0; i < deep; i++ {
		ok(wa.Start(xw.Elem{Name: "r"}), "Start")
		ok(wb.Start(xw.Elem{Name: "r"}), "Start")
	}
	leaf := func(kind int) *tnode { return &tnode{kind: kind, s: letter() + letter()} }
	t := &tnode{s: letter(), attrs: tattrs(sym.Choice(3)), full: sym.Choice(2) == 1}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		k := leaf(sym.Choice(5))
		if k.kind == 0 {
			k.s = letter()
			if sym.Choice(2) == 1 {
				k.kids = []*tnode{leaf(1 + sym.Choice(4))}
			}
		}
		t.kids = append(t.kids, k)
		if sym.Tier() == 0 && i > 0 && (deep > 0 || indent || t.kids[0].kind == k.kind) && (len(t.attrs) != 1 || t.full) {
			sym.Stop()
		}
	}
	t.plain(wa)
	t.styled(wb)
	sameOutput(a, b, wa, wb)
}

// C14_empty: nodes with nothing in them are the same in every style, too.
// Bound: an element with up to 2 children of 4 kinds with 0 or 1 symbolic character each, an attribute with an empty value
// or none, 10 styles for the element, 8 for each comment and CDATA section, Full or not.
func C14_empty() {
	a, b, wa, wb := twoWriters(sym.Choice(2) == 1)
	t := &tnode{s: letter(), full: sym.Choice(2) == 1}
	if sym.Choice(2) == 1 {
		t.attrs = []xw.Attr{{Name: letter()}}
	}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		k := &tnode{kind: sym.Choice(4)}
		if k.kind == 0 {
			k.s = letter()
			if sym.Choice(2) == 1 {
				k.kids = []*tnode{{kind: 1}}
			}
		} else if sym.Choice(2) == 1 {
			k.s = mark()
		}
		t.kids = append(t.kids, k)
	}
	t.plain(wa)
	t.styled(wb)
	sameOutput(a, b, wa, wb)
}

// C14_dtd: declarations are the same in every style.
// Bound: a document type with up to 2 of 6 declarations in a document, 3 styles; attribute lists of up
// to 3 definitions, the first k (every k) in Attrs, in 4 styles.
func C14_dtd() {
	a, b, wa, wb := twoWriters(sym.Choice(2) == 1)
	doc := xw.Doc{}
	dtd := xw.DTD{Name: letter(), SystemID: mark()}
	style := sym.Choice(3)
	// attribute list
	var defs []xw.DTDAttr
	for i, n := 0, sym.Choice(4); i < n; i++ {
		defs = append(defs, xw.DTDAttr{Name: letter(), Type: xw.DTDAttrString, Value: mark()})
	}
	var decls []xw.Writable
	for i, n := 0, sym.Choice(3); i < n; i++ {
		switch sym.Choice(6) {
		case 0:
			decls = append(decls, xw.DTDElem{Name: letter(), Decl: "ANY"})
		case 1:
			decls = append(decls, xw.DTDEntity{Name: letter(), Content: letter()})
		case 2:
			decls = append(decls, xw.Notation{Name: letter(), SystemID: mark()})
		case 3:
			decls = append(decls, xw.Comment{Content: mark()})
		case 4:
			decls = append(decls, xw.DTDAttList{Name: letter(), Attrs: []xw.DTDAttr{{Name: letter(), Type: xw.DTDAttrID}}})
		case 5:
			decls = append(decls, xw.DTDEntity{Name: letter(), SystemID: mark(), IsPE: true})
		}
	}
	name := letter()
	root := xw.Elem{Name: letter()}

	ok(wa.Start(doc), "Start")
	ok(wa.Start(dtd), "Start")
	for _, d := range decls {
		ok(wa.Write(d), "Write")
	}
	ok(wa.Start(xw.DTDAttList{Name: name}), "Start")
	for _, d := range defs {
		ok(wa.Write(d), "Write")
	}
	ok(wa.End(xw.DTDAttListNode), "End")
	ok(wa.End(xw.DTDNode), "End")
	ok(wa.Start(root), "Start")
	ok(wa.End(xw.ElemNode), "End")
	ok(wa.End(xw.DocNode), "End")

	list := xw.DTDAttList{Name: name, Attrs: defs}
	attlist := func() {
		k := sym.Choice(len(defs) + 1)
		list.Attrs = defs[:k:k]
		switch sym.Choice(4) {
		case 0:
			ok(wb.StartDTDAttList(list), "StartDTDAttList")
			for _, d := range defs[k:] {
				ok(wb.WriteDTDAttr(d), "WriteDTDAttr")
			}
			ok(wb.EndDTDAttList(), "EndDTDAttList")
		case 1:
			var n []xw.Writable
			for _, d := range defs[k:] {
				n = append(n, d)
			}
			ok(wb.Block(list, n...), "Block")
		case 2:
			list.Attrs = defs
			ok(wb.WriteDTDAttList(list), "WriteDTDAttList")
		case 3:
			d := wb.Depth()
			ok(wb.Start(list), "Start")
			var n []xw.Writable
			for _, d := range defs[k:] {
				n = append(n, d)
			}
			ok(wb.Write(n...), "Write")
			ok(wb.EndToDepth(d, xw.DTDAttListNode, name), "EndToDepth")
		}
	}
	switch style {
	case 0:
		ok(wb.Start(doc, dtd), "Start")
		ok(wb.Write(decls...), "Write")
		attlist()
		ok(wb.EndDTD(), "EndDTD")
		ok(wb.WriteElem(root), "WriteElem")
		ok(wb.EndDoc(), "EndDoc")
	case 1:
		ok(wb.StartDoc(doc), "StartDoc")
		ok(wb.Block(dtd, append(decls, list)...), "Block")
		ok(wb.Block(root), "Block")
		ok(wb.EndAll(), "EndAll")
	case 2:
		ok(wb.StartDoc(doc), "StartDoc")
		ok(wb.StartDTD(dtd), "StartDTD")
		for _, d := range decls {
			switch d := d.(type) {
			case xw.DTDElem:
				ok(wb.WriteDTDElem(d), "WriteDTDElem")
			case xw.DTDEntity:
				ok(wb.WriteDTDEntity(d), "WriteDTDEntity")
			case xw.Notation:
				ok(wb.WriteNotation(d), "WriteNotation")
			case xw.Comment:
				ok(wb.WriteComment(d), "WriteComment")
			case xw.DTDAttList:
				ok(wb.WriteDTDAttList(d), "WriteDTDAttList")
			}
		}
		attlist()
		ok(wb.End(xw.DTDNode, dtd.Name), "End")
		ok(wb.Write(root), "Write")
		ok(wb.EndAny(), "EndAny")
	}
	sameOutput(a, b, wa, wb)
}

// C14_docs: a document in a Block, or with several nodes started at once.
// Bound: up to 3 nodes of 4 kinds in a document; 0-12 elements (or 30) started by one call or one by one, with
// 0-10 elements open already; 0-20 nodes of 5 kinds or attributes written by one call or one by one.
func C14_docs() {
	a, b, wa, wb := twoWriters(sym.Choice(2) == 1)
	switch sym.Choice(3) {
	case 0:
		var nodes []xw.Writable
		for i, n := 0, sym.Choice(4); i < n; i++ {
			switch sym.Choice(4) {
			case 0:
				nodes = append(nodes, xw.Comment{Content: mark()})
			case 1:
				nodes = append(nodes, xw.PI{Target: letter(), Content: mark()})
			case 2:
				nodes = append(nodes, xw.Elem{Name: letter(), Content: []xw.Writable{xw.Elem{Name: letter(), Content: []xw.Writable{xw.Text(mark())}}}})
			case 3:
				nodes = append(nodes, xw.Elem{Name: letter(), Attrs: tattrs(2)})
			}
		}
		ok(wa.Start(xw.Doc{}), "Start")
		for _, n := range nodes {
			ok(wa.Write(n), "Write")
		}
		ok(wa.EndDoc(), "EndDoc")
		ok(wb.Block(xw.Doc{}, nodes...), "Block")
	case 1:
		open := sym.Choice(11)
		if sym.Tier() == 0 && open > 3 && open < 7 {
			sym.Stop()
		}
		for i := 0; i < open; i++ {
			e := xw.Elem{Name: letter()}
			ok(wa.Start(e), "Start")
			ok(wb.Start(e), "Start")
		}
		var els []xw.Startable
		n := sym.Choice(14)
		if n == 13 {
			n = 30
		}
		for i := 0; i < n; i++ {
			els = append(els, xw.Elem{Name: letter(), Attrs: tattrs(i % 3)})
		}
		for _, e := range els {
			ok(wa.Start(e), "Start")
		}
		ok(wb.Start(els...), "Start")
		sym.Assert(wb.Depth() == wa.Depth(), "depth")
		if open+n > 0 {
			t := letter()
			ok(wa.Write(xw.Text(t)), "Write")
			ok(wb.WriteText(t), "WriteText")
		}
		for i := range els {
			ok(wa.EndElem(), "EndElem")
			if i%2 == 0 {
				ok(wb.EndAny(), "EndAny")
			} else {
				ok(wb.EndElem(els[len(els)-1-i].(xw.Elem).Name), "EndElem")
			}
		}
	case 2:
		open := sym.Choice(10)
		for i := 0; i < open; i++ {
			e := xw.Elem{Name: letter()}
			ok(wa.Start(e), "Start")
			ok(wb.Start(e), "Start")
		}
		ns := make([]xw.Writable, [...]int{0, 1, 2, 7, 8, 9, 20}[sym.Choice(7)])
		turn := sym.Choice(5)
		for i := range ns {
			s := mark()
			switch (i + turn) % 5 {
			case 0:
				ns[i] = xw.Elem{Name: "e", Attrs: tattrs(i % 2)}
			case 1:
				ns[i] = xw.Comment{Content: s}
			case 2:
				ns[i] = xw.Text(s)
			case 3:
				ns[i] = xw.PI{Target: "t", Content: s}
			case 4:
				ns[i] = xw.CData{Content: s}
			}
		}
		for _, n := range ns {
			ok(wa.Write(n), "Write")
		}
		ok(wb.Write(ns...), "Write")
		sym.Assert(wb.Depth() == wa.Depth(), "depth")
		ok(wa.Start(xw.Elem{Name: "as"}), "Start")
		ok(wb.Start(xw.Elem{Name: "as"}), "Start")
		as := make([]xw.Attr, len(ns))
		for i := range as {
			as[i] = xw.Attr{Name: "a" + string([]byte{'a' + byte(i)}), Value: letter()}
		}
		for _, x := range as {
			ok(wa.WriteAttr(x), "WriteAttr")
		}
		ok(wb.WriteAttr(as...), "WriteAttr")
	}
	sameOutput(a, b, wa, wb)
}

var _ = reg("C14_tree", C14_tree)
var _ = reg("C14_empty", C14_empty)
var _ = reg("C14_dtd", C14_dtd)
var _ = reg("C14_docs", C14_docs)

// C14_bytes: text given in pieces is not put together, whatever the API.
// Bound: 2 or 3 pieces of text, raw text, or comment or CDATA content: the first one ends and the others begin with
// up to 2 arbitrary bytes of which the first is any ASCII byte or one of 5 lead or continuation bytes; given to
// one Write, to Block, as Content, or one by one; with and without indenter.
func C14_bytes() {
	a, b, wa, wb := twoWriters(sym.Choice(2) == 1)
	wa.Enforce, wb.Enforce = false, false
	piece := func() string {
		k := sym.Choice(7)
		if k == 6 {
			return ""
		}
		if k == 5 {
			s := sym.StringN(1)
			sym.Assume(s[0] < 0x80)
			return s
		}
		return string([]byte{[]byte{0xc3, 0xe2, 0xf0, 0xa9, 0x82}[k]}) + sym.StringN(1)
	}
	ps := []string{"x" + piece(), piece()}
	if sym.Tier() > 0 {
		ps = append(ps, "\xac"+piece())
	} else {
		ps = append(ps, "\xac")
	}
	kind := sym.Choice(4)
	var nodes []xw.Writable
	for _, s := range ps {
		nodes = append(nodes, []xw.Writable{xw.Text(s), xw.Raw(s), xw.CommentContent(s), xw.CDataContent(s)}[kind])
	}
	var parent xw.Startable = xw.Elem{Name: "e"}
	switch kind {
	case 2:
		parent = xw.Comment{}
	case 3:
		parent = xw.CData{}
	}
	ok(wa.Start(parent), "Start")
	for i, n := range nodes {
		var err error
		if i == 1 {
			switch kind {
			case 0:
				err = wa.WriteText(ps[i])
			case 1:
				err = wa.WriteRaw(ps[i])
			case 2:
				err = wa.WriteCommentContent(ps[i])
			case 3:
				err = wa.WriteCDataContent(ps[i])
			}
		} else {
			err = wa.Write(n)
		}
		ok(err, "Write")
	}
	ok(wa.EndAny(), "EndAny")
	switch sym.Choice(4) {
	case 0:
		ok(wb.Block(parent, nodes...), "Block")
	case 1:
		ok(wb.Start(parent), "Start")
		ok(wb.Write(nodes...), "Write")
		ok(wb.EndAny(), "EndAny")
	case 2:
		ok(wb.Start(parent), "Start")
		ok(wb.Write(nodes[0]), "Write")
		ok(wb.Write(nodes[1:]...), "Write")
		ok(wb.EndAny(), "EndAny")
	case 3:
		if kind != 0 {
			sym.Stop()
		}
		ok(wb.Write(xw.Elem{Name: "e", Content: nodes}), "Write")
	}
	sameOutput(a, b, wa, wb)
}

var _ = reg("C14_bytes", C14_bytes)

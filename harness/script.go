package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// script is a sequence of calls which a writer must accept, to be played on several writers. The
// model says where it has got to.
type script struct {
	m     model
	calls []func(w *xw.Writer) error
	ops   []op // what each call does
}

// op is what a call of a script does.
type op struct {
	kind byte    // start, write, block (started and ended), next, end; 0 for raw text
	node xw.Node // of start, write and block
}

func (p *script) call(f func(w *xw.Writer) error) { p.callAs(op{}, f) }

func (p *script) callAs(o op, f func(w *xw.Writer) error) {
	p.calls = append(p.calls, f)
	p.ops = append(p.ops, o)
}

func (p *script) start(n xw.Startable) {
	p.callAs(op{'s', n}, func(w *xw.Writer) error { return w.Start(n) })
	p.m.start(n)
}

func (p *script) write(n xw.Writable) {
	p.callAs(op{'w', n}, func(w *xw.Writer) error { return w.Write(n) })
	p.m.write(n)
}

func (p *script) next() {
	p.callAs(op{'n', nil}, func(w *xw.Writer) error { return w.Next() })
	p.m.child()
}

// end ends the current node with f.
func (p *script) end(f func(w *xw.Writer) error) {
	p.callAs(op{'e', nil}, f)
	p.m.pop()
}

func (p *script) endAny() { p.end(func(w *xw.Writer) error { return w.EndAny() }) }

// allows: would the writer accept a node of this kind here?
func (m *model) allows(kind xw.NodeKind) bool {
	if kind == xw.AttrNode && m.top() != nil && m.top().opened {
		return false
	}
	return allowed(kind, m.cur())
}

// play makes every call; all must be accepted.
func (p *script) play(w *xw.Writer) {
	for _, f := range p.calls {
		ok(f(w), "a valid call")
	}
}

// script plays a script on both writers of a pair.
func (p *pair) script(build func(s *script)) {
	s := &script{}
	build(s)
	s.play(p.w)
	s.play(p.twin.w)
	bare := p.m.bare
	p.m = s.m
	p.m.bare = p.m.bare || bare
	sym.Assert(p.w.Depth() == p.m.depth(), "depth")
}

// any adds one arbitrary valid call: a node by any API, Next, or an End. Names of attributes and
// elements start with tag.
func (p *script) any(tag string, ends bool) {
	n := carriers
	if ends {
		n += 3
	}
	switch i := sym.Choice(n); i {
	case carriers:
		if p.m.top() == nil {
			sym.Stop()
		}
		p.endAny()
	case carriers + 1:
		if p.m.cur() != xw.ElemNode {
			sym.Stop()
		}
		p.m.top().full = true
		p.end(func(w *xw.Writer) error { return w.EndElemFull() })
	case carriers + 2:
		if p.m.top() == nil {
			sym.Stop()
		}
		p.next()
	default:
		c := carry(i, tag)
		if !p.m.allows(c.kind) {
			sym.Stop()
		}
		switch {
		case c.write != nil:
			p.callAs(op{'w', c.write}, c.call)
		case c.block:
			p.callAs(op{'b', c.start}, c.call)
		default:
			p.callAs(op{'s', c.start}, c.call)
		}
		p.m.carried(c)
	}
}

const endShapes = 12

// shape builds a stack of open nodes.
func (p *script) shape(i int) {
	switch i {
	case 0:
	case 1:
		p.start(xw.Doc{})
	case 2:
		p.start(xw.Doc{})
		p.start(xw.Elem{Name: letter()})
	case 3:
		p.start(xw.Elem{Prefix: letter(), Name: letter()})
	case 4:
		p.start(xw.Elem{Name: letter()})
		p.write(xw.Text(mark()))
	case 5:
		p.start(xw.Elem{Name: letter()})
		p.start(xw.Comment{Content: mark()})
	case 6:
		p.start(xw.Elem{Name: letter()})
		p.start(xw.CData{Content: mark()})
	case 7:
		p.start(xw.DTD{Name: letter()})
	case 8:
		p.start(xw.DTD{Name: letter()})
		p.start(xw.DTDAttList{Name: letter()})
	case 9:
		p.start(xw.Doc{})
		p.start(xw.DTD{Name: letter()})
		p.write(xw.DTDElem{Name: "e", Decl: "ANY"})
		p.start(xw.DTDAttList{Name: letter()})
		p.write(xw.DTDAttr{Name: "a", Type: xw.DTDAttrString})
	case 10:
		for i := 0; i < 8; i++ {
			p.start(xw.Elem{Name: letter()})
		}
		p.start(xw.Elem{Prefix: letter(), Name: letter()})
	case 11:
		p.start(xw.Elem{Prefix: letter(), Name: letter(), Attrs: []xw.Attr{{Name: "k", Value: mark()}}})
		p.start(xw.Elem{Name: letter()})
		p.start(xw.Elem{Name: letter(), Full: true})
	}
}

const places = 18

// place opens a parent in some state.
func (p *script) place(i int) {
	switch i {
	case 12: // opened without a child
		p.start(xw.Elem{Name: letter()})
		p.next()
	case 13: // an element as its child
		p.start(xw.Elem{Name: letter()})
		p.write(xw.Elem{Name: letter()})
	case 14: // a comment with content
		p.start(xw.Comment{})
		p.write(xw.CommentContent(mark()))
	case 15: // a CDATA section with content
		p.start(xw.CData{})
		p.write(xw.CDataContent(mark()))
	case 16: // a DTD with content
		p.start(xw.DTD{Name: letter()})
		p.write(xw.DTDElem{Name: letter(), Decl: "EMPTY"})
	case 17: // after something has been ended
		p.start(xw.Doc{})
		p.start(xw.DTD{Name: letter()})
		p.end(func(w *xw.Writer) error { return w.EndDTD() })
	default:
		p.shape(i)
	}
}

// carrier is one way of giving a node of some kind to a writer.
type carrier struct {
	kind  xw.NodeKind
	call  func(w *xw.Writer) error
	write xw.Writable  // what the model writes, or
	start xw.Startable // starts
	block bool         // started and ended
}

const carriers = 46

// carry is the i-th way. Names and content are symbolic.
func carry(i int, first string) carrier {
	s, u := letter(), letter()
	cw := func(n xw.Writable, kind xw.NodeKind) carrier {
		return carrier{kind: kind, write: n, call: func(w *xw.Writer) error { return w.Write(n) }}
	}
	cs := func(n xw.Startable, kind xw.NodeKind) carrier {
		return carrier{kind: kind, start: n, call: func(w *xw.Writer) error { return w.Start(n) }}
	}
	cb := func(n xw.Startable, kind xw.NodeKind) carrier {
		return carrier{kind: kind, start: n, block: true, call: func(w *xw.Writer) error { return w.Block(n) }}
	}
	via := func(c carrier, f func(w *xw.Writer) error) carrier { c.call = f; return c }
	attr := xw.Attr{Name: first + s, Value: u}
	cdata := xw.CData{Content: s}
	comment := xw.Comment{Content: s}
	dtd := xw.DTD{Name: s}
	attlist := xw.DTDAttList{Name: s, Attrs: []xw.DTDAttr{{Name: u, Type: xw.DTDAttrID}}}
	attlist0 := xw.DTDAttList{Name: s}
	dattr := xw.DTDAttr{Name: s, Type: xw.DTDAttrString, Value: u}
	delem := xw.DTDElem{Name: s, Decl: "ANY"}
	ent := xw.DTDEntity{Name: s, Content: u}
	elem := xw.Elem{Name: s, Attrs: []xw.Attr{{Name: "k", Value: u}}}
	not := xw.Notation{Name: s, SystemID: u}
	pi := xw.PI{Target: s, Content: u}
	doc := xw.Doc{}
	switch i {
	case 0:
		return cw(attr, xw.AttrNode)
	case 1:
		return via(cw(attr, xw.AttrNode), func(w *xw.Writer) error { return w.WriteAttr(attr) })
	case 2:
		return cw(cdata, xw.CDataNode)
	case 3:
		return via(cw(cdata, xw.CDataNode), func(w *xw.Writer) error { return w.WriteCData(cdata) })
	case 4:
		return cs(cdata, xw.CDataNode)
	case 5:
		return via(cs(cdata, xw.CDataNode), func(w *xw.Writer) error { return w.StartCData(cdata) })
	case 6:
		return cb(cdata, xw.CDataNode)
	case 7:
		return cw(xw.CDataContent(s), xw.CDataContentNode)
	case 8:
		return via(cw(xw.CDataContent(s), xw.CDataContentNode), func(w *xw.Writer) error { return w.WriteCDataContent(s) })
	case 9:
		return cw(comment, xw.CommentNode)
	case 10:
		return via(cw(comment, xw.CommentNode), func(w *xw.Writer) error { return w.WriteComment(comment) })
	case 11:
		return cs(comment, xw.CommentNode)
	case 12:
		return via(cs(comment, xw.CommentNode), func(w *xw.Writer) error { return w.StartComment(comment) })
	case 13:
		return cb(comment, xw.CommentNode)
	case 14:
		return cw(xw.CommentContent(s), xw.CommentContentNode)
	case 15:
		return via(cw(xw.CommentContent(s), xw.CommentContentNode), func(w *xw.Writer) error { return w.WriteCommentContent(s) })
	case 16:
		return cs(dtd, xw.DTDNode)
	case 17:
		return via(cs(dtd, xw.DTDNode), func(w *xw.Writer) error { return w.StartDTD(dtd) })
	case 18:
		return cb(dtd, xw.DTDNode)
	case 19:
		return cw(attlist, xw.DTDAttListNode)
	case 20:
		return via(cw(attlist, xw.DTDAttListNode), func(w *xw.Writer) error { return w.WriteDTDAttList(attlist) })
	case 21:
		return cs(attlist0, xw.DTDAttListNode)
	case 22:
		return via(cs(attlist0, xw.DTDAttListNode), func(w *xw.Writer) error { return w.StartDTDAttList(attlist0) })
	case 23:
		return cb(attlist0, xw.DTDAttListNode)
	case 24:
		return cw(dattr, xw.DTDAttrNode)
	case 25:
		return via(cw(dattr, xw.DTDAttrNode), func(w *xw.Writer) error { return w.WriteDTDAttr(dattr) })
	case 26:
		return cw(delem, xw.DTDElemNode)
	case 27:
		return via(cw(delem, xw.DTDElemNode), func(w *xw.Writer) error { return w.WriteDTDElem(delem) })
	case 28:
		return cw(ent, xw.DTDEntityNode)
	case 29:
		return via(cw(ent, xw.DTDEntityNode), func(w *xw.Writer) error { return w.WriteDTDEntity(ent) })
	case 30:
		return cs(doc, xw.DocNode)
	case 31:
		return via(cs(doc, xw.DocNode), func(w *xw.Writer) error { return w.StartDoc(doc) })
	case 32:
		return cb(doc, xw.DocNode)
	case 33:
		return cw(elem, xw.ElemNode)
	case 34:
		return via(cw(elem, xw.ElemNode), func(w *xw.Writer) error { return w.WriteElem(elem) })
	case 35:
		return cs(elem, xw.ElemNode)
	case 36:
		return via(cs(elem, xw.ElemNode), func(w *xw.Writer) error { return w.StartElem(elem) })
	case 37:
		return cb(elem, xw.ElemNode)
	case 38:
		return cw(not, xw.NotationNode)
	case 39:
		return via(cw(not, xw.NotationNode), func(w *xw.Writer) error { return w.WriteNotation(not) })
	case 40:
		return cw(pi, xw.PINode)
	case 41:
		return via(cw(pi, xw.PINode), func(w *xw.Writer) error { return w.WritePI(pi) })
	case 42:
		return cw(xw.Raw(s), xw.RawNode)
	case 43:
		return via(cw(xw.Raw(s), xw.RawNode), func(w *xw.Writer) error { return w.WriteRaw(s) })
	case 44:
		return cw(xw.Text(s), xw.TextNode)
	default:
		return via(cw(xw.Text(s), xw.TextNode), func(w *xw.Writer) error { return w.WriteText(s) })
	}
}

// effect of an accepted carrier on the model.
func (m *model) carried(c carrier) {
	if c.kind == xw.DocNode && len(m.evs) > 0 {
		m.bare = true // a second declaration
	}
	switch {
	case c.kind == xw.RawNode, c.kind == xw.TextNode && m.top() == nil:
		m.bare = true
	}
	switch {
	case c.kind == xw.RawNode:
	case c.write != nil:
		m.write(c.write)
	default:
		m.start(c.start)
		if c.block {
			m.pop()
		}
	}
}

const docs = 7

// doc is one of a few documents which between them have every node, written in every style.
func (p *script) doc(i int) {
	end := func(f func(w *xw.Writer) error) { p.end(f) }
	switch i {
	case 0:
		p.start(xw.Doc{}.WithStandalone(true))
		p.write(xw.Comment{Content: "c" + mark()})
		p.start(xw.DTD{Name: "d", PublicID: "pub", SystemID: "sys"})
		p.write(xw.DTDElem{Name: "e", Decl: "(#PCDATA)"})
		p.write(xw.DTDEntity{Name: "n", Content: letter()})
		p.write(xw.DTDEntity{Name: "n", SystemID: "s'y", PublicID: "p", NDataID: "nd"})
		p.write(xw.DTDEntity{Name: "n", SystemID: "s", IsPE: true})
		p.write(xw.Comment{Content: "in" + mark()})
		p.write(xw.DTDAttList{Name: "e", Attrs: []xw.DTDAttr{{Name: "a", Type: xw.DTDAttrString, Value: "<" + mark()}, {Name: "b", Type: xw.DTDAttrID, Default: xw.DTDAttrRequired}}})
		p.start(xw.DTDAttList{Name: "f"})
		p.write(xw.DTDAttr{Name: "c", Type: xw.DTDAttrNmtoken, Default: xw.DTDAttrFixed, Value: "v"})
		end(func(w *xw.Writer) error { return w.EndDTDAttList() })
		p.write(xw.Notation{Name: "o", PublicID: letter()})
		p.write(xw.Notation{Name: "o", SystemID: "s", PublicID: "p"})
		end(func(w *xw.Writer) error { return w.EndDTD() })
		p.start(xw.Elem{Name: "e"})
		p.write(xw.Text(mark()))
		end(func(w *xw.Writer) error { return w.EndElem("e") })
		end(func(w *xw.Writer) error { return w.EndDoc() })
	case 1:
		p.start(xw.Doc{SuppressEncoding: true})
		p.write(xw.PI{Target: "t", Content: mark()})
		p.start(xw.Elem{Name: "r", Attrs: []xw.Attr{{Name: "a", Value: "1" + mark()}, {Name: "b", Value: "<\""}}})
		p.write(xw.Attr{Name: "c", Value: mark()})
		p.write(xw.Elem{Name: "k", Content: []xw.Writable{xw.Text("t&"), xw.Elem{Name: "l", Full: true}, xw.Comment{Content: "c"}, xw.CData{Content: "d"}}})
		p.start(xw.Comment{})
		p.write(xw.CommentContent("x" + mark()))
		p.write(xw.CommentContent("y"))
		end(func(w *xw.Writer) error { return w.EndComment() })
		p.start(xw.CData{Content: mark()})
		p.write(xw.CDataContent("z"))
		end(func(w *xw.Writer) error { return w.EndCData() })
		p.start(xw.Elem{Name: "m"})
		p.m.top().full = true
		end(func(w *xw.Writer) error { return w.EndElemFull() })
		p.write(xw.PI{Target: "u", Content: "v"})
		end(func(w *xw.Writer) error { return w.EndElem() })
		end(func(w *xw.Writer) error { return w.EndAny() })
	case 2:
		for i := 0; i < 10; i++ {
			p.start(xw.Elem{Name: letter(), Attrs: []xw.Attr{{Name: "a", Value: mark()}}})
		}
		p.write(xw.Text(mark()))
		for i := 0; i < 10; i++ {
			p.endAny()
			if i == 4 {
				p.write(xw.Elem{Name: "sib"})
			}
		}
	case 3:
		p.start(xw.Elem{Prefix: "p", URI: "u:" + mark(), Name: "e"})
		p.write(xw.Attr{Prefix: "q", URI: "w:" + mark(), Name: "a", Value: "v"})
		p.write(xw.Attr{Prefix: "p", Name: "b", Value: "v"})
		p.write(xw.Elem{Prefix: "p", Name: "f", Attrs: []xw.Attr{{Prefix: "z", URI: "x", Name: "a", Value: "v"}}})
		p.endAny()
		p.m.bare = true // declarations are not in the model
	case 4:
		p.write(xw.Text("top" + mark()))
		p.write(xw.Elem{Name: "a", Content: []xw.Writable{xw.Text(""), xw.Elem{Name: "b", Content: []xw.Writable{xw.Elem{Name: "c", Content: []xw.Writable{xw.Elem{Name: letter(), Content: []xw.Writable{xw.Text("deep")}}, xw.Elem{Name: "e"}}}, xw.Text(mark())}}}})
		p.write(xw.CData{Content: mark()})
		p.m.bare = true
	case 5:
		p.start(xw.Elem{Name: "t"})
		p.write(xw.Text("a long piece of text, longer than the smallest buffer " + mark() + " & with <markup> in it"))
		p.write(xw.Elem{Name: "t", Attrs: []xw.Attr{{Name: "long", Value: "a long attribute value with \"quotes\" in it " + mark()}}})
		p.write(xw.Comment{Content: "a long comment, longer than the buffer, to be sure"})
		p.endAny()
	case 6:
		p.start(xw.Elem{Name: "w"})
		p.m.bare = true
		p.call(func(w *xw.Writer) error { return w.WriteRaw(" raw='" + "x" + "'") })
		p.next()
		p.call(func(w *xw.Writer) error { return w.WriteRaw("<raw/>") })
		p.write(xw.Elem{Name: letter()})
		p.call(func(w *xw.Writer) error { return w.Write(xw.Raw("")) })
		p.endAny()
	}
}

// scripts: the documents above, or an arbitrary call or two in every kind of place.
func anyScript(steps int) *script {
	p := &script{}
	if sym.Choice(2) == 0 {
		p.doc(sym.Choice(docs))
		return p
	}
	p.place(sym.Choice(places))
	for i := 0; i < steps; i++ {
		p.any(string([]byte{'x' + byte(i)}), true)
	}
	return p
}

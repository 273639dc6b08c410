package main

import (
	"errors"

	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// The abstract writer: what the documentation says a sequence of calls does. It predicts, per call,
// whether it is accepted, how deep the writer is afterwards, and what a reader must report.

type mnode struct {
	kind   xw.NodeKind
	prefix string
	name   string
	opened bool
	ev     int // index of the start event
	kids   int
	full   bool // Elem.Full
}

type model struct {
	st   []mnode
	evs  []ev
	bare bool // something was written outside every node which is not a fragment of its own
}

func (m *model) top() *mnode {
	if len(m.st) == 0 {
		return nil
	}
	return &m.st[len(m.st)-1]
}

func (m *model) depth() int { return len(m.st) - 1 }

func (m *model) cur() xw.NodeKind {
	if t := m.top(); t != nil {
		return t.kind
	}
	return xw.NoNode
}

// allowed is the node hierarchy of the package documentation: may kind be written directly inside
// parent? Every kind except Raw may also be written with no parent.
func allowed(kind, parent xw.NodeKind) bool {
	if parent == xw.NoNode {
		return true
	}
	switch kind {
	case xw.DocNode:
		return false
	case xw.DTDNode:
		return parent == xw.DocNode
	case xw.DTDEntityNode, xw.DTDElemNode, xw.DTDAttListNode, xw.NotationNode:
		return parent == xw.DTDNode
	case xw.DTDAttrNode:
		return parent == xw.DTDAttListNode
	case xw.CommentNode:
		return parent == xw.DocNode || parent == xw.DTDNode || parent == xw.ElemNode
	case xw.PINode, xw.ElemNode:
		return parent == xw.DocNode || parent == xw.ElemNode
	case xw.AttrNode, xw.TextNode, xw.CDataNode:
		return parent == xw.ElemNode
	case xw.CommentContentNode:
		return parent == xw.CommentNode
	case xw.CDataContentNode:
		return parent == xw.CDataNode
	case xw.RawNode:
		return true
	}
	return false
}

// child notes that something was written inside the current node.
func (m *model) child() {
	if t := m.top(); t != nil {
		t.opened = true
		t.kids++
	}
}

func (m *model) emit(e ev) int {
	if e.k == evText {
		if e.val == "" {
			return -1
		}
		if n := len(m.evs); n > 0 && m.evs[n-1].k == evText {
			m.evs[n-1].val += e.val
			return n - 1
		}
	}
	m.evs = append(m.evs, e)
	return len(m.evs) - 1
}

func (m *model) push(kind xw.NodeKind, prefix, name string, e ev) {
	m.child()
	at := -1
	if e.k != 0 {
		at = m.emit(e)
	}
	m.st = append(m.st, mnode{kind: kind, prefix: prefix, name: name, ev: at})
}

func (m *model) pop() {
	t := m.top()
	switch t.kind {
	case xw.ElemNode:
		e := ev{k: evEnd, name: m.evs[t.ev].name}
		if t.kids == 0 && !t.full {
			e.val = "/"
		}
		m.emit(e)
	case xw.DTDNode:
		m.emit(ev{k: evDTDEnd})
	}
	m.st = m.st[:len(m.st)-1]
}

func qname(prefix, name string) string {
	if prefix != "" {
		return prefix + ":" + name
	}
	return name
}

// startElem and friends below are the effects of accepted nodes.

func (m *model) startElem(e xw.Elem) {
	s := ev{k: evStart, name: qname(e.Prefix, e.Name)}
	for _, a := range e.Attrs {
		s.attrs = append(s.attrs, kv{qname(a.Prefix, a.Name), a.Value})
	}
	m.push(xw.ElemNode, e.Prefix, e.Name, s)
	m.top().full = e.Full
	// Content is written as soon as the element is opened; callers which use it close it at once
}

func (m *model) writeElem(e xw.Elem) {
	m.startElem(e)
	m.content(e)
	m.pop()
}

// content is the effect of opening an element that has Content.
func (m *model) content(e xw.Elem) {
	for _, c := range e.Content {
		m.write(c)
	}
}

// write is the effect of an accepted Writable.
func (m *model) write(n xw.Writable) {
	switch n := n.(type) {
	case xw.Elem:
		m.writeElem(n)
	case xw.Text:
		m.child()
		m.emit(ev{k: evText, val: string(n)})
	case xw.Comment:
		m.child()
		m.emit(ev{k: evComment, val: n.Content})
	case xw.CData:
		m.child()
		m.emit(ev{k: evCData, val: n.Content})
	case xw.CommentContent:
		if t := m.top(); t != nil {
			m.child()
			m.evs[t.ev].val += string(n)
		} else {
			m.bare = true
		}
	case xw.CDataContent:
		if t := m.top(); t != nil {
			m.child()
			m.evs[t.ev].val += string(n)
		} else {
			m.bare = true
		}
	case xw.PI:
		m.child()
		m.emit(ev{k: evPI, name: n.Target, val: n.Content})
	case xw.Attr:
		if t := m.top(); t != nil {
			m.evs[t.ev].attrs = append(m.evs[t.ev].attrs, kv{qname(n.Prefix, n.Name), n.Value})
		} else {
			m.bare = true
		}
	case xw.DTDElem:
		m.child()
		m.emit(ev{k: evElement, name: n.Name, val: n.Decl})
	case xw.DTDEntity:
		m.child()
		m.emit(entityEv(n))
	case xw.Notation:
		m.child()
		m.emit(notationEv(n))
	case xw.DTDAttList:
		m.child()
		m.emit(ev{k: evAttlist, name: n.Name})
		for _, a := range n.Attrs {
			m.emit(attdefEv(a))
		}
	case xw.DTDAttr:
		if m.top() == nil {
			m.bare = true
		}
		m.child()
		m.emit(attdefEv(n))
	default:
		panic("model: unknown writable")
	}
}

func entityEv(n xw.DTDEntity) ev {
	e := ev{k: evEntity, name: n.Name}
	if n.IsPE {
		e.name = "%" + n.Name
	}
	if n.PublicID == "" && n.SystemID == "" {
		e.val, e.val2 = "VALUE", n.Content
		return e
	}
	e.val, e.val2 = "SYSTEM", n.SystemID
	if n.PublicID != "" {
		e.val = "PUBLIC+"
	}
	e.attrs = append(e.attrs, kv{"pub", n.PublicID})
	if n.NDataID != "" {
		e.attrs = append(e.attrs, kv{"ndata", n.NDataID})
	}
	return e
}

func notationEv(n xw.Notation) ev {
	k := "SYSTEM"
	if n.PublicID != "" && n.SystemID != "" {
		k = "PUBLIC+"
	} else if n.PublicID != "" {
		k = "PUBLIC"
	}
	return ev{k: evNotation, name: n.Name, val: n.PublicID, val2: n.SystemID, attrs: []kv{{k, ""}}}
}

func attdefEv(a xw.DTDAttr) ev {
	e := ev{k: evAttdef, name: a.Name, val: string(a.Type)}
	switch a.Default {
	case xw.DTDAttrInfer:
		e.val2 = "#IMPLIED"
		if a.Value != "" {
			e.val2 = "=" + a.Value
		}
	case xw.DTDAttrDefault:
		e.val2 = "=" + a.Value
	case xw.DTDAttrFixed:
		e.val2 = "F" + a.Value
	case xw.DTDAttrRequired:
		e.val2 = "#REQUIRED"
	case xw.DTDAttrImplied:
		e.val2 = "#IMPLIED"
	}
	return e
}

// start is the effect of an accepted Startable.
func (m *model) start(n xw.Startable) {
	switch n := n.(type) {
	case xw.Doc:
		m.push(xw.DocNode, "", "", ev{k: evDecl, attrs: docAttrs(n, "UTF-8")})
	case xw.Elem:
		m.startElem(n)
	case xw.Comment:
		m.push(xw.CommentNode, "", "", ev{k: evComment, val: n.Content})
	case xw.CData:
		m.push(xw.CDataNode, "", "", ev{k: evCData, val: n.Content})
	case xw.DTD:
		m.push(xw.DTDNode, "", n.Name, ev{k: evDTD, name: n.Name, val: n.PublicID, val2: n.SystemID})
	case xw.DTDAttList:
		m.push(xw.DTDAttListNode, "", n.Name, ev{k: evAttlist, name: n.Name})
		for _, a := range n.Attrs {
			m.emit(attdefEv(a))
		}
	default:
		panic("model: unknown startable")
	}
}

func docAttrs(d xw.Doc, enc string) []kv {
	var a []kv
	if !d.SuppressVersion {
		v := "1.0"
		if d.ForcedVersion != nil {
			v = *d.ForcedVersion
		}
		a = append(a, kv{"version", v})
	}
	if !d.SuppressEncoding {
		if d.ForcedEncoding != nil {
			enc = *d.ForcedEncoding
		}
		if enc != "" {
			a = append(a, kv{"encoding", enc})
		}
	}
	if d.Standalone != nil {
		v := "no"
		if *d.Standalone {
			v = "yes"
		}
		a = append(a, kv{"standalone", v})
	}
	return a
}

// tw is a writer under test next to its model.
type tw struct {
	out  sink
	w    *xw.Writer
	m    model
	seen int
}

func open(opts ...xw.Option) *tw {
	t := &tw{}
	t.w = xw.Open(&t.out, opts...)
	return t
}

func ok(err error, what string) {
	if err != nil {
		sym.Assert(false, what+" was rejected")
	}
}

// start and write are calls that must be accepted.
func (t *tw) start(n xw.Startable) {
	ok(t.w.Start(n), "Start")
	t.m.start(n)
	sym.Assert(t.w.Depth() == t.m.depth(), "depth after Start")
}

func (t *tw) write(n xw.Writable) {
	ok(t.w.Write(n), "Write")
	t.m.write(n)
	sym.Assert(t.w.Depth() == t.m.depth(), "depth after Write")
}

func (t *tw) end() {
	ok(t.w.EndAny(), "End")
	t.m.pop()
	sym.Assert(t.w.Depth() == t.m.depth(), "depth after End")
}

// finish ends everything and compares what a reader reports.
func (t *tw) finish() {
	ok(t.w.EndAllFlush(), "EndAllFlush")
	for len(t.m.st) > 0 {
		t.m.pop()
	}
	sym.Assert(t.w.Depth() == -1, "depth after EndAllFlush")
	t.readBack()
}

func (t *tw) readBack() {
	if t.m.bare {
		return
	}
	got, msg := read(t.out.b)
	sym.Observe("out", t.out.b)
	sym.Assert(msg == "", "output is not well-formed")
	sym.Assert(sameEvs(dropBlankTop(got), dropBlankTop(t.m.evs)), "output does not read back as what was written")
}

var errBad = errors.New("bad")

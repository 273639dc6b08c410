package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// pair is a writer under test, its model, and a twin which never sees the refused calls.
type pair struct {
	*tw
	twin *tw
}

func (p *pair) start(n xw.Startable) {
	p.tw.start(n)
	ok(p.twin.w.Start(n), "Start")
}

func (p *pair) write(n xw.Writable) {
	p.tw.write(n)
	ok(p.twin.w.Write(n), "Write")
}

var endKinds = []xw.NodeKind{xw.ElemNode, xw.DocNode, xw.DTDNode, xw.DTDAttListNode, xw.CommentNode, xw.CDataNode, xw.TextNode, xw.NoNode}

// matches: is the node the one that End(kind, names...) names?
func matches(t *mnode, kind xw.NodeKind, names []string) bool {
	if t == nil || t.kind != kind {
		return false
	}
	switch len(names) {
	case 0:
		return true
	case 1:
		return (kind == xw.ElemNode || kind == xw.DTDNode || kind == xw.DTDAttListNode) && t.name == names[0]
	case 2:
		return kind == xw.ElemNode && t.prefix == names[0] && t.name == names[1]
	}
	return false
}

const endOps = 11

// endStep is one call that ends nodes.
func (p *pair) endStep(op int) {
	m := &p.m
	kind := xw.ElemNode
	var names []string
	var call func(w *xw.Writer) error
	switch op {
	case 0:
		call = func(w *xw.Writer) error { return w.EndAny() }
		if t := m.top(); t != nil {
			kind = t.kind
		}
	case 1:
		p.same(func(w *xw.Writer) error { return w.EndAll() })
		for m.top() != nil {
			m.pop()
		}
		sym.Assert(p.w.Depth() == -1, "depth after EndAll")
		return
	case 2:
		if m.top() == nil || m.st[0].kind != xw.DocNode {
			sym.Assert(p.w.EndDoc() != nil, "EndDoc without a Doc is accepted")
			sym.Cover("no doc")
			sym.Stop()
		}
		p.same(func(w *xw.Writer) error { return w.EndDoc() })
		for m.top() != nil {
			m.pop()
		}
		sym.Assert(p.w.Depth() == -1, "depth after EndDoc")
		return
	case 3:
		kind = endKinds[sym.Choice(len(endKinds))]
		names = []string{letter(), letter(), letter()}[:sym.Choice(4)]
		call = func(w *xw.Writer) error { return w.End(kind, names...) }
	case 4:
		names = []string{letter(), letter(), letter()}[:sym.Choice(4)]
		call = func(w *xw.Writer) error { return w.EndElem(names...) }
	case 5:
		names = []string{letter(), letter(), letter()}[:sym.Choice(4)]
		call = func(w *xw.Writer) error { return w.EndElemFull(names...) }
	case 6:
		kind = xw.CDataNode
		call = func(w *xw.Writer) error { return w.EndCData() }
	case 7:
		kind = xw.CommentNode
		call = func(w *xw.Writer) error { return w.EndComment() }
	case 8:
		kind = xw.DTDNode
		call = func(w *xw.Writer) error { return w.EndDTD() }
	case 9:
		kind = xw.DTDAttListNode
		call = func(w *xw.Writer) error { return w.EndDTDAttList() }
	case 10:
		// to a depth
		kind = endKinds[sym.Choice(len(endKinds)-2)]
		names = []string{letter(), letter()}[:sym.Choice(3)]
		d := sym.Choice(m.depth()+3) - 1
		if m.depth() <= d {
			p.refused(func(w *xw.Writer) error { return w.EndToDepth(d, kind, names...) }, "EndToDepth with nothing to end")
			return
		}
		if !matches(&m.st[d+1], kind, names) {
			sym.Assert(p.w.EndToDepth(d, kind, names...) != nil, "EndToDepth with another node is accepted")
			sym.Cover("to depth, other node")
			sym.Stop()
		}
		p.same(func(w *xw.Writer) error { return w.EndToDepth(d, kind, names...) })
		for m.depth() > d {
			m.pop()
		}
		sym.Assert(p.w.Depth() == d, "depth after EndToDepth")
		sym.Cover("to depth")
		return
	}
	if matches(m.top(), kind, names) {
		p.same(call)
		if op == 5 {
			m.top().full = true
		}
		m.pop()
		sym.Cover("ended")
	} else {
		p.refused(call, "End of another node")
		sym.Cover("not ended")
	}
	sym.Assert(p.w.Depth() == m.depth(), "depth after End")
}

// same: both writers must accept it.
func (p *pair) same(call func(w *xw.Writer) error) {
	ok(call(p.w), "End")
	ok(call(p.twin.w), "End")
}

// refused: the call must return an error, and the twin does not see it.
func (p *pair) refused(call func(w *xw.Writer) error, what string) {
	d := p.w.Depth()
	if call(p.w) == nil {
		sym.Assert(false, what+" was accepted")
	}
	sym.Assert(p.w.Depth() == d, "a refused call changed the depth")
}

// probe writes something into the current node, so that its state shows.
func (p *pair) probe() {
	switch p.m.cur() {
	case xw.ElemNode, xw.DocNode:
		p.write(xw.Elem{Name: "probe"})
	case xw.DTDNode:
		p.write(xw.DTDElem{Name: "probe", Decl: "ANY"})
	case xw.DTDAttListNode:
		p.write(xw.DTDAttr{Name: "probe", Type: "ID"})
	case xw.CommentNode:
		p.write(xw.CommentContent("probe"))
	case xw.CDataNode:
		p.write(xw.CDataContent("probe"))
	}
}

func (p *pair) compare() {
	ok(p.twin.w.EndAllFlush(), "EndAllFlush")
	p.finish()
	sym.Assert(string(p.out.b) == string(p.twin.out.b), "a refused call changed the output")
}

func newPair(opts ...xw.Option) *pair { return &pair{open(opts...), open(opts...)} }

// C08_end: the End calls end the right node or nothing.
// Bound: 12 stacks of open nodes with symbolic names, then 2 (thorough: 3) arbitrary End calls of 11
// kinds with arbitrary node kinds and up to 3 symbolic names, and a child or nothing before the rest
// is ended.
func C08_end() {
	p := newPair()
	p.script(func(s *script) { s.shape(sym.Choice(endShapes)) })
	n := 2 + sym.Tier()
	for i := 0; i < n; i++ {
		p.endStep(sym.Choice(endOps))
	}
	if sym.Choice(2) == 0 {
		p.probe()
	}
	p.compare()
}

// C08_names: names are compared as a whole.
// Bound: element, DTD and attribute-list names and prefixes of up to 3 letters against names of up to
// 3 letters.
func C08_names() {
	word := func(min int) string {
		n := min + sym.Choice(4-min)
		s := ""
		for i := 0; i < n; i++ {
			s += letter()
		}
		return s
	}
	p := newPair()
	kind := xw.ElemNode
	switch sym.Choice(4) {
	case 0:
		p.start(xw.Elem{Name: word(1)})
	case 1:
		p.start(xw.Elem{Name: word(1), Prefix: word(1)})
	case 2:
		p.start(xw.DTD{Name: word(1)})
		kind = xw.DTDNode
	case 3:
		p.start(xw.DTDAttList{Name: word(1)})
		kind = xw.DTDAttListNode
	}
	names := []string{word(0)}
	if sym.Choice(2) == 1 {
		names = append(names, word(0))
	}
	call := func(w *xw.Writer) error { return w.End(kind, names...) }
	if matches(p.m.top(), kind, names) {
		p.same(call)
		p.m.pop()
		sym.Cover("ended")
	} else {
		p.refused(call, "End with another name")
		sym.Cover("not ended")
	}
	p.compare()
}

// C08_depth: Depth counts, and EndToDepth ends what was started since, at any depth.
// Bound: 0-24 (thorough: 0-60) open elements, ended to every depth, by EndToDepth with or without
// a name or one by one.
func C08_depth() {
	p := newPair()
	n := sym.Choice(25 + 36*sym.Tier())
	if sym.Choice(2) == 1 {
		p.start(xw.Doc{})
	}
	for i := 0; i < n; i++ {
		p.start(xw.Elem{Name: letter(), Full: i%3 == 1})
	}
	if p.m.depth() < 0 {
		sym.Stop()
	}
	d := sym.Choice(p.m.depth()+1) - 1
	if p.m.st[d+1].kind != xw.ElemNode {
		ok(p.w.EndToDepth(d, xw.DocNode), "EndToDepth")
		ok(p.twin.w.EndDoc(), "EndDoc")
	} else {
		switch sym.Choice(3) {
		case 0:
			ok(p.w.EndToDepth(d, xw.ElemNode), "EndToDepth")
		case 1:
			ok(p.w.EndToDepth(d, xw.ElemNode, p.m.st[d+1].name), "EndToDepth")
		case 2:
			ok(p.w.EndToDepth(d, xw.ElemNode, "", p.m.st[d+1].name), "EndToDepth")
		}
		for i := p.m.depth(); i > d; i-- {
			if p.m.st[i].kind == xw.ElemNode {
				ok(p.twin.w.EndElem(p.m.st[i].name), "EndElem")
			}
		}
	}
	for p.m.depth() > d {
		p.m.pop()
	}
	sym.Assert(p.w.Depth() == d, "depth after EndToDepth")
	if d >= 0 {
		p.probe()
	}
	sym.Cover("depth")
	p.compare()
}

// C08_free: the same without enforcement, with any nesting at all.
// Bound: 1-3 (thorough: 4) open nodes of any of 6 kinds inside each other, with symbolic names, then one
// of 9 End calls with arbitrary node kinds and up to 2 symbolic names; compared with EndAny as often as needed.
func C08_free() {
	p := newPair()
	p.w.Enforce, p.twin.w.Enforce = false, false
	var st []mnode
	for i, n := 0, 1+sym.Choice(3+sym.Tier()); i < n; i++ {
		var s xw.Startable
		k := mnode{name: letter()}
		switch sym.Choice(6) {
		case 0:
			k.kind, k.prefix = xw.ElemNode, letter()
			s = xw.Elem{Name: k.name, Prefix: k.prefix}
		case 1:
			k.kind = xw.DocNode
			s = xw.Doc{}
		case 2:
			k.kind = xw.DTDNode
			s = xw.DTD{Name: k.name}
		case 3:
			k.kind = xw.DTDAttListNode
			s = xw.DTDAttList{Name: k.name}
		case 4:
			k.kind = xw.CommentNode
			s = xw.Comment{Content: k.name}
		case 5:
			k.kind = xw.CDataNode
			s = xw.CData{Content: k.name}
		}
		p.same(func(w *xw.Writer) error { return w.Start(s) })
		st = append(st, k)
		sym.Assert(p.w.Depth() == len(st)-1, "depth after Start")
	}
	top := &st[len(st)-1]
	to := len(st) - 2 // the depth afterwards
	good := true
	kind := top.kind
	var names []string
	var call func() error
	switch sym.Choice(9) {
	case 0:
		call = func() error { return p.w.EndAny() }
	case 1:
		to = -1
		call = func() error { return p.w.EndAll() }
	case 2:
		if st[0].kind != xw.DocNode {
			sym.Stop() // ends some, and errors
		}
		to = -1
		call = func() error { return p.w.EndDoc() }
	case 3:
		kind = endKinds[sym.Choice(6)]
		names = []string{letter(), letter()}[:sym.Choice(3)]
		good = matches(top, kind, names)
		call = func() error { return p.w.End(kind, names...) }
	case 4:
		names = []string{letter(), letter()}[:sym.Choice(3)]
		good = matches(top, xw.ElemNode, names)
		call = func() error { return p.w.EndElem(names...) }
	case 5:
		to = sym.Choice(len(st)) - 1
		kind = st[to+1].kind
		if sym.Choice(2) == 1 {
			names = []string{letter()}
			if !matches(&st[to+1], kind, names) {
				sym.Stop()
			}
		}
		call = func() error { return p.w.EndToDepth(to, kind, names...) }
	case 6:
		good = kind == xw.CommentNode
		call = func() error { return p.w.EndComment() }
	case 7:
		good = kind == xw.DTDNode
		call = func() error { return p.w.EndDTD() }
	case 8:
		good = kind == xw.DTDAttListNode
		call = func() error { return p.w.EndDTDAttList() }
	}
	err := call()
	if good {
		ok(err, "End")
		for i := len(st) - 1; i > to; i-- {
			ok(p.twin.w.EndAny(), "EndAny")
		}
		sym.Cover("ended")
	} else {
		sym.Assert(err != nil, "End of another node was accepted")
		to = len(st) - 1
		sym.Cover("not ended")
	}
	sym.Assert(p.w.Depth() == to, "depth after End")
	p.same(func(w *xw.Writer) error { return w.Write(xw.Raw("probe")) })
	p.same(func(w *xw.Writer) error { return w.EndAllFlush() })
	sym.Observe("out", p.out.b)
	sym.Assert(string(p.out.b) == string(p.twin.out.b), "the output depends on how nodes are ended")
}

var allKinds = []xw.NodeKind{xw.NoNode, xw.DocNode, xw.DTDNode, xw.DTDEntityNode, xw.DTDElemNode, xw.DTDAttrNode, xw.DTDAttListNode,
	xw.NotationNode, xw.CommentNode, xw.CommentContentNode, xw.PINode, xw.ElemNode, xw.AttrNode, xw.TextNode, xw.RawNode, xw.CDataNode, xw.CDataContentNode}

// C08_kinds: every kind against every kind.
// Bound: each of 7 current nodes (or none), with something in it or not, End (or EndToDepth) with each
// of 17 node kinds, and any other value of the type, and 0-3 names, each empty or a letter; then a child, and the
// rest ended.
func C08_kinds() {
	p := newPair()
	cur := sym.Choice(8)
	switch cur {
	case 1:
		p.start(xw.Doc{})
	case 2:
		p.start(xw.Elem{Name: letter()})
	case 3:
		p.start(xw.Elem{Name: letter()})
		p.start(xw.Elem{Prefix: letter(), Name: letter()})
	case 4:
		p.start(xw.DTD{Name: letter()})
	case 5:
		p.start(xw.DTD{Name: letter()})
		p.start(xw.DTDAttList{Name: letter()})
	case 6:
		p.start(xw.Comment{})
	case 7:
		p.start(xw.CData{})
	}
	if cur > 0 && sym.Choice(2) == 1 {
		p.probe()
	}
	var kind xw.NodeKind
	if i := sym.Choice(len(allKinds) + 1); i < len(allKinds) {
		kind = allKinds[i]
	} else {
		kind = xw.NodeKind(int(sym.Uint64())) // whatever the number
	}
	var names []string
	for n := sym.Choice(4); len(names) < n; {
		if sym.Choice(2) == 0 {
			names = append(names, "")
		} else {
			names = append(names, letter())
		}
	}
	call := func(w *xw.Writer) error { return w.End(kind, names...) }
	if sym.Choice(2) == 1 {
		call = func(w *xw.Writer) error { return w.EndToDepth(w.Depth()-1, kind, names...) }
	}
	if matches(p.m.top(), kind, names) {
		p.same(call)
		p.m.pop()
		sym.Cover("ended")
	} else {
		p.refused(call, "End of another node")
		sym.Cover("not ended")
	}
	sym.Assert(p.w.Depth() == p.m.depth(), "depth after End")
	if p.m.top() != nil {
		p.probe()
	}
	p.compare()
}

var _ = reg("C08_kinds", C08_kinds)
var _ = reg("C08_end", C08_end)
var _ = reg("C08_free", C08_free)
var _ = reg("C08_names", C08_names)
var _ = reg("C08_depth", C08_depth)

// C08_long: long names are compared as a whole, too.
// Bound: names of 6 lengths from 20 to 5000 with one letter at the front, in the middle or at the end; against the same
// with another letter, or one byte less or more; element with or without prefix, DTD and attribute list; End with
// a name, with a prefix and a name, EndElem and EndToDepth.
func C08_long() {
	sym.Large()
	n := []int{20, 48, 65, 130, 300, 5000}[sym.Choice(6)]
	pos := []int{0, n / 2, n}[sym.Choice(3)]
	word := func(l string) string { return fill(pos, "x") + l + fill(n-pos, "x") }
	name := word(letter())
	other := word(letter())
	switch sym.Choice(3) {
	case 1:
		other = other[1:]
	case 2:
		other += "x"
	}
	p := newPair()
	p.start(xw.Doc{})
	kind := xw.ElemNode
	names := []string{other}
	switch sym.Choice(5) {
	case 0:
		p.start(xw.Elem{Name: name})
	case 1:
		p.start(xw.Elem{Prefix: name, Name: "n"})
		names = []string{other, "n"}
	case 2:
		p.start(xw.Elem{Prefix: "p", Name: name})
		names = []string{"p", other}
	case 3:
		p.start(xw.DTD{Name: name})
		kind = xw.DTDNode
	case 4:
		p.start(xw.DTD{Name: "d"})
		p.start(xw.DTDAttList{Name: name})
		kind = xw.DTDAttListNode
	}
	call := func(w *xw.Writer) error { return w.End(kind, names...) }
	switch sym.Choice(3) {
	case 1:
		call = func(w *xw.Writer) error { return w.EndToDepth(w.Depth()-1, kind, names...) }
	case 2:
		if kind != xw.ElemNode {
			sym.Stop()
		}
		call = func(w *xw.Writer) error { return w.EndElem(names...) }
	}
	if matches(p.m.top(), kind, names) {
		p.same(call)
		p.m.pop()
		sym.Cover("ended")
	} else {
		p.refused(call, "End with another name")
		sym.Cover("not ended")
	}
	p.compare()
}

var _ = reg("C08_long", C08_long)

// C08_failed: a node which could not be started is not open.
// Bound: in each of 18 places, a node of 6 kinds which is refused for its name, one of 1-40 attributes, a prefix of two
// URIs, its version or encoding, or its IDs, started or written; then the nodes which are open are ended one by one.
func C08_failed() {
	p := newPair()
	pl := sym.Choice(places)
	p.script(func(s *script) { s.place(pl) })
	var n xw.Startable
	e := xw.Elem{Name: "e"}
	bad := "-" + letter()
	kind := sym.Choice(10)
	switch kind {
	case 0:
		n = xw.Elem{Name: bad}
	case 1:
		n = xw.Elem{}
	case 2, 3, 4:
		k := []int{1, 2, 8, 9, 17, 40}[sym.Choice(6)]
		for i := 0; i < k; i++ {
			e.Attrs = append(e.Attrs, xw.Attr{Name: num(i)})
		}
		a := &e.Attrs[[]int{0, k - 1}[sym.Choice(2)]]
		switch kind {
		case 2:
			a.Name = bad
		case 3:
			a.URI = "u"
		case 4:
			e.Prefix, e.URI = "p", "u"
			a.Prefix, a.URI = "p", "v"
		}
		n = e
	case 5:
		n = xw.Doc{}.ForceEncoding(bad)
	case 6:
		n = xw.DTD{Name: bad}
	case 7:
		n = xw.DTD{Name: "d", PublicID: "p"}
	case 8:
		n = xw.DTD{Name: "d", SystemID: "\"'"}
	case 9:
		n = xw.DTDAttList{Name: bad}
	}
	d := p.w.Depth()
	call := func() error { return p.w.Start(n) }
	if w, ok := n.(xw.Writable); ok && sym.Choice(2) == 1 {
		call = func() error { return p.w.Write(w) }
	}
	sym.Assert(call() != nil, "a node which must be refused was accepted")
	sym.Assert(p.w.Depth() == d, "a node which was not started counts")
	for d >= 0 {
		t := p.m.top()
		switch {
		case t.kind == xw.ElemNode:
			ok(p.w.End(t.kind, t.prefix, t.name), "End")
		case t.kind == xw.DTDNode || t.kind == xw.DTDAttListNode:
			ok(p.w.End(t.kind, t.name), "End")
		default:
			ok(p.w.End(t.kind), "End")
		}
		p.m.pop()
		d--
		sym.Assert(p.w.Depth() == d, "depth after End")
	}
	sym.Assert(p.w.EndAny() != nil, "EndAny with nothing open")
	sym.Cover("not started")
}

var _ = reg("C08_failed", C08_failed)

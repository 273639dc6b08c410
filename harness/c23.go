package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// The steps a writer must tell its Indenter about, from the calls of a script.

type step struct {
	state xw.NodeState
	kind  xw.NodeKind
	last  xw.Event // what the step before left
	kids  bool     // of a node that ends: were there any?
}

type wnode struct {
	kind   xw.NodeKind
	node   xw.Startable
	opened bool
	kids   int
}

type watch struct {
	st    []wnode
	steps []step
	wraps []string
	last  xw.Event
	at    []int // steps before each call
}

func (t *watch) step(state xw.NodeState, kind xw.NodeKind, kids bool) {
	t.steps = append(t.steps, step{state, kind, t.last, kids})
	t.last = xw.Event{State: state, Node: kind}
}

// leaf is a node without a body.
func (t *watch) leaf(kind xw.NodeKind) {
	if n := len(t.steps); kind == xw.RawNode && n > 0 && t.steps[n-1].kind == xw.PINode {
		t.last = xw.Event{State: xw.StateEnded, Node: kind} // see recorder
		return
	}
	t.step(xw.StateOpen, kind, false)
	t.last.State = xw.StateEnded
}

func (t *watch) next() {
	if len(t.st) > 0 {
		t.st[len(t.st)-1].kids++
		t.open()
	}
}

// open closes the start of the current node, which writes what was given with it.
func (t *watch) open() {
	n := &t.st[len(t.st)-1]
	if n.opened {
		return
	}
	n.opened = true
	t.step(xw.StateOpened, n.kind, false)
	switch n := n.node.(type) {
	case xw.Elem:
		for _, c := range n.Content {
			t.write(c)
		}
	case xw.Comment:
		if n.Content != "" {
			t.write(xw.CommentContent(n.Content))
		}
	case xw.CData:
		if n.Content != "" {
			t.write(xw.CDataContent(n.Content))
		}
	case xw.DTDAttList:
		for _, a := range n.Attrs {
			t.write(a)
		}
	}
}

func (t *watch) start(n xw.Startable) {
	t.next()
	kind := kindOf(n)
	t.step(xw.StateOpen, kind, false)
	t.st = append(t.st, wnode{kind: kind, node: n})
	if e, ok := n.(xw.Elem); ok {
		for range e.Attrs {
			t.leaf(xw.AttrNode)
		}
	}
}

func (t *watch) end() {
	t.open()
	n := t.st[len(t.st)-1]
	t.step(xw.StateEnded, n.kind, n.kids > 0)
	t.st = t.st[:len(t.st)-1]
}

func (t *watch) write(n xw.Writable) {
	if s, ok := n.(xw.Startable); ok {
		t.start(s)
		t.end()
		return
	}
	kind := kindOf(n)
	switch n := n.(type) {
	case xw.Text:
		t.wraps = append(t.wraps, string(n))
	case xw.CommentContent:
		t.wraps = append(t.wraps, string(n))
	}
	if kind != xw.AttrNode && kind != xw.RawNode {
		t.next()
	}
	t.leaf(kind)
}

func kindOf(n xw.Node) xw.NodeKind {
	switch n.(type) {
	case xw.Doc:
		return xw.DocNode
	case xw.DTD:
		return xw.DTDNode
	case xw.DTDAttList:
		return xw.DTDAttListNode
	case xw.DTDAttr:
		return xw.DTDAttrNode
	case xw.DTDElem:
		return xw.DTDElemNode
	case xw.DTDEntity:
		return xw.DTDEntityNode
	case xw.Notation:
		return xw.NotationNode
	case xw.Elem:
		return xw.ElemNode
	case xw.Attr:
		return xw.AttrNode
	case xw.Comment:
		return xw.CommentNode
	case xw.CommentContent:
		return xw.CommentContentNode
	case xw.CData:
		return xw.CDataNode
	case xw.CDataContent:
		return xw.CDataContentNode
	case xw.PI:
		return xw.PINode
	case xw.Text:
		return xw.TextNode
	}
	return xw.RawNode
}

// watched is what a script does, ended with EndAllFlush.
func watched(p *script) *watch {
	t := &watch{}
	for _, o := range p.ops {
		t.at = append(t.at, len(t.steps))
		switch o.kind {
		case 's':
			t.start(o.node.(xw.Startable))
		case 'w':
			t.write(o.node.(xw.Writable))
		case 'b':
			t.start(o.node.(xw.Startable))
			t.end()
		case 'n':
			t.next()
		case 'e':
			t.end()
		default:
			t.leaf(xw.RawNode)
		}
	}
	t.at = append(t.at, len(t.steps))
	for len(t.st) > 0 {
		t.end()
	}
	return t
}

// recorder is an Indenter which notes what it is told, and may mark it in the output, fail, or rewrite text.
type recorder struct {
	steps []step
	wraps []string
	marks bool
	busy  bool
	fail  int // at this step; -1: never
	calls int
	wrap  func(s string) string
}

const markLen = 3

func (r *recorder) Indent(w *xw.Writer, last, next xw.Event) error {
	if r.busy {
		return nil // its own mark
	}
	if n := len(r.steps); next.Node == xw.RawNode && n > 0 && r.steps[n-1].kind == xw.PINode {
		return nil // a PI may write its content as raw text: what is raw after a PI is not looked at
	}
	r.calls++
	last.Children = 0
	r.steps = append(r.steps, step{next.State, next.Node, last, next.State == xw.StateEnded && next.Children > 0})
	if len(r.steps)-1 == r.fail {
		return errBad
	}
	if r.marks {
		r.busy = true
		err := w.WriteRaw(string([]byte{1, '0' + byte(next.State), 'A' + byte(next.Node)}))
		r.busy = false
		return err
	}
	return nil
}

func (r *recorder) Wrap(s string) string {
	r.wraps = append(r.wraps, s)
	if r.wrap != nil {
		return r.wrap(s)
	}
	return s
}

func withIndenter(i xw.Indenter) func(w *xw.Writer) { return func(w *xw.Writer) { w.Indenter = i } }

func sameSteps(a, b []step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// toldAll plays a script with an Indenter and without, and compares.
func (p *script) toldAll() {
	want := watched(p)
	r := &recorder{fail: -1}
	var out, ref sink
	w := xw.Open(&out, withIndenter(r))
	for i, c := range p.calls {
		sym.Assert(len(r.steps) == want.at[i], "an Indenter is not told every step in its call")
		ok(c(w), "a valid call")
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Observe("steps", len(r.steps))
	sym.Assert(sameSteps(r.steps, want.steps), "an Indenter is not told every step")
	sym.Assert(sameStrings(r.wraps, want.wraps), "text is not given to Wrap once")
	plain := xw.Open(&ref)
	p.play(plain)
	ok(plain.EndAllFlush(), "EndAllFlush")
	sym.Assert(string(out.b) == string(ref.b), "an Indenter which writes nothing changes the output")
}

// C23_steps: the Indenter is told every step of every node, once, in order.
// Bound: 7 documents with every kind of node, or 18 places with 2 (thorough: 3) arbitrary valid calls out of 49; ended by EndAllFlush.
func C23_steps() {
	p := anyScript(2 + sym.Tier())
	p.toldAll()
	sym.Cover("told")
}

var _ = reg("C23_steps", C23_steps)

// C23_bare: nodes with and without a body have the same steps.
// Bound: 15 nodes with content, attributes and name present or absent, in 4 contexts, written, started and ended, started and opened, or
// given with Block, with 0-2 empty or arbitrary one-byte pieces of content; another node after each.
func C23_bare() {
	p := &script{}
	ctx := sym.Choice(4)
	switch ctx {
	case 1:
		p.start(xw.Doc{})
	case 2:
		p.start(xw.Elem{Name: "o"})
	case 3:
		p.start(xw.DTD{Name: "d"})
	}
	s := []string{"", mark()}[sym.Choice(2)]
	nodes := []xw.Startable{
		xw.Comment{Content: s},
		xw.CData{Content: s},
		xw.Elem{Name: "e"},
		xw.Elem{Name: "e", Full: true},
		xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: "a", Value: s}}},
		xw.Elem{Name: "e", Content: []xw.Writable{}},
		xw.Elem{Name: "e", Content: []xw.Writable{xw.Text(s)}},
		xw.Elem{Name: "e", Content: []xw.Writable{xw.Comment{Content: s}, xw.CData{Content: s}}},
		xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: "a", Value: s}}, Content: []xw.Writable{xw.Elem{Name: "c", Content: []xw.Writable{xw.Text(s)}}}},
		xw.DTDAttList{Name: "l"},
		xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "a", Type: xw.DTDAttrString}}},
		xw.DTD{Name: "d"},
		xw.DTD{Name: "d", SystemID: s},
		xw.Doc{},
		xw.Doc{SuppressVersion: true, SuppressEncoding: true},
	}
	n := nodes[sym.Choice(len(nodes))]
	kind := kindOf(n)
	if !p.m.allows(kind) {
		sym.Stop()
	}
	pieces := func(k int) []xw.Writable {
		var ws []xw.Writable
		for i := 0; i < k; i++ {
			t := []string{"", mark()}[sym.Choice(2)]
			switch kind {
			case xw.CommentNode:
				ws = append(ws, xw.CommentContent(t))
			case xw.CDataNode:
				ws = append(ws, xw.CDataContent(t))
			case xw.ElemNode:
				ws = append(ws, xw.Text(t))
			case xw.DTDAttListNode:
				ws = append(ws, xw.DTDAttr{Name: "b", Type: xw.DTDAttrString})
			default:
				ws = append(ws, xw.Comment{Content: t})
			}
		}
		return ws
	}
	switch sym.Choice(4) {
	case 0:
		w, can := n.(xw.Writable)
		if !can {
			sym.Stop()
		}
		p.callAs(op{'w', n}, func(x *xw.Writer) error { return x.Write(w) })
	case 1:
		p.start(n)
		p.endAny()
	case 2:
		p.start(n)
		p.next()
		for _, c := range pieces(sym.Choice(2)) {
			p.write(c)
		}
		p.endAny()
	case 3:
		ws := pieces(sym.Choice(3))
		p.start(n)
		for _, c := range ws {
			p.write(c)
		}
		if sym.Choice(2) == 1 {
			p.endAny()
		} else {
			p.toldAll()
			sym.Cover("left open")
			return
		}
	}
	switch ctx {
	case 0:
		p.callAs(op{}, func(w *xw.Writer) error { return w.WriteRaw("") })
	case 2:
		p.write(xw.Text("t"))
	default:
		p.write(xw.Comment{})
	}
	p.toldAll()
	sym.Cover("told")
}

var _ = reg("C23_bare", C23_bare)

func hasPrefix(b []byte, s string) bool { return len(b) >= len(s) && string(b[:len(s)]) == s }

func hasBody(kind xw.NodeKind) bool {
	switch kind {
	case xw.DocNode, xw.DTDNode, xw.DTDAttListNode, xw.ElemNode, xw.CommentNode, xw.CDataNode:
		return true
	}
	return false
}

// begins: is b what may follow a step?
func begins(s step, before, b []byte) bool {
	starts := map[xw.NodeKind]string{
		xw.DocNode: "<?xml ", xw.DTDNode: "<!DOCTYPE ", xw.DTDAttListNode: "<!ATTLIST ", xw.DTDAttrNode: " ", xw.DTDElemNode: "<!ELEMENT ",
		xw.DTDEntityNode: "<!ENTITY ", xw.NotationNode: "<!NOTATION ", xw.ElemNode: "<", xw.AttrNode: " ", xw.CommentNode: "<!--", xw.CDataNode: "<![CDATA[", xw.PINode: "<?",
	}
	switch s.state {
	case xw.StateOpen:
		return hasPrefix(b, starts[s.kind])
	case xw.StateOpened:
		switch s.kind {
		case xw.ElemNode:
			return hasPrefix(b, ">") || hasPrefix(b, "/>") || hasPrefix(b, " xmlns:")
		}
		return true
	}
	switch s.kind {
	case xw.ElemNode:
		return hasPrefix(b, "</") || len(before) >= 2 && string(before[len(before)-2:]) == "/>"
	case xw.CommentNode:
		return hasPrefix(b, "-->")
	case xw.CDataNode:
		return hasPrefix(b, "]]>")
	case xw.DTDNode:
		return hasPrefix(b, ">") || hasPrefix(b, "]>")
	case xw.DTDAttListNode:
		return hasPrefix(b, ">")
	}
	return true
}

// C23_marks: what an Indenter writes is written there, and nothing else changes.
// Bound: as C23_steps; a mark of 3 bytes at every step; default buffer or (thorough) 16 bytes.
func C23_marks() {
	p := anyScript(2 + sym.Tier())
	want := watched(p)
	r := &recorder{fail: -1, marks: true}
	var out, ref sink
	opts := []xw.Option{withIndenter(r)}
	if sym.Tier() > 0 && sym.Choice(2) == 1 {
		opts = append(opts, withBuf(16))
	}
	w := xw.Open(&out, opts...)
	p.play(w)
	ok(w.EndAllFlush(), "EndAllFlush")
	plain := xw.Open(&ref)
	p.play(plain)
	ok(plain.EndAllFlush(), "EndAllFlush")
	sym.Observe("out", out.b)
	// take the marks out
	var rest []byte
	var pos []int
	for i := 0; i < len(out.b); i++ {
		if out.b[i] == 1 {
			n := len(pos)
			sym.Assert(n < len(want.steps) && i+2 < len(out.b), "a mark too many")
			s := want.steps[n]
			sym.Assert(out.b[i+1] == '0'+byte(s.state) && out.b[i+2] == 'A'+byte(s.kind), "what an Indenter writes is not in order")
			pos = append(pos, len(rest))
			i += 2
			continue
		}
		rest = append(rest, out.b[i])
	}
	sym.Assert(len(pos) == len(want.steps), "what an Indenter writes is missing")
	sym.Assert(string(rest) == string(ref.b), "what an Indenter writes changes the rest")
	var starts []int
	for i, at := range pos {
		s := want.steps[i]
		sym.Assert(begins(s, rest[:at], rest[at:]), "what an Indenter writes is in the wrong place")
		switch s.state {
		case xw.StateOpen:
			if hasBody(s.kind) {
				starts = append(starts, at)
			}
		case xw.StateOpened:
			sym.Assert(at > starts[len(starts)-1], "what an Indenter writes is in the wrong place")
		case xw.StateEnded:
			starts = starts[:len(starts)-1]
		}
	}
	sym.Cover("marked")
}

var _ = reg("C23_marks", C23_marks)

// C23_error: an error of the Indenter is an error of the call.
// Bound: as C23_steps with 1 call; a failure at any step; enforcement on or off.
func C23_error() {
	p := anyScript(1)
	want := watched(p)
	n := len(want.steps)
	k := sym.Choice(40)
	if k >= n {
		sym.Stop()
	}
	r := &recorder{fail: k}
	var out sink
	w := xw.Open(&out, withIndenter(r))
	w.Enforce = sym.Choice(2) == 0
	for i, c := range p.calls {
		if want.at[i] <= k && k < want.at[i+1] {
			err := c(w)
			sym.Observe("err", err == nil)
			sym.Assert(err == errBad, "an error of the Indenter is not returned")
			sym.Cover("failed")
			return
		}
		ok(c(w), "a valid call")
	}
	sym.Assert(w.EndAllFlush() == errBad, "an error of the Indenter is not returned")
	sym.Cover("failed")
}

var _ = reg("C23_error", C23_error)

// C23_wrap: what Wrap returns is what is written, as any other text.
// Bound: Text or comment content of 0-2 arbitrary bytes, given in 4 ways each, Wrap appending 1 arbitrary byte (quick: ASCII), prepending it,
// returning it alone or nothing; strict; against the same text written without Indenter.
func C23_wrap() {
	s := ""
	switch sym.Choice(3) {
	case 1:
		s = sym.StringN(1)
	case 2:
		s = "x" + sym.StringN(1)
	}
	u := sym.StringN(1)
	if sym.Tier() == 0 {
		sym.Assume(u[0] < 0x80)
	}
	how := sym.Choice(4)
	r := &recorder{fail: -1, wrap: func(s string) string {
		return []string{s + u, u + s, u, ""}[how]
	}}
	wrapped := r.wrap(s)
	way := sym.Choice(8)
	put := func(w *xw.Writer, s string) error {
		if way >= 4 {
			err := w.Start(xw.Elem{Name: "e"})
			ok(err, "Start")
		}
		switch way {
		case 0:
			return w.Write(xw.Text(s))
		case 1:
			return w.WriteCommentContent(s)
		case 2:
			ok(w.Start(xw.Comment{Content: s}), "Start")
			return w.Next()
		case 3:
			return w.Write(xw.Comment{Content: s})
		case 4:
			return w.WriteText(s)
		case 5:
			return w.Write(xw.Elem{Name: "c", Content: []xw.Writable{xw.Text(s)}})
		case 6:
			ok(w.Start(xw.Comment{}), "Start")
			return w.Write(xw.CommentContent(s))
		}
		return w.Block(xw.Elem{Name: "d"}, xw.Text("t"), xw.Comment{Content: s})
	}
	if s == "" && (way == 2 || way == 3 || way == 7) {
		sym.Stop() // no content
	}
	var a, b sink
	wa, wb := xw.Open(&a, withIndenter(r)), xw.Open(&b)
	if way == 7 {
		r.wrap = func(t string) string {
			if t == "t" {
				return t
			}
			return []string{t + u, u + t, u, ""}[how]
		}
		if s == "t" {
			sym.Stop()
		}
	}
	if wrapped == "" && (way == 2 || way == 3 || way == 7) {
		// there is no comment content to compare with
		wb = nil
	}
	errA := put(wa, s)
	if wb == nil {
		ok(errA, "empty content")
		sym.Cover("empty")
		return
	}
	errB := put(wb, wrapped)
	sym.Observe("err", errA == nil)
	sym.Assert((errA == nil) == (errB == nil), "wrapped text is accepted or refused otherwise")
	if errA != nil {
		sym.Cover("refused")
		return
	}
	errA, errB = wa.EndAllFlush(), wb.EndAllFlush()
	sym.Assert((errA == nil) == (errB == nil), "wrapped text is accepted or refused otherwise")
	sym.Observe("out", a.b)
	sym.Assert(string(a.b) == string(b.b), "what Wrap returns is not what is written")
	sym.Cover("wrapped")
}

var _ = reg("C23_wrap", C23_wrap)

// delegate is an Indenter which leaves everything to another one.
type delegate struct{ to xw.Indenter }

func (d delegate) Indent(w *xw.Writer, last, next xw.Event) error { return d.to.Indent(w, last, next) }
func (d delegate) Wrap(s string) string                           { return d.to.Wrap(s) }

// C23_delegate: an Indenter may be put around another one.
// Bound: as C23_steps, with 2 calls; the StandardIndenter, with 3 indent strings, directly or behind 1 or 2 others.
func C23_delegate() {
	p := anyScript(2)
	indent := []string{" ", "\t\t", ""}[sym.Choice(3)]
	std := func() xw.Indenter {
		si := xw.NewStandardIndenter()
		si.IndentString = indent
		return si
	}
	var i xw.Indenter = delegate{std()}
	if sym.Choice(2) == 1 {
		i = &delegate{i}
	}
	var a, b, c sink
	wa, wb, wc := xw.Open(&a, withIndenter(i)), xw.Open(&b, withIndenter(std())), xw.Open(&c, xw.WithIndentString(indent))
	for _, w := range []*xw.Writer{wa, wb, wc} {
		p.play(w)
		ok(w.EndAllFlush(), "EndAllFlush")
	}
	sym.Observe("out", a.b)
	sym.Assert(string(a.b) == string(b.b), "an Indenter behaves otherwise behind another one")
	sym.Assert(string(b.b) == string(c.b), "WithIndentString is not the same as an Indenter with that string")
	sym.Cover("delegated")
}

var _ = reg("C23_delegate", C23_delegate)

package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// chunk flushes and gives what has been delivered since the last chunk.
func (t *tw) chunk() string {
	n := t.seen
	ok(t.w.Flush(), "Flush")
	t.seen = len(t.out.b)
	return string(t.out.b[n:])
}

// rawCall writes raw text in one of several ways.
func rawCall(w *xw.Writer, how int, s string) {
	switch how {
	case 0:
		ok(w.WriteRaw(s), "WriteRaw")
	case 1:
		ok(w.Write(xw.Raw(s)), "Write")
	case 2:
		ok(w.Write(xw.Raw(s[:len(s)/2]), xw.Raw(s[len(s)/2:])), "Write")
	}
}

// somewhere opens one of the 18 places, or one of some with pending Content, or inside others.
func somewhere(p *script, i int) {
	switch i {
	case places: // Content not yet written
		p.start(xw.Elem{Name: letter(), Attrs: tattrs(1), Content: []xw.Writable{xw.Text(mark()), xw.Elem{Name: letter()}}})
	case places + 1: // definitions not yet written
		p.start(xw.DTD{Name: letter()})
		p.start(xw.DTDAttList{Name: letter(), Attrs: []xw.DTDAttr{{Name: letter(), Type: xw.DTDAttrID}}})
	case places + 2:
		p.start(xw.Elem{Name: letter(), Full: true})
	case places + 3:
		for i := 0; i < 9; i++ {
			p.start(xw.Elem{Name: letter()})
			p.write(xw.Text(mark()))
		}
		p.start(xw.Elem{Name: letter()})
	default:
		p.place(i)
	}
}

const somewheres = places + 4

// C18_raw: raw text is in the output at its place, and nothing else changes.
// Bound: 22 places and states, raw text of up to 3 arbitrary bytes (thorough: 4) by 3 calls, directly or
// after Next, enforcement on or off; then one (thorough: two) of 46 calls that
// are allowed; compared with the same calls without it.
func C18_raw() {
	t, u := open(), open()
	if sym.Choice(2) == 1 {
		t.w.Enforce, u.w.Enforce = false, false
	}
	p := &script{}
	somewhere(p, sym.Choice(somewheres))
	p.play(t.w)
	p.play(u.w)
	if sym.Choice(2) == 1 {
		ok(t.w.Next(), "Next")
		ok(u.w.Next(), "Next")
		if p.m.top() != nil {
			p.m.child()
		}
	}
	s := sym.String(3 + sym.Tier())
	d := t.w.Depth()
	a := t.chunk()
	rawCall(t.w, sym.Choice(3), s)
	sym.Assert(t.w.Depth() == d, "raw text changed the depth")
	sym.Assert(t.chunk() == s, "raw text is not written as it is, at once")
	// what comes after
	for i := 0; i < 1+sym.Tier(); i++ {
		c := carry(sym.Choice(carriers), string([]byte{'y' + byte(i)}))
		if !p.m.allows(c.kind) {
			sym.Stop()
		}
		ok(c.call(t.w), "a valid call after raw text")
		ok(c.call(u.w), "a valid call")
		p.m.carried(c)
	}
	ok(t.w.EndAllFlush(), "EndAllFlush")
	ok(u.w.EndAllFlush(), "EndAllFlush")
	sym.Observe("out", t.out.b)
	without := string(u.out.b)
	sym.Assert(len(a) <= len(without) && string(t.out.b) == without[:len(a)]+s+without[len(a):], "raw text changed something else")
	sym.Cover("raw")
}

// C18_indent: with an indenter only white space is put around raw text.
// Bound: 22 places and states, raw text of up to 2 arbitrary bytes (thorough: 3), with indenter.
func C18_indent() {
	t := open(xw.WithIndent())
	p := &script{}
	somewhere(p, sym.Choice(somewheres))
	p.play(t.w)
	if sym.Choice(2) == 1 {
		ok(t.w.Next(), "Next")
	}
	s := sym.String(2 + sym.Tier())
	t.chunk()
	rawCall(t.w, sym.Choice(2), s)
	got := t.chunk()
	sym.Assert(len(got) >= len(s), "raw text is missing")
	for i := 0; i < len(got)-len(s); i++ {
		sym.Assert(got[i] == '\n' || got[i] == ' ', "raw text is not written as it is")
	}
	sym.Assert(got[len(got)-len(s):] == s, "raw text is not written as it is")
	ok(t.w.EndAllFlush(), "EndAllFlush")
	sym.Observe("out", t.out.b)
	sym.Cover("raw")
}

// C18_next: Next opens what is pending, once.
// Bound: 22 places and states, up to 3 calls of Next, then one of 46 calls which must give the same as without
// Next (quick: 12).
func C18_next() {
	t, u := open(), open()
	if sym.Choice(2) == 1 {
		t.w.Enforce, u.w.Enforce = false, false
	}
	p := &script{}
	i := sym.Choice(somewheres)
	somewhere(p, i)
	p.play(t.w)
	p.play(u.w)
	t.chunk()
	d := t.w.Depth()
	n := 1 + sym.Choice(3)
	want := pendingText(&p.m)
	for j := 0; j < n; j++ {
		ok(t.w.Next(), "Next")
		got := t.chunk()
		sym.Assert(t.w.Depth() == d, "Next changed the depth")
		if j > 0 {
			sym.Assert(got == "", "a second Next wrote something")
		} else if i != places && i != places+1 {
			sym.Assert(got == want, "Next did not open what was pending, or something else")
		}
	}
	if p.m.top() != nil {
		p.m.child()
	}
	c := carry(sym.Choice(carriers), "z")
	if !p.m.allows(c.kind) || c.kind == xw.RawNode {
		// an attribute is too late now
		if c.kind == xw.AttrNode && p.m.cur() == xw.ElemNode && t.w.Enforce {
			sym.Assert(c.call(t.w) != nil, "an attribute was accepted after Next")
			sym.Assert(t.chunk() == "", "a refused attribute was written")
			sym.Cover("attribute refused")
		}
		return
	}
	ok(c.call(t.w), "a valid call after Next")
	ok(c.call(u.w), "a valid call")
	ok(t.w.EndAllFlush(), "EndAllFlush")
	ok(u.w.EndAllFlush(), "EndAllFlush")
	sym.Observe("out", t.out.b)
	sym.Assert(string(t.out.b) == string(u.out.b), "Next changed what comes after it")
	sym.Cover("same as without")
}

// pendingText is what Next has to write: the end of a start tag, the bracket of an internal
// subset, or Content.
func pendingText(m *model) string {
	top := m.top()
	if top == nil || top.opened {
		return ""
	}
	switch top.kind {
	case xw.ElemNode:
		return ">"
	case xw.DTDNode:
		return " ["
	case xw.CommentNode, xw.CDataNode: // its Content
		return m.evs[top.ev].val
	}
	return ""
}

// C18_tag: raw text inside a start tag, and after it.
// Bound: raw attributes of up to 2 arbitrary bytes before Next and raw content of up to 2 after it, with
// attributes and a child, or not; the exact output.
func C18_tag() {
	t := open()
	a, b := sym.String(2), sym.String(2)
	want := "<e"
	ok(t.w.Start(xw.Elem{Name: "e"}), "Start")
	if sym.Choice(2) == 1 {
		ok(t.w.Write(xw.Attr{Name: "k", Value: "v"}), "Write")
		want += " k=\"v\""
	}
	ok(t.w.WriteRaw(a), "WriteRaw")
	want += a
	if sym.Choice(2) == 1 {
		ok(t.w.Write(xw.Attr{Name: "l", Value: "w"}), "Write")
		want += " l=\"w\""
	}
	ok(t.w.Next(), "Next")
	ok(t.w.WriteRaw(b), "WriteRaw")
	want += ">" + b
	if sym.Choice(2) == 1 {
		ok(t.w.Write(xw.Elem{Name: "f"}), "Write")
		ok(t.w.WriteRaw(a), "WriteRaw")
		want += "<f/>" + a
	}
	ok(t.w.EndAllFlush(), "EndAllFlush")
	sym.Observe("out", t.out.b)
	sym.Assert(string(t.out.b) == want+"</e>", "raw text is not where it was written")
	sym.Cover("tag")
}

var _ = reg("C18_raw", C18_raw)
var _ = reg("C18_indent", C18_indent)
var _ = reg("C18_next", C18_next)
var _ = reg("C18_tag", C18_tag)

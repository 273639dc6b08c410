package main

import (
	"strconv"

	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// kindNames are the stable names of the kinds, in the order of the constants.
var kinds24 = []struct {
	kind xw.NodeKind
	name string
}{
	{xw.NoNode, "none"}, {xw.AttrNode, "attr"}, {xw.CDataNode, "cdata"}, {xw.CDataContentNode, "cdatacontent"},
	{xw.CommentNode, "comment"}, {xw.CommentContentNode, "commentcontent"}, {xw.DTDNode, "dtd"}, {xw.DTDAttListNode, "dtdattlist"},
	{xw.DTDAttrNode, "dtdattr"}, {xw.DTDElemNode, "dtdelem"}, {xw.DTDEntityNode, "dtdentity"}, {xw.DocNode, "document"},
	{xw.ElemNode, "elem"}, {xw.NotationNode, "notation"}, {xw.PINode, "pi"}, {xw.RawNode, "raw"}, {xw.TextNode, "text"},
}

// nameOf is the name that the documentation gives a kind; the empty one for what is no kind.
func nameOf(k xw.NodeKind) string {
	for _, c := range kinds24 {
		if c.kind == k {
			return c.name
		}
	}
	return ""
}

// C24_kind: every kind has its name, and nothing else has one.
// Bound: none: every value of the type.
func C24_kind() {
	k := xw.NodeKind(int(sym.Uint64()))
	name := k.Name()
	sym.Observe("name", name)
	sym.Assert(name == nameOf(k), "not the name of the kind")
	if name == "" {
		sym.Cover("no kind")
	} else {
		sym.Cover("kind")
	}
}

// someInt is a small number or an extreme one.
func someInt(small int) int {
	extremes := []int{1 << 31, 1<<63 - 1, -1 << 63, -1<<31 - 1, 65536, 256, -256}
	if i := sym.Choice(len(extremes) + 1); i < len(extremes) {
		return extremes[i]
	}
	n := int(int16(sym.Uint16()))
	sym.Assume(n >= -small && n <= small)
	return n
}

// C24_kindString: the human-readable form tells the name and the value.
// Bound: every value from -9999 to 9999, and seven large ones.
func C24_kindString() {
	k := xw.NodeKind(someInt(9999))
	text := k.String()
	sym.Observe("text", text)
	name := nameOf(k)
	if name == "" {
		name = "<unknown>"
	}
	sym.Assert(text == name+"("+strconv.Itoa(int(k))+")", "not the name and the value of the kind")
	sym.Cover("string")
}

// C24_state: every state has its name, and nothing else has one.
// Bound: none: every value of the type.
func C24_state() {
	s := xw.NodeState(int(sym.Uint64()))
	name := s.Name()
	sym.Observe("name", name)
	want := ""
	switch s {
	case xw.StateOpen:
		want = "open"
	case xw.StateOpened:
		want = "opened"
	case xw.StateEnded:
		want = "ended"
	}
	sym.Assert(name == want, "not the name of the state")
	sym.Cover("state")
}

// C24_event: an event tells its state, its kind and the number of children.
// Bound: every state, and every other value from -99 to 99, or one of seven large ones; kinds and children likewise
// (to 999), two of the three at a time.
func C24_event() {
	e := xw.Event{State: xw.StateOpened, Node: xw.ElemNode, Children: 1}
	which := sym.Choice(3)
	if which != 0 {
		e.State = xw.NodeState(someInt(99))
	}
	if which != 1 {
		e.Node = xw.NodeKind(someInt(999))
	}
	if which != 2 {
		e.Children = someInt(999)
	}
	text := e.String()
	sym.Observe("text", text)
	want := strconv.Itoa(int(e.State)) + "\t" + nameOf(e.Node) + "\t+" + strconv.Itoa(e.Children)
	sym.Assert(text == want, "not the state, the kind and the children of the event")
	sym.Cover("event")
}

var (
	_ = reg("C24_kind", C24_kind)
	_ = reg("C24_kindString", C24_kindString)
	_ = reg("C24_state", C24_state)
	_ = reg("C24_event", C24_event)
)

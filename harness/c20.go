package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// maybe is the empty string or a symbolic letter, in turn.
func maybe() string {
	if sym.Choice(2) == 0 {
		return ""
	}
	return letter()
}

// dtdStart opens something to write declarations in: nothing, a DTD, a DTD with an external ID, a DTD
// in a document, or one with a declaration already.
func dtdStart(t *tw, i int) {
	switch i {
	case 0:
	case 1:
		t.start(xw.DTD{Name: letter()})
	case 2:
		t.start(xw.DTD{Name: letter(), PublicID: letter(), SystemID: mark()})
	case 3:
		t.start(xw.Doc{})
		t.write(xw.Comment{Content: mark()})
		t.start(xw.DTD{Name: letter(), SystemID: mark()})
	case 4:
		t.start(xw.DTD{Name: letter()})
		t.write(xw.DTDElem{Name: letter(), Decl: xw.DTDElemAny})
	}
}

const dtdStarts = 5

// declare writes a declaration, which must be accepted or refused. A refused one ends the path.
func (t *tw) declare(n xw.Writable, good bool) {
	d := t.w.Depth()
	var err error
	_, list := n.(xw.DTDAttList)
	how := 0
	if list {
		how = sym.Choice(2)
	}
	switch n := n.(type) {
	case xw.DTDElem:
		err = t.w.WriteDTDElem(n)
	case xw.DTDEntity:
		err = t.w.WriteDTDEntity(n)
	case xw.Notation:
		err = t.w.WriteNotation(n)
	case xw.DTDAttList:
		if how == 1 {
			err = t.w.StartDTDAttList(n)
			if err == nil {
				err = t.w.EndDTDAttList()
			}
		} else {
			err = t.w.WriteDTDAttList(n)
		}
	case xw.DTDAttr:
		err = t.w.WriteDTDAttr(n)
	default:
		panic("declare")
	}
	if !good {
		sym.Assert(err != nil, "a contradictory or incomplete declaration was accepted")
		if !list {
			sym.Assert(t.w.Depth() == d, "a refused declaration changed the depth")
		}
		sym.Cover("refused")
		sym.Stop()
	}
	ok(err, "a declaration")
	sym.Assert(t.w.Depth() == d, "a declaration changed the depth")
	t.m.write(n)
	sym.Cover("accepted")
}

func anyEntity(name string) (xw.DTDEntity, bool) {
	n := xw.DTDEntity{Name: name, Content: maybe(), IsPE: sym.Choice(2) == 1, PublicID: maybe(), SystemID: maybe(), NDataID: maybe()}
	good := n.Name != ""
	if n.PublicID != "" || n.SystemID != "" {
		good = good && n.SystemID != "" && n.Content == "" && !(n.IsPE && n.NDataID != "")
	} else {
		good = good && n.NDataID == ""
	}
	return n, good
}

func anyNotation(name string) (xw.Notation, bool) {
	n := xw.Notation{Name: name, PublicID: maybe(), SystemID: maybe()}
	return n, n.Name != "" && (n.PublicID != "" || n.SystemID != "")
}

var dtdTypes = []xw.DTDAttrType{"", xw.DTDAttrString, xw.DTDAttrID, xw.DTDAttrIDRef, xw.DTDAttrIDRefs, xw.DTDAttrEntity, xw.DTDAttrEntities, xw.DTDAttrNmtoken, xw.DTDAttrNmtokens}

// anyDef has a default type that is any int whatever.
func anyDef(name string, typ xw.DTDAttrType) (xw.DTDAttr, bool) {
	d := int(int64(sym.Uint64()))
	n := xw.DTDAttr{Name: name, Type: typ, Default: xw.DTDAttrDefaultType(d), Value: maybe()}
	good := n.Name != "" && n.Type != ""
	switch {
	case d < 0 || d > 4:
		return n, false
	case d == 0:
		n.Default = xw.DTDAttrInfer
	case d == 1:
		n.Default = xw.DTDAttrDefault
	case d == 2:
		n.Default = xw.DTDAttrRequired
		good = good && n.Value == ""
	case d == 3:
		n.Default = xw.DTDAttrImplied
		good = good && n.Value == ""
	case d == 4:
		n.Default = xw.DTDAttrFixed
	}
	return n, good
}

var contentSpecs = []string{"", xw.DTDElemEmpty, xw.DTDElemAny, "(#PCDATA)", "(a|b)*", "(a,(b|c)+,d?)"}

// C20_each: each kind of declaration with each part given or not.
// Bound: 5 places; entities with every combination of name, value, public and system ID, NDATA and %; notations
// with name, public and system ID or not; element declarations with or without name and with 6 content
// specifications; attribute lists with or without name; symbolic letters; with and without indenter.
func C20_each() {
	t := open(indents(sym.Choice(2))()...)
	dtdStart(t, sym.Choice(dtdStarts))
	name := maybe()
	switch sym.Choice(4) {
	case 0:
		n, good := anyEntity(name)
		t.declare(n, good)
	case 1:
		n, good := anyNotation(name)
		t.declare(n, good)
	case 2:
		n := xw.DTDElem{Name: name, Decl: contentSpecs[sym.Choice(len(contentSpecs))]}
		t.declare(n, name != "" && n.Decl != "")
	case 3:
		t.declare(xw.DTDAttList{Name: name}, name != "")
	}
	t.finish()
}

// C20_attrs: attribute definitions.
// Bound: up to 2 definitions, given with the list or by themselves or outside a list; 9 types (quick: 4 for the
// second), every int as default type, value or not, name or not; 3 places.
func C20_attrs() {
	t := open(indents(sym.Choice(2))()...)
	dtdStart(t, sym.Choice(3))
	n := 1 + sym.Choice(2)
	how := sym.Choice(4)
	list := xw.DTDAttList{Name: letter()}
	good := true
	var defs []xw.DTDAttr
	for i := 0; i < n; i++ {
		name := letter()
		types := len(dtdTypes)
		if i == 1 && sym.Tier() == 0 {
			types = 3
		} else if sym.Choice(2) == 0 {
			name = ""
		}
		d, g := anyDef(name, dtdTypes[sym.Choice(types)])
		defs = append(defs, d)
		good = good && g
		if !g {
			break
		}
	}
	switch how {
	case 0: // with the list
		list.Attrs = defs
		t.declare(list, good)
	case 1: // by themselves
		t.start(list)
		for i, d := range defs {
			t.declare(d, good || i < len(defs)-1)
		}
	case 2: // both
		if n < 2 || len(defs) < 2 {
			sym.Stop()
		}
		list.Attrs = defs[:1]
		t.start(list)
		t.declare(defs[1], good)
		t.end()
	case 3: // outside
		if t.m.top() != nil {
			sym.Stop()
		}
		for i, d := range defs {
			t.declare(d, good || i < len(defs)-1)
		}
		t.m.bare = true
	}
	t.finish()
}

// C20_values: the values of attribute definitions and of entities, and IDs, in declarations.
// Bound: one definition of an attribute list with a value of 0-2 arbitrary ASCII characters, plain or
// fixed, given with the list, by itself or outside; an entity with such a value (without %, & and both
// quotes), or with such IDs; with and without indenter.
func C20_values() {
	t := open(indents(sym.Choice(2))()...)
	val := func(bad string) string {
		s := ""
		for i, n := 0, sym.Choice(3); i < n; i++ {
			c := sym.Byte()
			sym.Assume(and(c < 0x7f, or(c >= ' ', or(c == '\t', c == '\n'))))
			for j := range bad {
				sym.Assume(c != bad[j])
			}
			s += string([]byte{c})
		}
		return s
	}
	switch sym.Choice(4) {
	case 0:
		d := xw.DTDAttr{Name: letter(), Type: xw.DTDAttrString, Value: val("")}
		switch sym.Choice(3) {
		case 0:
			d.Default = xw.DTDAttrDefault
		case 1:
			d.Default = xw.DTDAttrFixed
		}
		list := xw.DTDAttList{Name: letter()}
		switch sym.Choice(3) {
		case 0:
			list.Attrs = []xw.DTDAttr{d}
			t.declare(list, true)
		case 1:
			t.start(list)
			t.declare(d, true)
			t.end()
		case 2:
			t.declare(d, true)
			t.m.bare = true
		}
	case 1:
		v := val("%&\"")
		if v == "" {
			sym.Stop()
		}
		t.declare(xw.DTDEntity{Name: letter(), Content: v, IsPE: sym.Choice(2) == 1}, true)
	case 2:
		v := val("'")
		if v == "" {
			sym.Stop()
		}
		t.declare(xw.DTDEntity{Name: letter(), SystemID: v, IsPE: sym.Choice(2) == 1}, true)
	case 3:
		v, u := val("\"&<>[]^`{|}~\\'\t"), val("'")
		if v == "" {
			sym.Stop()
		}
		t.declare(xw.Notation{Name: letter(), PublicID: v, SystemID: u}, true)
	}
	t.finish()
}

// C20_dtd: the DOCTYPE itself.
// Bound: name, public and system ID given or not, alone or in a document, 6 ways of starting and ending it,
// with up to 2 declarations or comments inside; with and without indenter.
func C20_dtd() {
	t := open(indents(sym.Choice(2))()...)
	if sym.Choice(2) == 1 {
		t.start(xw.Doc{})
	}
	d := xw.DTD{Name: maybe(), PublicID: maybe(), SystemID: maybe()}
	good := d.Name != "" && (d.PublicID == "" || d.SystemID != "")
	depth := t.w.Depth()
	n := sym.Choice(3)
	var inner []xw.Writable
	for i := 0; i < n; i++ {
		switch sym.Choice(5) {
		case 0:
			inner = append(inner, xw.DTDElem{Name: letter(), Decl: "ANY"})
		case 1:
			inner = append(inner, xw.DTDEntity{Name: letter(), Content: letter()})
		case 2:
			inner = append(inner, xw.Comment{Content: mark()})
		case 3:
			inner = append(inner, xw.DTDAttList{Name: letter(), Attrs: []xw.DTDAttr{{Name: letter(), Type: xw.DTDAttrID}}})
		case 4:
			inner = append(inner, xw.Notation{Name: letter(), SystemID: mark()})
		}
	}
	start := sym.Choice(3)
	var err error
	switch start {
	case 0:
		err = t.w.Start(d)
	case 1:
		err = t.w.StartDTD(d)
	case 2:
		err = t.w.Block(d, inner...)
	}
	if !good {
		sym.Assert(err != nil, "an incomplete DTD was accepted")
		sym.Assert(t.w.Depth() == depth, "a refused DTD changed the depth")
		sym.Cover("refused")
		return
	}
	ok(err, "a DTD")
	t.m.start(d)
	for _, x := range inner {
		if start != 2 {
			ok(t.w.Write(x), "a declaration")
		}
		t.m.write(x)
	}
	if start != 2 {
		switch sym.Choice(3) {
		case 0:
			ok(t.w.EndDTD(), "EndDTD")
		case 1:
			ok(t.w.End(xw.DTDNode, d.Name), "End")
		case 2:
			ok(t.w.EndAny(), "EndAny")
		}
	}
	t.m.pop()
	sym.Assert(t.w.Depth() == depth, "depth after the DTD")
	if t.m.top() != nil {
		t.write(xw.Elem{Name: letter()})
	}
	ok(t.w.Flush(), "Flush")
	bracket := false
	for i := range t.out.b {
		bracket = or(bracket, t.out.b[i] == '[')
	}
	sym.Assert(bracket == (n > 0), "an internal subset without content, or content without one")
	sym.Cover("accepted")
	t.finish()
}

// C20_seq: sequences of declarations.
// Bound: 5 places, 4 (thorough: 5) steps out of 10 kinds of declaration and the end of a list,
// with symbolic letters, then the end of the DTD and a root element.
func C20_seq() {
	t := open(indents(sym.Choice(2))()...)
	dtdStart(t, sym.Choice(dtdStarts))
	for i := 0; i < 4+sym.Tier(); i++ {
		a, b := letter(), letter()
		inList := t.m.cur() == xw.DTDAttListNode
		k := sym.Choice(11)
		if inList != (k >= 9) {
			sym.Stop()
		}
		switch k {
		case 0:
			t.write(xw.DTDElem{Name: a, Decl: "(" + b + ")"})
		case 1:
			t.write(xw.DTDEntity{Name: a, Content: b})
		case 2:
			t.write(xw.DTDEntity{Name: a, SystemID: b, IsPE: true})
		case 3:
			t.write(xw.DTDEntity{Name: a, SystemID: "'", PublicID: b, NDataID: a})
		case 4:
			t.write(xw.Notation{Name: a, PublicID: b})
		case 5:
			t.write(xw.Notation{Name: a, PublicID: b, SystemID: "\""})
		case 6:
			t.write(xw.DTDAttList{Name: a, Attrs: []xw.DTDAttr{{Name: b, Type: xw.DTDAttrID, Default: xw.DTDAttrRequired}}})
		case 7:
			t.write(xw.Comment{Content: a})
		case 8:
			t.start(xw.DTDAttList{Name: a})
		case 9:
			t.write(xw.DTDAttr{Name: a, Type: xw.DTDAttrString, Value: "\"" + b})
		case 10:
			t.end()
		}
	}
	for t.m.top() != nil && t.m.cur() != xw.DocNode {
		t.end()
	}
	if t.m.top() != nil {
		t.write(xw.Elem{Name: letter()})
	}
	sym.Cover("sequence")
	t.finish()
}

// C20_verbatim: content specifications and types are written as they are.
// Bound: every string of 1 to 3 bytes (thorough: 4) as content specification or type.
func C20_verbatim() {
	var out sink
	w := xw.Open(&out)
	s := sym.StringN(1 + sym.Choice(3+sym.Tier()))
	want := "<!DOCTYPE d ["
	ok(w.Start(xw.DTD{Name: "d"}), "Start")
	if sym.Choice(2) == 0 {
		ok(w.Write(xw.DTDElem{Name: "e", Decl: s}), "Write")
		want += "<!ELEMENT e " + s + ">]>"
	} else {
		ok(w.Write(xw.DTDAttList{Name: "e", Attrs: []xw.DTDAttr{{Name: "a", Type: xw.DTDAttrType(s)}}}), "Write")
		want += "<!ATTLIST e a " + s + " #IMPLIED>]>"
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Observe("out", out.b)
	sym.Assert(string(out.b) == want, "not written as it is")
	sym.Cover("verbatim")
}

// C20_constants: the constants for content specifications, types and defaults are what XML calls them.
// Bound: each of the constants, in a declaration with any letter as its name. (DTDElemPCData, which lacks
// the parentheses, is a known finding.)
func C20_constants() {
	var s sink
	w := xw.Open(&s)
	name := letter()
	want := ""
	lacks := false
	switch sym.Choice(3) {
	case 0:
		d := []struct{ decl, want string }{{xw.DTDElemEmpty, "EMPTY"}, {xw.DTDElemAny, "ANY"}, {xw.DTDElemPCData, "(#PCDATA)"}}
		i := sym.Choice(len(d))
		lacks = i == 2
		ok(w.Write(xw.DTDElem{Name: name, Decl: d[i].decl}), "DTDElem")
		want = "<!ELEMENT " + name + " " + d[i].want + ">"
	case 1:
		d := []struct {
			typ  xw.DTDAttrType
			want string
		}{{xw.DTDAttrString, "CDATA"}, {xw.DTDAttrID, "ID"}, {xw.DTDAttrIDRef, "IDREF"}, {xw.DTDAttrIDRefs, "IDREFS"},
			{xw.DTDAttrEntity, "ENTITY"}, {xw.DTDAttrEntities, "ENTITIES"}, {xw.DTDAttrNmtoken, "NMTOKEN"}, {xw.DTDAttrNmtokens, "NMTOKENS"}}
		i := sym.Choice(len(d))
		ok(w.Write(xw.DTDAttr{Name: name, Type: d[i].typ}), "DTDAttr")
		want = name + " " + d[i].want + " #IMPLIED"
	case 2:
		d := []struct {
			def         xw.DTDAttrDefaultType
			value, want string
		}{{xw.DTDAttrInfer, "", "#IMPLIED"}, {xw.DTDAttrInfer, "v", "\"v\""}, {xw.DTDAttrDefault, "v", "\"v\""}, {xw.DTDAttrDefault, "", "\"\""},
			{xw.DTDAttrRequired, "", "#REQUIRED"}, {xw.DTDAttrImplied, "", "#IMPLIED"}, {xw.DTDAttrFixed, "v", "#FIXED \"v\""}}
		i := sym.Choice(len(d))
		ok(w.Write(xw.DTDAttr{Name: name, Type: "CDATA", Default: d[i].def, Value: d[i].value}), "DTDAttr")
		want = name + " CDATA " + d[i].want
	}
	ok(w.Flush(), "Flush")
	sym.Observe("out", s.b)
	out := string(s.b)
	for len(out) > 0 && (out[0] == ' ' || out[0] == '\n') {
		out = out[1:]
	}
	sym.AssertKnown("pcdata-decl", lacks && out == "<!ELEMENT "+name+" #PCDATA>", out == want, "a constant is not what XML calls it")
	sym.Cover("constant")
}

var _ = reg("C20_constants", C20_constants)
var _ = reg("C20_each", C20_each)
var _ = reg("C20_attrs", C20_attrs)
var _ = reg("C20_values", C20_values)
var _ = reg("C20_dtd", C20_dtd)
var _ = reg("C20_seq", C20_seq)
var _ = reg("C20_verbatim", C20_verbatim)

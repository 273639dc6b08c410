package main

import (
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// supportedStart and supportedChar are the part of the Name production the library promises to
// accept (TestCheckName pins that it refuses most of the rest).
func supportedStart(r rune) bool {
	return r == ':' || r == '_' || (r >= 'A' && r <= 'Z') || (r >= 'a' && r <= 'z') ||
		(r >= 0xC0 && r <= 0xD6) || (r >= 0xD8 && r <= 0xF6) || (r >= 0xF8 && r <= 0x2FF) || (r >= 0x370 && r <= 0x37D)
}

func supportedChar(r rune) bool {
	return supportedStart(r) || r == '-' || r == '.' || (r >= '0' && r <= '9') || r == 0xB7 || (r >= 0x300 && r <= 0x36F)
}

func and(a, b bool) bool { return sym.If(a, sym.If(b, 1, 0), 0) == 1 }

// nameClass says whether s is an XML Name, and whether it is one of those that must be accepted.
func nameClass(s string) (isName, must bool) {
	if s == "" {
		return false, false
	}
	isName, must = true, true
	for i := 0; i < len(s); {
		r, w0 := utf8.DecodeRuneInString(s[i:])
		w := sym.Pin(w0)
		if w == 1 {
			// one byte: ASCII, or not UTF-8 at all (U+FFFD is itself a name character)
			if s[i] >= 0x80 {
				return false, false
			}
		}
		if i == 0 {
			isName, must = and(isName, xmlNameStart(r)), and(must, supportedStart(r))
		} else {
			isName, must = and(isName, xmlNameChar(r)), and(must, supportedChar(r))
		}
		i += w
	}
	return
}

// C03_check: CheckName itself.
// Bound: every byte string of 1 to 5 bytes.
func C03_check() {
	s := sym.StringN(1 + sym.Choice(5))
	isName, must := nameClass(s)
	err := xw.CheckName(s)
	sym.Observe("err", err == nil)
	sym.Cover("check")
	if err == nil {
		sym.Assert(isName, "CheckName accepts something that is not a Name")
	} else {
		sym.Assert(!must, "CheckName refuses a supported Name")
	}
}

var _ = reg("C03_check", C03_check)

// C03_long: CheckName looks at every character of long names.
// Bound: 4 arbitrary bytes at the front, or after and before filler of 40 different
// lengths up to 4096.
func C03_long() {
	n := fillLens[sym.Choice(len(fillLens))]
	pre, post := "", ""
	switch sym.Choice(3) {
	case 0:
		post = fill(n, "x")
	case 1:
		pre = fill(n, []string{"x", "\u00e9"}[sym.Choice(2)])
	case 2:
		pre, post = fill(n, "x"), fill(n, "y")
	}
	if n > 300 && sym.Tier() == 0 && n != 2048 {
		sym.Stop()
	}
	mid := sym.StringN(4)
	s := pre + mid + post
	// the filler is a supported name, so only the middle decides
	var isName, must bool
	if pre == "" {
		isName, must = nameClass(mid)
	} else {
		isName, must = nameClass("x" + mid)
	}
	err := xw.CheckName(s)
	sym.Observe("err", err == nil)
	sym.Cover("long")
	if err == nil {
		sym.Assert(isName, "CheckName accepts something that is not a Name")
	} else {
		sym.Assert(!must, "CheckName refuses a supported Name")
	}
}

var _ = reg("C03_long", C03_long)

const namePlaces = 20

// usePlace gives name to the writer in one of the places that take a name. It returns the error,
// the name as written, and what a reader must report if it was accepted.
func usePlace(w *xw.Writer, place int, s string) (error, string, []ev) {
	dtd := func(evs ...ev) []ev {
		return append(append([]ev{{k: evDTD, name: "d"}}, evs...), ev{k: evDTDEnd})
	}
	elem := func(name string, attrs ...kv) []ev {
		return []ev{{k: evStart, name: name, attrs: attrs}, {k: evEnd, name: name, val: "/"}}
	}
	switch place {
	case 0:
		return w.Start(xw.Elem{Name: s}), s, elem(s)
	case 1:
		return w.Start(xw.Elem{Prefix: s, Name: "n"}), qname(s, "n"), elem(qname(s, "n"))
	case 2:
		return w.Start(xw.Elem{Prefix: s, URI: "u", Name: "n"}), qname(s, "n"), elem(qname(s, "n"), kv{"xmlns:" + s, "u"})
	case 3:
		return w.Start(xw.Elem{Prefix: "p", Name: s}), qname("p", s), elem(qname("p", s))
	case 4:
		return w.WriteAttr(xw.Attr{Name: s, Value: "v"}), s, elem("e", kv{s, "v"})
	case 5:
		return w.WriteAttr(xw.Attr{Prefix: s, Name: "n", Value: "v"}), qname(s, "n"), elem("e", kv{qname(s, "n"), "v"})
	case 6:
		return w.WriteAttr(xw.Attr{Prefix: s, URI: "u", Name: "n", Value: "v"}), qname(s, "n"), elem("e", kv{qname(s, "n"), "v"}, kv{"xmlns:" + s, "u"})
	case 7:
		return w.Start(xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: "zz-9", Value: "1"}, {Name: s, Value: "v"}}}), s, elem("e", kv{"zz-9", "1"}, kv{s, "v"})
	case 8:
		return w.WritePI(xw.PI{Target: s, Content: "c"}), s, []ev{{k: evPI, name: s, val: "c"}}
	case 9:
		return w.Start(xw.DTD{Name: s}), s, []ev{{k: evDTD, name: s}, {k: evDTDEnd}}
	case 10:
		return w.WriteDTDEntity(xw.DTDEntity{Name: s, Content: "c"}), s, dtd(ev{k: evEntity, name: s, val: "VALUE", val2: "c"})
	case 11:
		return w.WriteDTDEntity(xw.DTDEntity{Name: s, SystemID: "c", IsPE: true}), s, dtd(ev{k: evEntity, name: "%" + s, val: "SYSTEM", val2: "c", attrs: []kv{{"pub", ""}}})
	case 12:
		return w.WriteDTDEntity(xw.DTDEntity{Name: "n", SystemID: "c", NDataID: s}), s, dtd(ev{k: evEntity, name: "n", val: "SYSTEM", val2: "c", attrs: []kv{{"pub", ""}, {"ndata", s}}})
	case 13:
		return w.WriteDTDElem(xw.DTDElem{Name: s, Decl: "ANY"}), s, dtd(ev{k: evElement, name: s, val: "ANY"})
	case 14:
		return w.WriteDTDAttList(xw.DTDAttList{Name: s}), s, dtd(ev{k: evAttlist, name: s})
	case 15:
		return w.StartDTDAttList(xw.DTDAttList{Name: s}), s, dtd(ev{k: evAttlist, name: s})
	case 16:
		return w.WriteDTDAttr(xw.DTDAttr{Name: s, Type: xw.DTDAttrID}), s, dtd(ev{k: evAttlist, name: "l"}, ev{k: evAttdef, name: s, val: "ID", val2: "#IMPLIED"})
	case 17:
		return w.WriteDTDAttList(xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: s, Type: xw.DTDAttrID}}}), s, dtd(ev{k: evAttlist, name: "l"}, ev{k: evAttdef, name: s, val: "ID", val2: "#IMPLIED"})
	case 18:
		return w.WriteNotation(xw.Notation{Name: s, SystemID: "c"}), s, dtd(ev{k: evNotation, name: s, val2: "c", attrs: []kv{{"SYSTEM", ""}}})
	case 19:
		return w.Start(xw.Elem{Name: "o", Content: []xw.Writable{xw.Elem{Name: s}}}), "", nil // accepted when ended
	}
	panic("place")
}

// namePlace opens what the place needs around it.
func namePlace(w *xw.Writer, place int) string {
	switch place {
	case 4, 5, 6:
		ok(w.Start(xw.Elem{Name: "e"}), "element")
		return "<e/>"
	case 10, 11, 12, 13, 14, 15, 17, 18:
		ok(w.Start(xw.DTD{Name: "d"}), "dtd")
		return ""
	case 16:
		ok(w.Start(xw.DTD{Name: "d"}, xw.DTDAttList{Name: "l"}), "attlist")
		return ""
	}
	return ""
}

// C03_places: every place that takes a name accepts Names only, and writes them as they are.
// Bound: every string of up to 2 bytes (thorough: 3), and every character of 3 bytes (7 lead bytes; quick: in 6 blocks of 64), in 19 places: element names and prefixes (with
// and without URI), attribute names and prefixes (three ways), PI targets, DTD, entity, parameter
// entity, NDATA, element, attribute-list, attribute-definition and notation names.
func C03_places() {
	place := sym.Choice(19)
	s := ""
	if sym.Choice(2) == 0 {
		s = sym.String(2 + sym.Tier())
	} else {
		second := [...]byte{0x80, 0x81, 0x86, 0x90, 0xb0, 0xbf}
		b := [...]byte{0xe2, second[sym.Choice(len(second))], sym.Byte()}
		if sym.Tier() > 0 {
			b[0], b[1] = [...]byte{0xe0, 0xe1, 0xe2, 0xe3, 0xea, 0xed, 0xef}[sym.Choice(7)], 0x80+byte(sym.Choice(64))
		}
		sym.Assume(b[2] >= 0x80 && b[2] <= 0xbf)
		s = string(b[:])
	}
	if s == "" && (place == 1 || place == 2 || place == 5 || place == 6 || place == 12) {
		sym.Stop() // no prefix, no NDATA
	}
	checkPlace(place, s)
}

// replaceAll replaces every occurrence of a (upper case, found nowhere else) by b.
func replaceAll(s, a, b string) string {
	if a == "" {
		return s
	}
	var out []byte
	for i := 0; i < len(s); {
		if i+len(a) <= len(s) && s[i:i+len(a)] == a {
			out = append(out, b...)
			i += len(a)
		} else {
			out = append(out, s[i])
			i++
		}
	}
	return string(out)
}

func checkPlace(place int, s string) {
	var out sink
	w := xw.Open(&out)
	namePlace(w, place)
	d := w.Depth()
	err, asWritten, want := usePlace(w, place, s)
	isName, must := nameClass(asWritten)
	if place == 8 && (lowerASCII(s) == "xml") {
		sym.Assert(err != nil, "reserved PI target accepted")
		return
	}
	if place == 4 && s == "" {
		must = false
	}
	if err == nil {
		sym.Cover("accepted")
		sym.AssertKnown("pi-empty-target", place == 8 && s == "", isName, "a name that is not a Name was accepted")
		ok(w.EndAllFlush(), "EndAllFlush")
		sym.Observe("out", out.b)
		// the same call with a plain name of the same length shows where the name belongs; a reader
		// must report that one as described, and the two outputs differ in the name only
		plain := "QZQZQZ"[:len(s)]
		var out2 sink
		w2 := xw.Open(&out2)
		namePlace(w2, place)
		err, _, want = usePlace(w2, place, plain)
		ok(err, "plain name")
		ok(w2.EndAllFlush(), "EndAllFlush")
		got, msg := read(out2.b)
		sym.Assert(msg == "", "not well-formed")
		sym.Assert(sameEvs(got, want), "name does not read back")
		sym.Assert(string(out.b) == replaceAll(string(out2.b), plain, s), "name is not written as it is")
		return
	}
	sym.Cover("refused")
	sym.Assert(!must, "a supported Name was refused")
	if len(s) == 0 {
		return
	}
	sym.Assert(w.Depth() == d || place == 17 || place == 14, "refused name changed the depth")
	ok(w.Flush(), "Flush")
	// nothing of it in the output
	want0 := []string{"", "", "", "", "<e", "<e", "<e", "<e zz-9=\"1\"", "", "", "<!DOCTYPE d [", "<!DOCTYPE d [", "<!DOCTYPE d [<!ENTITY n SYSTEM \"c\" NDATA ", "<!DOCTYPE d [", "<!DOCTYPE d [", "<!DOCTYPE d [", "<!DOCTYPE d [<!ATTLIST l", "<!DOCTYPE d [<!ATTLIST l", "<!DOCTYPE d ["}[place]
	// any prefix of that, or of that without what the parent opened, is fine too
	sym.Assert(len(out.b) <= len(want0) && string(out.b) == want0[:len(out.b)], "refused name reached the output")
}

var _ = reg("C03_places", C03_places)

// contextNode gives a node with name s to the writer; asWritten is the name it has in the output.
func contextNode(w *xw.Writer, s string) (err error, asWritten string) {
	at := sym.Choice(2) == 1 // in its parent, or on its own
	in := func(ns ...xw.Startable) {
		if at {
			ok(w.Start(ns...), "the parent")
		}
	}
	dtd, list := xw.DTD{Name: "d"}, xw.DTDAttList{Name: "l"}
	attr := xw.DTDAttr{Name: "z9", Type: "ID"}
	asWritten = s
	switch sym.Choice(16) {
	case 0:
		in(dtd)
		n := [...]xw.DTDEntity{{Content: "c"}, {Content: "c", IsPE: true}, {SystemID: "c"}, {SystemID: "c", PublicID: "p"},
			{SystemID: "c", IsPE: true}, {SystemID: "c", PublicID: "p", IsPE: true}, {SystemID: "c", NDataID: "n"},
			{SystemID: "c", PublicID: "p", NDataID: "n"}, {}}[sym.Choice(9)]
		n.Name = s
		return w.WriteDTDEntity(n), s
	case 1:
		in(dtd)
		if s == "" {
			sym.Stop()
		}
		n := [...]xw.DTDEntity{{SystemID: "c"}, {SystemID: "c", PublicID: "p"}}[sym.Choice(2)]
		n.Name, n.NDataID = "n", s
		return w.WriteDTDEntity(n), s
	case 2:
		in(dtd)
		n := [...]xw.Notation{{SystemID: "c"}, {PublicID: "p"}, {SystemID: "c", PublicID: "p"}}[sym.Choice(3)]
		n.Name = s
		return w.WriteNotation(n), s
	case 3:
		in(dtd)
		return w.WriteDTDElem(xw.DTDElem{Name: s, Decl: [...]string{"EMPTY", "ANY", "(#PCDATA)", "(a|b)*"}[sym.Choice(4)]}), s
	case 4:
		in(dtd)
		n := xw.DTDAttList{Name: s, Attrs: []xw.DTDAttr{attr, {Name: "z8", Type: "CDATA", Value: "v"}}[:sym.Choice(3)]}
		switch sym.Choice(3) {
		case 0:
			return w.Write(n), s
		case 1:
			return w.Start(n), s
		}
		return w.Block(n, attr), s
	case 5:
		in(dtd, list)
		n := [...]xw.DTDAttr{{}, {Value: "v"}, {Default: xw.DTDAttrDefault}, {Default: xw.DTDAttrRequired}, {Default: xw.DTDAttrImplied}, {Default: xw.DTDAttrFixed, Value: "v"}}[sym.Choice(6)]
		n.Name, n.Type = s, [...]xw.DTDAttrType{xw.DTDAttrString, xw.DTDAttrNmtokens, "(a|b)"}[sym.Choice(3)]
		return w.WriteDTDAttr(n), s
	case 6:
		in(dtd)
		n := xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: s, Type: "ID"}, attr, attr}}
		k := sym.Choice(3)
		n.Attrs[0], n.Attrs[k] = n.Attrs[k], n.Attrs[0]
		return w.Write(n), s
	case 7:
		in(xw.Doc{})
		n := [...]xw.DTD{{}, {SystemID: "c"}, {SystemID: "c", PublicID: "p"}}[sym.Choice(3)]
		n.Name = s
		return w.Start(n), s
	case 8:
		in(xw.Elem{Name: "e"})
		if lowerASCII(s) == "xml" || s == "" {
			sym.Stop() // C05, and a known finding
		}
		return w.WritePI(xw.PI{Target: s, Content: [...]string{"", "c", " ?"}[sym.Choice(3)]}), s
	case 9, 10, 11:
		in(xw.Doc{}, xw.Elem{Name: "e"}, xw.Elem{Prefix: "p", URI: "u", Name: "f", Attrs: []xw.Attr{{Name: "k"}}})
		n := xw.Elem{Name: s, Full: sym.Choice(2) == 1}
		switch sym.Choice(3) {
		case 1:
			n.Prefix, asWritten = "p", "p:"+s
		case 2:
			if s != "" {
				n.Prefix, n.Name, asWritten = s, "n", s+":n"
			}
		}
		if n.Prefix != "" && sym.Choice(2) == 1 {
			n.URI = "u"
		}
		n.Attrs = []xw.Attr{{Name: "k", Value: "v"}, {Prefix: "qqq", URI: "r", Name: "k"}}[:sym.Choice(3)]
		n.Content = []xw.Writable{xw.Text("t"), xw.Elem{Name: "c"}}[:sym.Choice(3)]
		switch sym.Choice(3) {
		case 0:
			return w.Start(n), asWritten
		case 1:
			return w.Write(n), asWritten
		}
		return w.Block(n, xw.Text("b")), asWritten
	case 12, 13:
		n := xw.Attr{Name: s, Value: [...]string{"", "v"}[sym.Choice(2)]}
		switch sym.Choice(3) {
		case 1:
			n.Prefix, asWritten = "p", "p:"+s
		case 2:
			if s != "" {
				n.Prefix, n.Name, asWritten = s, "n", s+":n"
			}
		}
		if n.Prefix != "" && sym.Choice(2) == 1 {
			n.URI = "u"
		}
		as := []xw.Attr{n, {Name: "z9"}, {Prefix: "zzz", URI: "v", Name: "z8"}}
		k := sym.Choice(3)
		as[0], as[k] = as[k], as[0]
		e := xw.Elem{Prefix: [...]string{"", "eee"}[sym.Choice(2)], URI: "w", Name: "e"}
		if e.Prefix == "" {
			e.URI = ""
		}
		if at {
			e.Attrs = as
			return w.Write(e), asWritten
		}
		ok(w.Start(e), "element")
		return w.WriteAttr(as...), asWritten
	case 14:
		in(xw.Elem{Name: "e"})
		inner := []xw.Writable{xw.Elem{Name: s}, xw.Text("t"), xw.Elem{Name: "f"}}
		k := sym.Choice(3)
		inner[0], inner[k] = inner[k], inner[0]
		return w.Write(xw.Elem{Name: "o", Content: []xw.Writable{xw.Elem{Name: "p", Content: inner}}}), s
	case 15:
		in(xw.Elem{Name: "e"})
		return w.Start(xw.Elem{Name: "o"}, xw.Elem{Name: s}, xw.Elem{Name: "p"}), s
	}
	panic("context")
}

// C03_context: the same whatever else the node has, wherever it is and whatever the other settings.
// Bound: every string of up to 2 bytes as the name or prefix in 16 families of nodes (about 250
// combinations of the other fields and of the call), inside a parent or on its own, with and
// without an indenter, with either StrictChars.
func C03_context() {
	var out sink
	w := xw.Open(&out)
	switch sym.Choice(3) {
	case 1:
		w.Indenter = xw.NewStandardIndenter()
	case 2:
		w.StrictChars = false
	}
	s := sym.String(2)
	err, asWritten := contextNode(w, s)
	isName, must := nameClass(asWritten)
	if err == nil {
		sym.Assert(isName, "a name that is not a Name was accepted")
		sym.Cover("accepted")
	} else {
		sym.Assert(!must || s == "", "a supported Name was refused")
		sym.Cover("refused")
	}
}

var _ = reg("C03_context", C03_context)

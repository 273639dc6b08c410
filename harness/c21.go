package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// strictness is the writers to compare: as opened, without enforcement, without strict characters,
// and without both.
func strictness(opts ...xw.Option) (ws [4]*xw.Writer, ss [4]*sink) {
	for i := range ws {
		ss[i] = &sink{}
		w := xw.Open(ss[i], opts...)
		w.Enforce = i&1 == 0
		w.StrictChars = i&2 == 0
		ws[i] = w
	}
	return
}

// lenient makes a call on each of the writers. If the first accepts it all must, and then they stay
// the same; if not, or if only those with lax characters do, the path ends.
func lenient(ws [4]*xw.Writer, call func(w *xw.Writer) error) {
	var errs [4]error
	for i, w := range ws {
		errs[i] = call(w)
	}
	if errs[2] == nil {
		sym.Assert(errs[3] == nil, "accepted with enforcement, refused without (lax characters)")
	}
	if errs[0] != nil {
		sym.Cover("refused")
		sym.Stop()
	}
	sym.Cover("accepted")
	sym.Assert(errs[1] == nil, "accepted with enforcement, refused without")
	sym.Assert(errs[2] == nil, "accepted with strict characters, refused without")
	for _, w := range ws {
		sym.Assert(w.Depth() == ws[0].Depth(), "enforcement changed the depth")
	}
}

func lenientOutput(ws [4]*xw.Writer, ss [4]*sink) {
	lenient(ws, func(w *xw.Writer) error { return w.EndAllFlush() })
	for i, s := range ss {
		sym.Observe("out", s.b)
		sym.Assert(string(s.b) == string(ss[0].b), []string{"", "enforcement changed the output", "strict characters changed the output", "enforcement and strict characters changed the output"}[i])
	}
	sym.Cover("compared")
}

// C21_scripts: valid calls with the various settings.
// Bound: 7 documents with every kind of node, or 2 (thorough: 3) of 49 valid calls in each of 18 places;
// with and without indenter.
func C21_scripts() {
	var opts []xw.Option
	if sym.Choice(2) == 1 {
		opts = append(opts, xw.WithIndent())
	}
	ws, ss := strictness(opts...)
	p := anyScript(2 + sym.Tier())
	for _, c := range p.calls {
		lenient(ws, c)
	}
	lenientOutput(ws, ss)
}

// C21_calls: calls in any place, as long as they are accepted.
// Bound: 18 places, then 2 of 46 calls (thorough: 3), an End between or after them by 4 methods.
func C21_calls() {
	ws, ss := strictness()
	p := &script{}
	p.place(sym.Choice(places))
	p.play(ws[0])
	p.play(ws[1])
	p.play(ws[2])
	p.play(ws[3])
	end := sym.Choice(5)
	for i := 0; i < 2+sym.Tier(); i++ {
		c := carry(sym.Choice(carriers), string([]byte{'m' + byte(i)}))
		lenient(ws, c.call)
		if i == 0 {
			switch end {
			case 0:
				lenient(ws, func(w *xw.Writer) error { return w.EndAny() })
			case 1:
				lenient(ws, func(w *xw.Writer) error { return w.EndElem() })
			case 2:
				lenient(ws, func(w *xw.Writer) error { return w.End(xw.DTDNode) })
			case 3:
				lenient(ws, func(w *xw.Writer) error { return w.Next() })
			}
		}
	}
	lenientOutput(ws, ss)
}

// C21_names: names.
// Bound: every string of up to 2 bytes (thorough: 3) in 20 places that take a name, with and without
// indenter.
func C21_names() {
	var opts []xw.Option
	if sym.Choice(2) == 1 {
		opts = append(opts, xw.WithIndent())
	}
	ws, ss := strictness(opts...)
	place := sym.Choice(namePlaces)
	s := sym.String(2 + sym.Tier())
	for _, w := range ws {
		namePlace(w, place)
	}
	lenient(ws, func(w *xw.Writer) error { err, _, _ := usePlace(w, place, s); return err })
	lenientOutput(ws, ss)
}

// contentCall gives s, or s and t, to one of the calls that take content which is checked.
func contentCall(i int, s, t string) (before, call func(w *xw.Writer) error) {
	dtd := func(w *xw.Writer) error { return w.Start(xw.DTD{Name: "d"}) }
	none := func(w *xw.Writer) error { return nil }
	switch i {
	case 0:
		return none, func(w *xw.Writer) error { return w.Write(xw.Comment{Content: s + t}) }
	case 1:
		return none, func(w *xw.Writer) error { return w.Write(xw.CData{Content: s + t}) }
	case 2:
		return none, func(w *xw.Writer) error { return w.Write(xw.PI{Target: "t", Content: s + t}) }
	case 3:
		return func(w *xw.Writer) error { return w.Start(xw.Comment{Content: s}) }, func(w *xw.Writer) error { return w.WriteCommentContent(t) }
	case 4:
		return func(w *xw.Writer) error { return w.Start(xw.CData{Content: s}) }, func(w *xw.Writer) error { return w.WriteCDataContent(t) }
	case 5:
		return none, func(w *xw.Writer) error { return w.Write(xw.Text(s), xw.Text(t)) }
	case 6:
		return none, func(w *xw.Writer) error {
			return w.Write(xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: "a", Value: s}}, Content: []xw.Writable{xw.Text(t)}})
		}
	case 7:
		return none, func(w *xw.Writer) error { return w.Start(xw.DTD{Name: "d", PublicID: s, SystemID: t}) }
	case 8:
		return dtd, func(w *xw.Writer) error { return w.Write(xw.DTDEntity{Name: "n", PublicID: s, SystemID: t}) }
	case 9:
		return dtd, func(w *xw.Writer) error { return w.Write(xw.DTDEntity{Name: "n", Content: s + t}) }
	case 10:
		return dtd, func(w *xw.Writer) error { return w.Write(xw.Notation{Name: "n", PublicID: s, SystemID: t}) }
	case 11:
		return func(w *xw.Writer) error { return w.Start(xw.DTD{Name: "d"}, xw.DTDAttList{Name: "l"}) }, func(w *xw.Writer) error {
			return w.Write(xw.DTDAttr{Name: "a", Type: xw.DTDAttrType(s), Default: xw.DTDAttrFixed, Value: t})
		}
	case 12:
		return dtd, func(w *xw.Writer) error { return w.Write(xw.DTDElem{Name: "a", Decl: s + t}) }
	case 13:
		return none, func(w *xw.Writer) error { return w.Start(xw.Elem{Prefix: s, URI: t, Name: "e"}) }
	case 14:
		return func(w *xw.Writer) error { return w.Start(xw.Elem{Prefix: "p", URI: s, Name: "e"}) }, func(w *xw.Writer) error {
			return w.Write(xw.Attr{Prefix: "p", URI: t, Name: "a"}, xw.Attr{Name: "b", Value: s})
		}
	case 15:
		return none, func(w *xw.Writer) error { return w.Write(xw.Raw(s), xw.Raw(t)) }
	}
	panic("content")
}

const contentCalls = 16

// C21_content: content of every kind.
// Bound: 16 calls that take content, given every pair of strings of up to 2 and 1 bytes (thorough: 2 and 2);
// inside an element or not.
func C21_content() {
	ws, ss := strictness()
	i := sym.Choice(contentCalls)
	s, t := sym.String(2), sym.String(1+sym.Tier())
	inner := i != 7 && (i < 8 || i > 12) && sym.Choice(2) == 1
	before, call := contentCall(i, s, t)
	if inner {
		lenient(ws, func(w *xw.Writer) error { return w.Start(xw.Elem{Name: "o"}) })
	}
	lenient(ws, before)
	lenient(ws, call)
	lenientOutput(ws, ss)
}

// C21_doc: the declaration.
// Bound: versions and encoding names of up to 2 arbitrary bytes (thorough: 3), 16 combinations of suppressed,
// forced and standalone.
func C21_doc() {
	v, e := sym.String(2+sym.Tier()), sym.String(2+sym.Tier())
	if sym.Tier() == 0 && len(v) > 0 && len(e) > 0 && len(v)+len(e) < 4 {
		sym.Stop()
	}
	var ws [4]*xw.Writer
	var ss [4]*sink
	for i := range ws {
		ss[i] = &sink{}
		w := xw.OpenEncoding(ss[i], e, utf8Encoder())
		w.Version = v
		w.Enforce = i&1 == 0
		w.StrictChars = i&2 == 0
		ws[i] = w
	}
	d := xw.Doc{SuppressVersion: sym.Choice(2) == 1, SuppressEncoding: sym.Choice(2) == 1}
	switch sym.Choice(4) {
	case 1:
		d = d.WithStandalone(true)
	case 2:
		d = d.ForceEncoding(v)
	case 3:
		d = d.ForceVersion(e).WithStandalone(false)
	}
	lenient(ws, func(w *xw.Writer) error { return w.Start(d) })
	lenient(ws, func(w *xw.Writer) error { return w.Write(xw.Elem{Name: "e"}) })
	lenientOutput(ws, ss)
}

var _ = reg("C21_scripts", C21_scripts)
var _ = reg("C21_calls", C21_calls)
var _ = reg("C21_names", C21_names)
var _ = reg("C21_content", C21_content)
var _ = reg("C21_doc", C21_doc)

// C21_off: without enforcement nothing is refused for its place, or for what names and content consist of.
// Bound: 46 calls in each of 18 places, with one of them (quick: of 16) or none before it; every string of up to 2 bytes (thorough: 3) in 20 places that
// take a name; every pair of strings of up to 2 and 1 bytes (thorough: 2 and 2) in 16 calls that take content, in an element or not; every
// version of up to 2 and encoding name of up to 1 byte; strict characters or not. (A prefix with two URIs is refused all the same.)
func C21_off() {
	var s sink
	w := xw.Open(&s)
	w.Enforce = false
	w.StrictChars = sym.Choice(2) == 1
	switch sym.Choice(4) {
	case 0:
		p := &script{}
		p.place(sym.Choice(places))
		p.play(w)
		if i := sym.Choice(carriers + 1); i < carriers {
			if sym.Tier() == 0 && i%3 != 0 {
				sym.Stop()
			}
			ok(carry(i, "m").call(w), "a node without enforcement")
		}
		ok(carry(sym.Choice(carriers), "n").call(w), "a node without enforcement")
		sym.Cover("place")
	case 1:
		place := sym.Choice(namePlaces)
		name := sym.String(2 + sym.Tier())
		namePlace(w, place)
		err, _, _ := usePlace(w, place, name)
		ok(err, "a name without enforcement")
		sym.Cover("name")
	case 2:
		i := sym.Choice(contentCalls)
		s, t := sym.String(2), sym.String(1+sym.Tier())
		if i == 14 {
			sym.Assume(s == t || t == "" || s == "")
		}
		before, call := contentCall(i, s, t)
		if sym.Choice(2) == 1 {
			ok(w.Start(xw.Elem{Name: "o"}), "element")
		}
		ok(before(w), "content without enforcement")
		ok(call(w), "content without enforcement")
		sym.Cover("content")
	case 3:
		w.Version = sym.String(2)
		ok(w.Start(xw.Doc{}.ForceEncoding(sym.String(1)).WithStandalone(true)), "a declaration without enforcement")
		sym.Cover("declaration")
	}
	ok(w.EndAllFlush(), "EndAllFlush")
}

var _ = reg("C21_off", C21_off)

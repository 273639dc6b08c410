package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// nsUse is a prefix with the URI it must have for a reader ("" when none was given).
type nsUse struct{ prefix, uri string }

// nsElem is what the model knows about one element's prefixes.
type nsElem struct {
	uses []nsUse // bound on this element, in order of their first use
}

// use binds prefix to uri; false if it is bound to something else here.
func (e *nsElem) use(prefix, uri string) bool {
	for _, u := range e.uses {
		if u.prefix == prefix {
			return u.uri == uri
		}
	}
	e.uses = append(e.uses, nsUse{prefix, uri})
	return true
}

// one of two letters, symbolic: names meet or differ.
func ab() string {
	c := sym.Byte()
	sym.Assume(c == 'a' || c == 'b')
	return string([]byte{c})
}

// checkDecls: the start tag declares exactly the prefixes bound on the element, each once, and has
// exactly these other attributes.
func checkDecls(e *ev, want *nsElem, attrs []kv) {
	var decls []kv
	var rest []kv
	for _, a := range e.attrs {
		if len(a.n) > 6 && a.n[:6] == "xmlns:" {
			decls = append(decls, kv{a.n[6:], a.v})
		} else {
			rest = append(rest, a)
		}
	}
	sym.Assert(len(decls) == len(want.uses), "a prefix is not declared exactly once")
	for _, u := range want.uses {
		n := 0
		for _, d := range decls {
			if d.n == u.prefix {
				n++
				sym.Assert(d.v == u.uri, "a prefix is declared with another URI")
			}
		}
		sym.Assert(n == 1, "a prefix is not declared exactly once")
	}
	sym.Assert(len(rest) == len(attrs), "attributes")
	for i := range rest {
		sym.Assert(rest[i].n == attrs[i].n && rest[i].v == attrs[i].v, "attributes")
	}
}

// nsStep writes an element with up to n attributes, all with symbolic prefixes and URIs, in one of
// three ways, and returns what it must declare.
func nsStep(w *xw.Writer, n int) (*nsElem, []kv) {
	model := &nsElem{}
	e := xw.Elem{Name: "e"}
	if sym.Choice(2) == 1 {
		e.Prefix = ab()
		if sym.Choice(2) == 1 {
			e.URI = ab()
			model.use(e.Prefix, e.URI)
		}
	}
	var kvs []kv
	var attrs []xw.Attr
	for i := 0; i < n; i++ {
		a := xw.Attr{Name: "n" + string([]byte{'0' + byte(i)}), Value: "v"}
		switch sym.Choice(3) {
		case 1:
			a.Prefix = ab()
		case 2:
			a.Prefix = ab()
			a.URI = ab()
		}
		attrs = append(attrs, a)
	}
	// how many of them are given with the element
	k := sym.Choice(n + 1)
	before := len(attrs)
	good := true
	for _, a := range attrs[:k] {
		if a.URI != "" && !model.use(a.Prefix, a.URI) {
			good = false
			break
		}
		kvs = append(kvs, kv{qname(a.Prefix, a.Name), a.Value})
	}
	e.Attrs = attrs[:k:k]
	err := w.Start(e)
	sym.Assert((err == nil) == good, "a prefix bound to two URIs is accepted, or a good one refused")
	if !good {
		sym.Cover("conflict in the element")
		sym.Stop()
	}
	for _, a := range attrs[k:before] {
		var err error
		if sym.Choice(2) == 0 {
			err = w.WriteAttr(a)
		} else {
			err = w.Write(a)
		}
		good := a.URI == "" || model.use(a.Prefix, a.URI)
		sym.Assert((err == nil) == good, "a prefix bound to two URIs is accepted, or a good one refused")
		if good {
			kvs = append(kvs, kv{qname(a.Prefix, a.Name), a.Value})
		} else {
			sym.Cover("conflict")
		}
	}
	return model, kvs
}

func nsCheck(out *sink, model []*nsElem, kvs [][]kv) {
	sym.Observe("out", out.b)
	got, msg := read(out.b)
	sym.Assert(msg == "", "output is not well-formed")
	n := 0
	for i := range got {
		if got[i].k == evStart {
			sym.Assert(n < len(model), "elements")
			checkDecls(&got[i], model[n], kvs[n])
			n++
		}
	}
	sym.Assert(n == len(model), "elements")
	sym.Cover("declared")
}

// C13_element: one element declares the prefixes which are used on it with a URI.
// Bound: an element with or without prefix and URI and up to 3 attributes (thorough: 4), each with or
// without prefix and URI, prefixes and URIs out of two symbolic values; any number of them in
// Elem.Attrs, the rest written.
func C13_element() {
	var out sink
	w := xw.Open(&out)
	m, kvs := nsStep(w, sym.Choice(4+sym.Tier()))
	switch sym.Choice(3) {
	case 1:
		ok(w.WriteText("t"), "text")
	case 2:
		ok(w.Next(), "Next")
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	nsCheck(&out, []*nsElem{m}, [][]kv{kvs})
}

// C13_nested: nested elements and siblings each have their own declarations.
// Bound: two elements with up to one attribute each, nested or side by side, 0, 7 or 8 deep;
// one element nested in another by Content.
func C13_nested() {
	var out sink
	w := xw.Open(&out)
	deep := []int{0, 7, 8}[sym.Choice(3)]
	var models []*nsElem
	var kvs [][]kv
	for i := 0; i < deep; i++ {
		ok(w.Start(xw.Elem{Name: "p", Prefix: "a", URI: "outer"}), "elem")
		models = append(models, &nsElem{uses: []nsUse{{"a", "outer"}}})
		kvs = append(kvs, nil)
	}
	n := 1
	m, k := nsStep(w, n)
	models, kvs = append(models, m), append(kvs, k)
	if sym.Choice(2) == 0 {
		ok(w.EndElem(), "EndElem")
	}
	if deep > 0 || w.Depth() >= 0 {
		m, k = nsStep(w, n)
		models, kvs = append(models, m), append(kvs, k)
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	nsCheck(&out, models, kvs)
}

// C13_content: elements given as Content declare their own prefixes.
// Bound: an element with prefix, URI and an attribute with prefix and URI in the Content of another
// such; prefixes and URIs out of two symbolic values; twice, to see that the value is not changed.
func C13_content() {
	mk := func(name string) (xw.Elem, *nsElem, []kv) {
		m := &nsElem{}
		e := xw.Elem{Prefix: ab(), URI: ab(), Name: name}
		m.use(e.Prefix, e.URI)
		a := xw.Attr{Prefix: ab(), URI: ab(), Name: "n", Value: "v"}
		if !m.use(a.Prefix, a.URI) {
			sym.Stop()
		}
		e.Attrs = []xw.Attr{a}
		return e, m, []kv{{qname(a.Prefix, a.Name), a.Value}}
	}
	outer, mo, ko := mk("o")
	inner, mi, ki := mk("i")
	outer.Content = []xw.Writable{inner, xw.Text("t"), inner}
	var out sink
	w := xw.Open(&out)
	ok(w.Start(xw.Elem{Name: "root"}), "elem")
	ok(w.WriteElem(outer), "WriteElem")
	ok(w.Write(outer), "Write")
	ok(w.EndAllFlush(), "EndAllFlush")
	nsCheck(&out, []*nsElem{{}, mo, mi, mi, mo, mi, mi}, [][]kv{nil, ko, ki, ki, ko, ki, ki})
}

// C13_many: many prefixes on one element.
// Bound: 0-12 (thorough: 0-24) attributes with different prefixes and a symbolic URI each, one
// prefix used twice with the same or another URI.
func C13_many() {
	n := sym.Choice(13 + 12*sym.Tier())
	m := &nsElem{}
	e := xw.Elem{Name: "e", Prefix: "p", URI: mark()}
	m.use(e.Prefix, e.URI)
	var kvs []kv
	var attrs []xw.Attr
	for i := 0; i < n; i++ {
		p := "q" + string([]byte{'a' + byte(i)})
		a := xw.Attr{Prefix: p, URI: mark(), Name: "n", Value: "v"}
		m.use(a.Prefix, a.URI)
		attrs = append(attrs, a)
		kvs = append(kvs, kv{p + ":n", "v"})
	}
	var out sink
	w := xw.Open(&out)
	k := sym.Choice(n + 1)
	e.Attrs = attrs[:k]
	ok(w.Start(e), "Start")
	ok(w.WriteAttr(attrs[k:]...), "WriteAttr")
	if n > 0 {
		again := attrs[sym.Choice(n)]
		again.Name = "again"
		again.URI = letter()
		err := w.WriteAttr(again)
		good := m.use(again.Prefix, again.URI)
		sym.Assert((err == nil) == good, "a prefix bound to two URIs is accepted, or a good one refused")
		if good {
			kvs = append(kvs, kv{again.Prefix + ":again", "v"})
		}
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	nsCheck(&out, []*nsElem{m}, [][]kv{kvs})
}

// C13_alike: prefixes and URIs are the same exactly if they are equal byte by byte.
// Bound: an element or an attribute and then another attribute, with prefixes of 1-2 letters and URIs
// of 1-3 visible bytes; given with the element or written.
func C13_alike() {
	var out sink
	w := xw.Open(&out)
	m := &nsElem{}
	prefix := func() string {
		s := letter()
		if sym.Choice(2) == 1 {
			s += letter()
		}
		return s
	}
	uri := func() string {
		n := 1 + sym.Choice(3)
		s := ""
		for i := 0; i < n; i++ {
			s += mark()
		}
		return s
	}
	p, q, u, v := prefix(), prefix(), uri(), uri()
	m.use(p, u)
	good := m.use(q, v)
	b := xw.Attr{Prefix: q, URI: v, Name: "m", Value: "y"}
	kvs := []kv{}
	switch sym.Choice(3) {
	case 0:
		err := w.Start(xw.Elem{Prefix: p, URI: u, Name: "e", Attrs: []xw.Attr{b}})
		sym.Assert((err == nil) == good, "a prefix bound to two URIs is accepted, or a good one refused")
		if err != nil {
			sym.Stop()
		}
	case 1:
		ok(w.Start(xw.Elem{Prefix: p, URI: u, Name: "e"}), "Start")
		sym.Assert((w.WriteAttr(b) == nil) == good, "a prefix bound to two URIs is accepted, or a good one refused")
	case 2:
		ok(w.Start(xw.Elem{Name: "e"}), "Start")
		ok(w.WriteAttr(xw.Attr{Prefix: p, URI: u, Name: "n", Value: "x"}), "WriteAttr")
		sym.Assert((w.Write(b) == nil) == good, "a prefix bound to two URIs is accepted, or a good one refused")
		kvs = append(kvs, kv{p + ":n", "x"})
	}
	if good {
		kvs = append(kvs, kv{q + ":m", "y"})
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	nsCheck(&out, []*nsElem{m}, [][]kv{kvs})
}

// C13_refused: a refused attribute leaves no declaration behind.
// Bound: an attribute with URI whose prefix or name is 1 arbitrary byte, then a good one with any of
// two prefixes and URIs.
func C13_refused() {
	var out sink
	w := xw.Open(&out)
	m := &nsElem{}
	ok(w.Start(xw.Elem{Name: "e"}), "Start")
	a := xw.Attr{Prefix: "a", URI: ab(), Name: "n", Value: "v"}
	switch sym.Choice(3) {
	case 0:
		a.Prefix = sym.StringN(1)
	case 1:
		a.Name = sym.StringN(1)
	case 2:
		a.Name = ""
	}
	if w.WriteAttr(a) == nil {
		sym.Stop()
	}
	sym.Cover("refused")
	b := xw.Attr{Prefix: ab(), URI: ab(), Name: "m", Value: "v"}
	ok(w.WriteAttr(b), "WriteAttr after a refused one")
	m.use(b.Prefix, b.URI)
	ok(w.EndAllFlush(), "EndAllFlush")
	nsCheck(&out, []*nsElem{m}, [][]kv{{{qname(b.Prefix, b.Name), "v"}}})
}

var _ = reg("C13_element", C13_element)
var _ = reg("C13_nested", C13_nested)
var _ = reg("C13_content", C13_content)
var _ = reg("C13_many", C13_many)
var _ = reg("C13_alike", C13_alike)
var _ = reg("C13_refused", C13_refused)

package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// wantAttrs: the output is one element whose attributes are exactly these.
func wantAttrs(b []byte, name string, want []kv) {
	sym.Observe("out", b)
	got, msg := read(b)
	sym.Assert(msg == "", "element with attributes is not well-formed")
	sym.Assert(len(got) == 2 && got[0].k == evStart && got[0].name == name && got[1].k == evEnd, "not one element")
	sym.Assert(len(got[0].attrs) == len(want), "number of attributes")
	for i := range want {
		sym.Assert(got[0].attrs[i].n == want[i].n, "attribute name")
		sym.Assert(got[0].attrs[i].v == want[i].v, "attribute value does not read back")
	}
}

// C02_attr: the value of an attribute reads back as the same string.
// Bound: every byte string of up to 3 bytes (thorough: 4), and of 4 with a first byte from 0xf0, by WriteAttr.
func C02_attr() {
	s := anyText(3 + sym.Tier())
	var out sink
	w := xw.Open(&out)
	ok(w.Start(xw.Elem{Name: "a"}), "element")
	ok(w.WriteAttr(xw.Attr{Name: "k", Value: s}), "attribute")
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Cover("attr")
	wantAttrs(out.b, "a", []kv{{"k", sanitize(s)}})
}

var _ = reg("C02_attr", C02_attr)

// C02_routes: the same through every way of giving an attribute, next to other attributes.
// Bound: 2 arbitrary bytes; WriteAttr with several, Write, Elem.Attrs, with prefix and URI, in
// nested content, with enforcement off, with an indenter, with the smallest buffer.
func C02_routes() {
	s := sym.StringN(2)
	var out sink
	route := sym.Choice(8)
	var opts []xw.Option
	if route == 5 {
		opts = append(opts, xw.WithIndent())
	}
	if route == 6 {
		opts = append(opts, func(w *xw.Writer) { w.Enforce = false })
	}
	if route == 7 {
		opts = append(opts, func(w *xw.Writer) { w.InitialBufSize = 1 })
	}
	w := xw.Open(&out, opts...)
	v := sanitize(s)
	want := []kv{{"k", v}}
	switch route {
	case 0:
		ok(w.Start(xw.Elem{Name: "a"}), "element")
		ok(w.WriteAttr(xw.Attr{Name: "j", Value: "1"}, xw.Attr{Name: "k", Value: s}, xw.Attr{Name: "l", Value: "x"}), "attributes")
		want = []kv{{"j", "1"}, {"k", v}, {"l", "x"}}
	case 1:
		ok(w.Start(xw.Elem{Name: "a"}), "element")
		ok(w.WriteAttr(xw.Attr{Name: "k", Value: s}), "attribute")
		ok(w.WriteAttr(xw.Attr{Name: "l", Value: s}), "attribute")
		want = []kv{{"k", v}, {"l", v}}
	case 2:
		ok(w.Write(xw.Elem{Name: "a", Attrs: []xw.Attr{{Name: "k", Value: s}}}), "element")
	case 3, 6, 7:
		ok(w.Start(xw.Elem{Name: "a", Attrs: []xw.Attr{{Name: "k", Value: s}, {Name: "l"}}}), "element")
		want = append(want, kv{"l", ""})
	case 4:
		ok(w.Start(xw.Elem{Name: "a", Attrs: []xw.Attr{{Prefix: "p", Name: "k", Value: s}}}), "element")
		want = []kv{{"p:k", v}}
	case 5:
		ok(w.Start(xw.Elem{Name: "a", Attrs: []xw.Attr{{Name: "k", Value: s}}}), "element")
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Cover("route")
	wantAttrs(out.b, "a", want)
}

var _ = reg("C02_routes", C02_routes)

// C02_uri: a namespace URI, which is written as an attribute value, reads back too.
// Bound: every URI of 1 or 2 bytes, given by the element or by an attribute.
func C02_uri() {
	u := sym.StringN(1 + sym.Choice(2))
	var out sink
	w := xw.Open(&out)
	want := []kv{{"xmlns:p", sanitize(u)}}
	name := "a"
	if sym.Choice(2) == 0 {
		ok(w.Start(xw.Elem{Prefix: "p", URI: u, Name: "a"}), "element")
		name = "p:a"
	} else {
		ok(w.Start(xw.Elem{Name: "a", Attrs: []xw.Attr{{Prefix: "p", URI: u, Name: "k", Value: "v"}}}), "element")
		want = []kv{{"p:k", "v"}, want[0]}
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Cover("uri")
	wantAttrs(out.b, name, want)
}

var _ = reg("C02_uri", C02_uri)

// C02_long: values read back whatever surrounds the unusual bytes and wherever the buffer ends.
// Bound: 1 arbitrary byte after filler of 40 different lengths up to 4096 (ASCII, two-byte, or
// escaped filler), followed by 0, 1 or 8 more bytes, with buffers of 16, 100 and 2048 bytes; or 2
// arbitrary bytes after filler of up to 24 bytes with a buffer of 16.
func C02_long() {
	var out sink
	var pre, mid, post, rpre string
	buf := 16
	if sym.Choice(2) == 0 {
		n := fillLens[sym.Choice(len(fillLens))]
		rpre = fill(n, []string{"x", "\u00e9"}[sym.Choice(2)])
		pre, mid, post = rpre, sym.StringN(1), fill([]int{0, 1, 8}[sym.Choice(3)], "y")
		if n < 300 {
			buf = []int{16, 100, 2048}[sym.Choice(3)]
		} else {
			buf = 2048
		}
	} else {
		rpre = fill(sym.Choice(25), []string{"x", "\u2028"}[sym.Choice(2)])
		pre, mid = rpre, sym.StringN(2)
	}
	w := xw.Open(&out, func(w *xw.Writer) { w.InitialBufSize = buf })
	ok(w.Start(xw.Elem{Name: "a"}), "element")
	ok(w.WriteAttr(xw.Attr{Name: "k", Value: pre + mid + post}), "attribute")
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Cover("long")
	b := out.b
	// read the harmless ends byte by byte only if they are not there as they are
	o, e := "<a k=\""+pre, post+"\"/>"
	if len(b) >= len(o)+len(e) && string(b[:len(o)]) == o && string(b[len(b)-len(e):]) == e {
		cut := append([]byte("<a k=\""), b[len(o):len(b)-len(e)]...)
		wantAttrs(append(cut, "\"/>"...), "a", []kv{{"k", sanitize(mid)}})
		return
	}
	wantAttrs(b, "a", []kv{{"k", sanitize(pre + mid + post)}})
}

var _ = reg("C02_long", C02_long)

// C02_default: default values of DTD attributes read back.
// Bound: every value of up to 3 bytes (or 4, with a first byte from 0xf0), as plain (inferred or explicit) or #FIXED default, in a list,
// started list or on its own; also with up to 24 bytes of filler before it and a buffer of 16.
func C02_default() {
	var out sink
	s := fill([]int{0, 0, 3, 8, 15, 24}[sym.Choice(6)], "x")
	if s == "" {
		s = anyText(3)
	} else {
		s += sym.StringN(1)
	}
	w := xw.Open(&out, func(w *xw.Writer) { w.InitialBufSize = 16 })
	d := xw.DTDAttr{Name: "k", Type: xw.DTDAttrString, Value: s}
	want := ev{k: evAttdef, name: "k", val: "CDATA", val2: "=" + sanitize(s)}
	switch sym.Choice(3) {
	case 0:
		d.Default = xw.DTDAttrDefault
	case 1:
		d.Default = xw.DTDAttrFixed
		want.val2 = "F" + sanitize(s)
	case 2:
		if s == "" {
			sym.Stop()
		}
	}
	switch sym.Choice(3) {
	case 0:
		ok(w.Write(xw.DTDAttList{Name: "a", Attrs: []xw.DTDAttr{d, {Name: "l", Type: xw.DTDAttrID}}}), "attlist")
	case 1:
		ok(w.Start(xw.DTDAttList{Name: "a"}), "attlist")
		ok(w.WriteDTDAttr(d), "attribute definition")
		ok(w.EndAll(), "EndAll")
	case 2:
		ok(w.Start(xw.DTD{Name: "a"}, xw.DTDAttList{Name: "a"}), "dtd")
		ok(w.Write(d), "attribute definition")
		ok(w.EndAll(), "EndAll")
	}
	ok(w.Flush(), "Flush")
	sym.Cover("default")
	sym.Observe("out", out.b)
	got, msg := read(out.b)
	sym.Assert(msg == "", "attribute list is not well-formed")
	n := 0
	for i := range got {
		if got[i].k == evAttdef && got[i].name == "k" {
			n++
			sym.Assert(sameEv(&got[i], &want), "default value does not read back")
		}
	}
	sym.Assert(n == 1, "not one attribute definition")
}

var _ = reg("C02_default", C02_default)

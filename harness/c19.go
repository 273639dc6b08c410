package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

const docStarts = 7

// startDoc starts a Doc in one of several ways.
func startDoc(w *xw.Writer, how int, d xw.Doc) error {
	switch how {
	case 0:
		return w.Start(d)
	case 1:
		return w.StartDoc(d)
	case 2:
		return w.Block(d)
	case 3:
		return w.Start(d, xw.Elem{Name: "e"})
	case 4:
		return w.Block(d, xw.Elem{Name: "e"})
	case 5:
		if err := w.StartDoc(d); err != nil {
			return err
		}
		return w.Write(xw.Comment{Content: "c"})
	case 6:
		if err := w.StartDoc(d); err != nil {
			return err
		}
		return w.Next()
	}
	panic("start")
}

// declared is the declaration asked for: its parts in order.
func declared(d xw.Doc, version, enc string) []kv {
	if version == "" {
		version = "1.0"
	}
	var a []kv
	for _, x := range docAttrs(d, enc) {
		if x.n == "version" && d.ForcedVersion == nil {
			x.v = version
		}
		a = append(a, x)
	}
	return a
}

func declText(a []kv, nl string) string {
	s := "<?xml"
	for _, x := range a {
		s += " " + x.n + "=\"" + x.v + "\""
	}
	if len(a) == 0 {
		s += " "
	}
	return s + "?>" + nl
}

// plainBytes is a string of n bytes that mean nothing in an attribute value and may be in an
// encoding name at any place.
func plainBytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte()
		sym.Assume(or(and(b[i] >= 'a', b[i] <= 'z'), and(b[i] >= 'A', b[i] <= 'Z')))
	}
	return string(b)
}

// docOptions is a Doc with an arbitrary choice of options; f and g are forced.
func docOptions(f, g string) xw.Doc {
	d := xw.Doc{SuppressVersion: sym.Choice(2) == 1, SuppressEncoding: sym.Choice(2) == 1}
	if sym.Choice(2) == 1 {
		d.ForcedVersion = &f
	}
	if sym.Choice(2) == 1 {
		d.ForcedEncoding = &g
	}
	switch sym.Choice(3) {
	case 1:
		d = d.WithStandalone(true)
	case 2:
		d = d.WithStandalone(false)
	}
	return d
}

// C19_options: the declaration, byte for byte.
// Bound: every combination of suppressed, forced (to 0 or 2 symbolic letters) and standalone options; writer
// version and encoding name of 0 or 2 symbolic letters, Open or OpenEncoding, with and without
// enforcement and indenter; newline string of 0, 1 or 2 arbitrary bytes; 7 ways of starting a Doc.
func C19_options() {
	how := sym.Choice(docStarts)
	f := plainBytes(2 * sym.Choice(2))
	d := docOptions(f, f)
	version := plainBytes(2 * sym.Choice(2))
	enc := "UTF-8"
	var out sink
	var w *xw.Writer
	var opts []xw.Option
	indent := sym.Choice(2) == 1
	if indent {
		opts = append(opts, xw.WithIndent())
	}
	if sym.Choice(2) == 1 {
		enc = plainBytes(2 * sym.Choice(2))
		w = xw.OpenEncoding(&out, enc, utf8Encoder(), opts...)
	} else {
		w = xw.Open(&out, opts...)
	}
	w.Version = version
	nl := "\n"
	if n := sym.Choice(4); n < 3 {
		nl = sym.StringN(n)
		if enc != "UTF-8" {
			for i := range nl {
				sym.Assume(nl[i] < 0x80) // goes through the encoder
			}
		}
		w.NewlineString = nl
	}
	if sym.Choice(2) == 1 {
		w.Enforce = false
	}
	ok(startDoc(w, how, d), "a document")
	ok(w.Flush(), "Flush")
	want := declText(declared(d, version, enc), nl)
	sym.Observe("out", out.b)
	if indent { // white space may follow
		sym.Assert(len(out.b) >= len(want) && string(out.b[:len(want)]) == want, "the declaration is not what was asked for")
		sym.Cover("indented")
		return
	}
	want += []string{"", "", "", "<e", "<e/>", "<!--c-->", ""}[how]
	sym.Assert(string(out.b) == want, "the declaration is not what was asked for")
	sym.Cover("declared")
}

// C19_values: versions and encodings of any kind.
// Bound: forced or writer version of up to 3 arbitrary bytes, forced or writer encoding name of up to 3
// arbitrary bytes (thorough: 4).
func C19_values() {
	which := sym.Choice(4)
	s := sym.String(3 + sym.Tier())
	d := xw.Doc{}
	var out sink
	var w *xw.Writer
	if which == 3 {
		w = xw.OpenEncoding(&out, s, utf8Encoder())
	} else {
		w = xw.Open(&out)
	}
	enc := "UTF-8"
	switch which {
	case 0:
		d = d.ForceVersion(s)
	case 1:
		w.Version = s
	case 2:
		d = d.ForceEncoding(s)
	case 3:
		enc = s
	}
	err := w.Start(d)
	if which >= 2 {
		good := or(s == "", encOK(s))
		if err != nil {
			sym.Assert(!good, "an encoding name was refused")
			sym.Assert(w.Depth() == -1, "a refused document is open")
			sym.Cover("refused")
			return
		}
		sym.Assert(good, "something that is not an encoding name was accepted")
	} else {
		ok(err, "a version")
	}
	ok(w.Write(xw.Elem{Name: "e"}), "Write")
	ok(w.EndAllFlush(), "EndAllFlush")
	got, msg := read(out.b)
	sym.Observe("out", out.b)
	sym.Assert(msg == "", "output is not well-formed")
	decl := declared(d, w.Version, enc)
	for i := range decl {
		decl[i].v = sanitize(decl[i].v)
	}
	sym.Assert(sameEvs(dropBlankTop(got), []ev{{k: evDecl, attrs: decl}, {k: evStart, name: "e"}, {k: evEnd, name: "e", val: "/"}}), "the declaration does not read back")
	sym.Cover("read back")
}

// C19_unchecked: without enforcement every encoding name is taken.
// Bound: forced or writer encoding name of up to 2 arbitrary bytes (thorough: 3), enforcement off: still in
// its quotes.
func C19_unchecked() {
	s := sym.String(2 + sym.Tier())
	var out sink
	d := xw.Doc{}
	w := xw.OpenEncoding(&out, s, utf8Encoder())
	if sym.Choice(2) == 1 {
		w = xw.Open(&out)
		d = d.ForceEncoding(s)
	}
	w.Enforce = false
	ok(w.Start(d), "a document")
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Observe("out", out.b)
	pre, post := "<?xml version=\"1.0\"", "?>\n"
	sym.Assert(len(out.b) >= len(pre)+len(post) && string(out.b[:len(pre)]) == pre && string(out.b[len(out.b)-len(post):]) == post, "the declaration is not what was asked for")
	if s == "" {
		sym.Assert(len(out.b) == len(pre)+len(post), "an empty encoding name was written")
	}
	sym.Cover("unchecked")
}

// C19_position: a Doc is accepted at the top only, and only one can be open.
// Bound: a Doc in each of 18 places, 3 ways; the declaration is at the start of what is written.
func C19_position() {
	p := &script{}
	p.place(sym.Choice(places))
	t := open()
	p.play(t.w)
	d := t.w.Depth()
	err := startDoc(t.w, sym.Choice(3), xw.Doc{})
	if p.m.top() != nil {
		sym.Assert(err != nil, "a document inside something is accepted")
		sym.Assert(t.w.Depth() == d, "a refused document changed the depth")
		sym.Cover("refused")
		return
	}
	ok(err, "a document")
	ok(t.w.EndAllFlush(), "EndAllFlush")
	want := declText([]kv{{"version", "1.0"}, {"encoding", "UTF-8"}}, "\n")
	sym.Assert(len(t.out.b) >= len(want) && string(t.out.b[:len(want)]) == want, "the declaration is not first")
	sym.Cover("accepted")
}

var _ = reg("C19_options", C19_options)
var _ = reg("C19_values", C19_values)
var _ = reg("C19_unchecked", C19_unchecked)
var _ = reg("C19_position", C19_position)

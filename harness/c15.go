package main

import (
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// specials are the characters of windows-1252 at 0x80 to 0x9F; 0 where it has none.
var specials = [32]rune{
	0x20AC, 0, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0, 0x017D, 0,
	0, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0, 0x017E, 0x0178,
}

// has: does the encoding have the character?
func has(enc int, r rune) bool {
	switch enc {
	case latin1:
		return r <= 0xFF
	case win1252:
		if r < 0x80 || (r >= 0xA0 && r <= 0xFF) {
			return true
		}
		in := false
		for _, s := range specials {
			in = or(in, and(s == r, s != 0))
		}
		return in
	}
	return true
}

// decoder reads encoded output character by character.
type decoder struct {
	enc int
	b   []byte
	i   int
}

func (d *decoder) unit() (rune, bool) {
	if d.i+2 > len(d.b) {
		return 0, false
	}
	a, b := rune(d.b[d.i]), rune(d.b[d.i+1])
	d.i += 2
	if d.enc == utf16le {
		a, b = b, a
	}
	return a<<8 | b, true
}

func (d *decoder) next() (rune, bool) {
	switch d.enc {
	case latin1, win1252:
		if d.i >= len(d.b) {
			return 0, false
		}
		c := rune(d.b[d.i])
		d.i++
		if d.enc == win1252 && c >= 0x80 && c < 0xA0 {
			return specials[c-0x80], specials[c-0x80] != 0
		}
		return c, true
	case utf16be, utf16le:
		r, ok := d.unit()
		if !ok || r < 0xD800 || r > 0xDFFF {
			return r, ok
		}
		lo, ok := d.unit()
		if !ok || r > 0xDBFF || lo < 0xDC00 || lo > 0xDFFF {
			return 0, false
		}
		return (r-0xD800)<<10 + (lo - 0xDC00) + 0x10000, true
	}
	r, n := utf8.DecodeRune(d.b[d.i:])
	if r == utf8.RuneError && n <= 1 {
		return 0, false
	}
	d.i += n
	return r, true
}

// ref reads the rest of a decimal character reference after the '&'.
func (d *decoder) ref() (rune, bool) {
	if c, ok := d.next(); !ok || c != '#' {
		return 0, false
	}
	v := rune(0)
	for n := 0; n < 8; n++ {
		c, ok := d.next()
		if ok && c == ';' {
			return v, n > 0
		}
		if !ok || c < '0' || c > '9' {
			return 0, false
		}
		v = v*10 + c - '0'
	}
	return 0, false
}

// sameDoc: the encoded bytes carry the document of the UTF-8 bytes.
func sameDoc(enc int, b []byte, ref string) {
	sym.Observe("out", b)
	d := &decoder{enc: enc, b: b}
	if enc == utf16be {
		bom, ok := d.next()
		sym.Assert(ok && bom == 0xFEFF, "no byte order mark")
	}
	i := 0
	if k := 4000; enc != utf16be && enc != utf16le && len(b) > k && len(ref) > k && string(b[:k]) == asciiOnly(ref[:k]) {
		i, d.i = k, k // nothing to decode
	}
	for i < len(ref) {
		r, n := utf8.DecodeRuneInString(ref[i:])
		i += n
		c, ok := d.next()
		sym.Assert(ok, "the encoded document ends early or is not in its encoding")
		if !has(enc, r) {
			sym.Assert(c == '&', "a character outside the encoding is not a reference")
			c, ok = d.ref()
			sym.Assert(ok, "a character outside the encoding is not a reference")
		}
		sym.Assert(c == r, "the decoded document differs")
	}
	sym.Assert(d.i == len(b), "the encoded document has more than the document")
}

// asciiOnly is s, if it is what C15_long writes before the interesting part.
func asciiOnly(s string) string {
	for k := len(s); k > 0; k-- {
		if s[k-1] >= utf8.RuneSelf {
			return ""
		}
	}
	return s
}

// encRun makes the calls on a Writer with the encoding and on one with UTF-8, and compares.
func encRun(enc, size int, flush func(i int) bool, calls []func(w *xw.Writer) error) {
	name, e := encoder(enc)
	var out, ref sink
	w := xw.OpenEncoding(&out, name, e, withBuf(size))
	u := xw.Open(&ref)
	ok(w.StartDoc(xw.Doc{}), "StartDoc")
	ok(u.StartDoc(xw.Doc{}.ForceEncoding(name)), "StartDoc")
	encCompare(enc, w, u, &out, &ref, flush, calls)
}

func encCompare(enc int, w, u *xw.Writer, out, ref *sink, flush func(i int) bool, calls []func(w *xw.Writer) error) {
	for i, c := range calls {
		err, uerr := c(w), c(u)
		sym.Assert((err == nil) == (uerr == nil), "the encoding changes the result of a call")
		sym.Assert(w.Depth() == u.Depth(), "the encoding changes the depth")
		if flush(i) {
			ok(w.Flush(), "Flush")
		}
	}
	if err, uerr := w.EndAllFlush(), u.EndAllFlush(); err != nil || uerr != nil {
		sym.Assert(err != nil && uerr != nil, "the encoding changes the result of EndAllFlush")
		ok(w.Flush(), "Flush")
		ok(u.Flush(), "Flush")
	}
	sameDoc(enc, out.b, string(ref.b))
	sym.Cover("compared")
}

func known(enc int, s string) {
	for _, r := range s {
		sym.Assume(has(enc, r))
	}
}

// oneRune is any character: well-formed UTF-8 of any length.
func oneRune() string {
	s := sym.StringN(1 + sym.Choice(4))
	r, k := utf8.DecodeRuneInString(s)
	sym.Assume(k == len(s) && !(r == utf8.RuneError && k <= 1))
	return s
}

// someRunes are characters of every length, inside and outside the encodings.
var someRunes = []string{"", "z", "&", "\u00e9", "\u0081", "\u0153", "\u20ac", "\u65e5", "\ufffd", "\U0001f600", "\U0010ffff"}

// C15_text: text and attribute values.
// Bound: iso-8859-1, windows-1252, utf-16be with a BOM, utf-16le without one, and utf-8; a document with a
// text or an attribute value of 0-16 letters (quick: 0, 3, ... 15), any one character and a letter; a buffer of 16 bytes; no
// Flush or one after each call.
func C15_text() {
	enc := sym.Choice(encodings)
	n := sym.Choice(17)
	if sym.Tier() == 0 && n%3 != 0 {
		sym.Stop()
	}
	s := fill(n, "a") + oneRune() + "z"
	calls := []func(w *xw.Writer) error{
		func(w *xw.Writer) error { return w.StartElem(xw.Elem{Name: "a"}) },
	}
	if sym.Choice(2) == 0 {
		calls = append(calls, func(w *xw.Writer) error { return w.WriteText(s) })
	} else {
		calls = append(calls, func(w *xw.Writer) error { return w.WriteAttr(xw.Attr{Name: "b", Value: s}) })
	}
	all := sym.Choice(2) == 1
	encRun(enc, 16, func(int) bool { return all }, calls)
}

// C15_bytes: strings which need not be well-formed.
// Bound: the 5 encodings; a text of any 1-2 bytes (thorough: 3) with 2 letters before it or none; a buffer of 16 bytes; no Flush.
func C15_bytes() {
	enc := sym.Choice(encodings)
	s := fill(2*sym.Choice(2), "a") + sym.StringN(1+sym.Choice(2+sym.Tier()))
	encRun(enc, 16, func(int) bool { return false }, []func(w *xw.Writer) error{
		func(w *xw.Writer) error { return w.StartElem(xw.Elem{Name: "a"}) },
		func(w *xw.Writer) error { return w.WriteText(s) },
	})
}

// C15_pieces: several characters, in one call or in several.
// Bound: the 5 encodings; a text of one of 11 characters (of 0-4 bytes, inside and outside the encodings), any one character,
// and another of the 11 (quick: 11 pairs; thorough: all), written at once, one by one, with a Flush in between or with an
// element in between; a buffer of 16 bytes, the text at 2 places in it (thorough: 4).
func C15_pieces() {
	enc := sym.Choice(encodings)
	i, k := sym.Choice(len(someRunes)), sym.Choice(4)
	j := (i*3 + 1) % len(someRunes)
	if sym.Tier() > 0 {
		j = sym.Choice(len(someRunes))
	} else if k > 1 {
		sym.Stop()
	}
	pre, s, t, u := "01234567890123456789"[:[]int{3, 10, 5, 12}[k]], someRunes[i], oneRune(), someRunes[j]
	calls := []func(w *xw.Writer) error{
		func(w *xw.Writer) error { return w.StartElem(xw.Elem{Name: "a"}) },
		func(w *xw.Writer) error { return w.WriteText(pre + s) },
	}
	mid := sym.Choice(4)
	switch mid {
	case 0:
		calls[1] = func(w *xw.Writer) error { return w.WriteText(pre + s + t + u) }
	case 1, 2:
		calls = append(calls, func(w *xw.Writer) error { return w.WriteText(t) })
		calls = append(calls, func(w *xw.Writer) error { return w.WriteText(u) })
	case 3:
		calls = append(calls, func(w *xw.Writer) error { return w.Write(xw.Elem{Name: "b"}) })
		calls = append(calls, func(w *xw.Writer) error { return w.WriteText(t + u) })
	}
	encRun(enc, 16, func(i int) bool { return mid == 2 && i > 0 }, calls)
}

// C15_other: names and contents which the encoding has.
// Bound: the 5 encodings; element and attribute names, comment, CDATA, PI and raw content, system identifier and
// entity value of 0-8 letters (quick: 0, 4, 8) and any one character the encoding has;
// buffers of 16 bytes; no Flush or one after each call.
func C15_other() {
	enc := sym.Choice(encodings)
	n := sym.Choice(9)
	if sym.Tier() == 0 && n%4 != 0 {
		sym.Stop()
	}
	s := fill(n, "a") + oneRune()
	known(enc, s)
	var calls []func(w *xw.Writer) error
	add := func(f func(w *xw.Writer) error) { calls = append(calls, f) }
	kind := sym.Choice(8)
	if kind < 6 {
		add(func(w *xw.Writer) error { return w.StartElem(xw.Elem{Name: "r"}) })
	}
	switch kind {
	case 0:
		add(func(w *xw.Writer) error { return w.StartElem(xw.Elem{Name: s}) })
	case 1:
		add(func(w *xw.Writer) error { return w.WriteAttr(xw.Attr{Name: s, Value: "v"}) })
	case 2:
		add(func(w *xw.Writer) error { return w.WriteComment(xw.Comment{Content: s}) })
	case 3:
		add(func(w *xw.Writer) error { return w.WriteCData(xw.CData{Content: s}) })
	case 4:
		add(func(w *xw.Writer) error { return w.WritePI(xw.PI{Target: "p", Content: s}) })
	case 5:
		add(func(w *xw.Writer) error { return w.WriteRaw(s) })
	case 6:
		add(func(w *xw.Writer) error { return w.StartDTD(xw.DTD{Name: "d", SystemID: s}) })
	case 7:
		add(func(w *xw.Writer) error { return w.StartDTD(xw.DTD{Name: "d"}) })
		add(func(w *xw.Writer) error { return w.WriteDTDEntity(xw.DTDEntity{Name: "e", Content: s}) })
	}
	all := sym.Choice(2) == 1
	encRun(enc, 16, func(int) bool { return all }, calls)
}

// C15_docs: whole documents.
// Bound: the 5 encodings; 7 documents with every kind of node, and 1 arbitrary valid call (thorough: 2) of 49 in each of 18
// places; buffers of 16 and 33 bytes; no flush or flushes after every call; with and without indenter.
func C15_docs() {
	enc := sym.Choice(encodings)
	p := anyScript(1 + sym.Tier())
	var opts []xw.Option
	if sym.Choice(2) == 1 {
		opts = append(opts, xw.WithIndent())
	}
	var out, ref sink
	_, e := encoder(enc)
	w := xw.OpenEncoding(&out, "UTF-8", e, append([]xw.Option{withBuf(16 + 17*sym.Choice(2))}, opts...)...)
	u := xw.Open(&ref, opts...)
	all := sym.Choice(2) == 1
	encCompare(enc, w, u, &out, &ref, func(int) bool { return all }, p.calls)
}

// C15_long: contents longer than the encoder's own buffer of 4096 bytes.
// Bound: the 5 encodings; a text of 2000-2024 letters (4068-4092 for those with one byte per letter; quick: every sixth)
// and any one character; a buffer of 5000 bytes, and for the utf-16 ones the default as well.
func C15_long() {
	enc := sym.Choice(encodings)
	n := 2000 + sym.Choice(25)
	if sym.Tier() == 0 && n%6 != 0 {
		sym.Stop()
	}
	size := 5000
	if enc == utf16be || enc == utf16le {
		size *= sym.Choice(2)
	} else {
		n += 2068
	}
	s := fill(n, "a") + oneRune() + "z"
	encRun(enc, size, func(int) bool { return false }, []func(w *xw.Writer) error{
		func(w *xw.Writer) error { return w.StartElem(xw.Elem{Name: "a"}) },
		func(w *xw.Writer) error { return w.WriteText(s) },
	})
}

var (
	_ = reg("C15_text", C15_text)
	_ = reg("C15_bytes", C15_bytes)
	_ = reg("C15_pieces", C15_pieces)
	_ = reg("C15_other", C15_other)
	_ = reg("C15_docs", C15_docs)
	_ = reg("C15_long", C15_long)
)

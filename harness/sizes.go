package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// big is a length at which a chunked or narrowed implementation would give out.
func big() int {
	sym.Large()
	s := []int{5000, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537}
	if sym.Tier() > 0 {
		s = append(s, 4097, 6144, 10000, 16383, 16385, 32767, 32769, 99999, 131072)
	}
	return s[sym.Choice(len(s))]
}

// bigFew is big with fewer lengths in the quick tier.
func bigFew() int {
	if sym.Tier() > 0 {
		return big()
	}
	sym.Large()
	return []int{8192, 65537}[sym.Choice(2)]
}

// around puts s after, before or in the middle of filler.
func around(n int, unit string) (pre, post string) {
	switch sym.Choice(3) {
	case 0:
		return fill(n, unit), ""
	case 1:
		return "", fill(n, unit)
	}
	return fill(n, unit), fill(n/2, "y")
}

// C01_big: the same for very long text.
// Bound: 1 arbitrary byte before, after or in the middle of filler of 9 lengths from 5000 to 65537
// (thorough: 18 to 131072) of 4 kinds (ASCII, two-byte, to be escaped, mixed with line ends); default buffer.
func C01_big() {
	n := big()
	unit := []string{"x", "\u00e9", "&", "a<\r\n"}[sym.Choice(4)]
	if unit == "&" || unit[0] == 'a' {
		if n > 20000 {
			sym.Stop()
		}
		n /= 4
	}
	pre, post := around(n, unit)
	mid := sym.StringN(1)
	var out sink
	w := xw.Open(&out)
	ok(w.Start(xw.Elem{Name: "a"}), "element")
	ok(w.WriteText(pre+mid+post), "text")
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Cover("long")
	checkFilled(out.b, "<a>", pre, mid, post, "</a>")
}

var _ = reg("C01_big", C01_big)

// C02_big: the same for very long values.
// Bound: 1 arbitrary byte before, after or in the middle of filler of 9 lengths from 5000 to 65537
// (thorough: 18 to 131072) of 4 kinds (ASCII, two-byte, to be escaped, mixed with line ends); default buffer.
func C02_big() {
	n := big()
	unit := []string{"x", "\u00e9", "\"", "a<\r\n"}[sym.Choice(4)]
	if unit == "\"" || unit[0] == 'a' {
		if n > 20000 {
			sym.Stop()
		}
		n /= 4
	}
	pre, post := around(n, unit)
	mid := sym.StringN(1)
	var out sink
	w := xw.Open(&out)
	ok(w.Start(xw.Elem{Name: "a", Attrs: []xw.Attr{{Name: "k", Value: pre + mid + post}}}), "element")
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Cover("long")
	b := out.b
	o, e := "<a k=\""+pre, post+"\"/>"
	if len(b) >= len(o)+len(e) && string(b[:len(o)]) == o && string(b[len(b)-len(e):]) == e {
		cut := append([]byte("<a k=\""), b[len(o):len(b)-len(e)]...)
		wantAttrs(append(cut, "\"/>"...), "a", []kv{{"k", sanitize(mid)}})
		return
	}
	wantAttrs(b, "a", []kv{{"k", sanitize(pre + mid + post)}})
}

var _ = reg("C02_big", C02_big)

// C03_big: the same for very long names.
// Bound: 2 arbitrary bytes before, after or in the middle of filler of 9 lengths from 5000 to 65537
// (thorough: 18 to 131072); CheckName, and as name of an element or an attribute.
func C03_big() {
	n := big()
	pre, post := around(n, "x")
	mid := sym.StringN(2)
	p := pre
	if p != "" {
		p = "x"
	}
	isName, must := nameClass(p + mid)
	var err error
	s := pre + mid + post
	switch sym.Choice(3) {
	case 0:
		err = xw.CheckName(s)
	case 1:
		err = xw.Open(&sink{}).Write(xw.Elem{Name: s})
	case 2:
		err = xw.Open(&sink{}).Start(xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: s}}})
	}
	sym.Observe("err", err == nil)
	sym.Cover("long")
	if err == nil {
		sym.Assert(isName, "something that is not a Name is accepted")
	} else {
		sym.Assert(!must, "a supported Name is refused")
	}
}

var _ = reg("C03_big", C03_big)

// C04_big: the same for very long strings.
// Bound: 1 arbitrary byte, or a character of 2-4 bytes, before, after or in the middle of filler of
// 9 lengths from 5000 to 65537 (thorough: 18 to 131072); the checkers, and a comment, a CDATA section and a PI.
func C04_big() {
	n := big()
	pre, post := around(n, "x")
	s := ""
	switch sym.Choice(4) {
	case 0:
		s = sym.StringN(1)
	case 1:
		s = string([]byte{0xc2}) + sym.StringN(1)
	case 2:
		s = "\xef\xbf" + sym.StringN(1)
	case 3:
		s = "\xf0\x9f\xbf" + sym.StringN(1)
	}
	all := pre + s + post
	switch sym.Choice(7) {
	case 0:
		exactly(xw.CheckChars(all, true), charsOK(s, true), "CheckChars")
	case 1:
		exactly(xw.CheckChars(all, false), charsOK(s, false), "CheckChars")
	case 2:
		exactly(xw.CheckPubID(all), pubidOK(s), "CheckPubID")
	case 3:
		p := ""
		if pre != "" {
			p = "x"
		}
		exactly(xw.CheckEncoding(all), encOK(p+s), "CheckEncoding")
	case 4:
		exactly(xw.Open(&sink{}).Write(xw.Comment{Content: all}), and(charsOK(s, true), s != "-" || post != ""), "a comment")
	case 5:
		exactly(xw.Open(&sink{}).Write(xw.CData{Content: all}), charsOK(s, true), "a CDATA section")
	case 6:
		exactly(xw.Open(&sink{}).Write(xw.PI{Target: "p", Content: all}), charsOK(s, true), "a PI")
	}
}

var _ = reg("C04_big", C04_big)

// C05_big: the same for very long content.
// Bound: 2 pieces of 1 byte out of - > ] ? after filler of 8192 or 65537 letters (thorough: 18 lengths from 4097 to 131072),
// with the same filler or nothing between or after them, in one call, two or three; comment, CDATA section, PI.
func C05_big() {
	n := bigFew()
	f := fill(n, "f")
	piece := func() string { return []string{"-", ">", "]", "?"}[sym.Choice(4)] }
	c := []string{f + piece(), piece()}
	between := sym.Choice(3)
	if n > 10000 && between == 0 && sym.Tier() == 0 {
		sym.Stop()
	}
	switch between {
	case 0:
		c[0] += "f" + f
	case 1:
		c[1] += "f" + f
	}
	kind := sym.Choice(3)
	s := openSection(2, kind == 1)
	if kind == 2 {
		all := c[0] + c[1]
		if s.w.WritePI(xw.PI{Target: "p", Content: all}) != nil {
			sym.Cover("refused")
			sym.Assert(c[0][len(c[0])-1] == '?' && c[1][0] == '>', "a PI was refused")
			sym.Stop()
		}
		sym.Cover("accepted")
		ok(s.w.EndAllFlush(), "EndAllFlush")
		got, msg := read(s.out.b)
		sym.Assert(msg == "", "content broke out of its node")
		want := append(append(s.pre, ev{k: evPI, name: "p", val: piContent(all)}), s.post...)
		sym.Assert(sameEvs(got, want), "PI does not read back")
		return
	}
	ok(s.start(""), "Start")
	pieces := c
	switch sym.Choice(3) {
	case 0:
		pieces = []string{c[0] + c[1]}
	case 1:
		// the filler by itself
		pieces = []string{f, c[0][len(f):], c[1]}
	}
	for _, p := range pieces {
		if s.content(p) == nil {
			s.acc += p
		}
	}
	s.finish()
	ok(s.w.EndAllFlush(), "EndAllFlush")
	s.check()
}

var _ = reg("C05_big", C05_big)

// C06_long: the same for long literals.
// Bound: 2 arbitrary bytes before, after or in the middle of filler of 4 lengths from 20 to 300, or 8192 or 65537
// (thorough: 18 lengths to 131072) without or (system IDs and values) with a quote in it, as system ID, public ID or entity value in 10 declarations.
func C06_long() {
	n := 0
	if k := sym.Choice(5); k < 4 {
		n = []int{20, 64, 256, 300}[k]
	} else {
		n = bigFew()
	}
	pre, post := around(n, "x")
	mid := sym.StringN(2)
	var out sink
	w := xw.Open(&out)
	place := sym.Choice(literalPlaces)
	pub, sys := "", ""
	if place < 8 && sym.Choice(2) == 1 {
		pub, sys = pre+mid+post, "s"
	} else {
		q := ""
		if n < 5000 {
			q = []string{"", "\"", "'"}[sym.Choice(3)]
		}
		sys = pre + mid + post + q
	}
	err, want, evs := literalPlace(w, place, pub, sys)
	checkLiterals(&out, w, err, want, evs)
}

var _ = reg("C06_long", C06_long)

// C10_big: a failing writer is reported however much is written at once.
// Bound: text, attribute value, comment, CDATA, raw of 17, 2047-2049, 4096, 5000 and 20000 (thorough: 9 up to 65536)
// letters, and a sibling; a fault after any number of bytes, in any of the ways of C10_faults; buffers of 16 (up to 17 letters),
// 4096 bytes and the default.
func C10_big() {
	sym.Large()
	ns := []int{17, 2047, 2048, 2049, 4096, 5000, 20000, 32768, 65536}
	n := ns[sym.Choice(7+2*sym.Tier())]
	f := fill(n, "f") + letter()
	size := []int{0, 4096, 16}[sym.Choice(3)]
	if size == 16 && n > 17 {
		sym.Stop()
	}
	p := &script{}
	p.start(xw.Elem{Name: "r"})
	n1 := []xw.Writable{xw.Text(f), xw.Attr{Name: "k", Value: f}, xw.Comment{Content: f}, xw.CData{Content: f}, xw.Raw(f)}[sym.Choice(5)]
	p.call(func(w *xw.Writer) error { return w.Write(n1) })
	p.write(xw.Elem{Name: "s"})
	m := sym.Choice(5)
	mode := 0
	if m == 3 {
		mode = 1
	} else if m == 4 {
		mode = 2
	}
	faultRun(p, size, false, mode, m%3)
}

var _ = reg("C10_big", C10_big)

// C11_big: what is written at once can be larger than any buffer.
// Bound: text, attribute value, comment, CDATA, raw and element names of 8192 and 65537 letters (thorough: 18 lengths to 131072)
// with one arbitrary byte (quick: below 0x80; for names: a letter) at the end or the front; buffers of 16, 2048, 65536 and (thorough) 4096; a flush before it or not.
func C11_big() {
	n := bigFew()
	size := []int{0, 65536, 16, 4096}[sym.Choice(3+sym.Tier())]
	f := fill(n, "f")
	kind := sym.Choice(6)
	mid := ""
	if kind == 5 {
		mid = letter()
	} else {
		mid = sym.StringN(1)
		if sym.Tier() == 0 {
			sym.Assume(mid[0] < 0x80)
		}
	}
	s := mid + f
	if sym.Choice(2) == 1 {
		s = f + mid
	}
	n1 := []xw.Writable{xw.Text(s), xw.Attr{Name: "a", Value: s}, xw.Comment{Content: s}, xw.CData{Content: s}, xw.Raw(s), xw.Elem{Name: s}}[kind]
	before := sym.Choice(2) == 1
	compareRuns([]func(w *xw.Writer) error{
		func(w *xw.Writer) error { return w.Start(xw.Elem{Name: "e"}) },
		func(w *xw.Writer) error { return w.Write(n1) },
		func(w *xw.Writer) error { return w.Write(xw.Elem{Name: "after"}) },
	}, size, func(i int) bool { return before && i == 0 })
}

var _ = reg("C11_big", C11_big)

// C18_big: the same for very long raw text.
// Bound: raw text of 9 lengths from 5000 to 65537 (thorough: 18 to 131072) with one arbitrary byte at the end or the
// front, in a start tag, in an element, a comment or a DTD; default buffer.
func C18_big() {
	n := big()
	s := fill(n, "<\r\"]")
	if sym.Choice(2) == 0 {
		s += sym.StringN(1)
	} else {
		s = sym.StringN(1) + s
	}
	var out sink
	w := xw.Open(&out)
	pre, post := "", ""
	switch sym.Choice(4) {
	case 0:
		ok(w.Start(xw.Elem{Name: "e"}), "Start")
		pre, post = "<e", "/>"
	case 1:
		ok(w.Start(xw.Elem{Name: "e"}), "Start")
		ok(w.Next(), "Next")
		pre, post = "<e>", "</e>"
	case 2:
		ok(w.Start(xw.Comment{}), "Start")
		ok(w.Next(), "Next")
		pre, post = "<!--", "-->"
	case 3:
		pre, post = "", ""
	}
	ok(w.WriteRaw(s), "WriteRaw")
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Observe("len", len(out.b))
	sym.Assert(string(out.b) == pre+s+post, "raw text is not verbatim")
	sym.Cover("raw")
}

var _ = reg("C18_big", C18_big)

package main

import (
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// sink is the io.Writer every harness writes to.
type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

// isXMLChar is the XML 1.0 Char production.
func isXMLChar(r rune) bool {
	return r == 0x9 || r == 0xA || r == 0xD || (r >= 0x20 && r <= 0xD7FF) || (r >= 0xE000 && r <= 0xFFFD) || (r >= 0x10000 && r <= 0x10FFFF)
}

// anyText is every string of up to n bytes, and every one of 3 or 4 bytes which begins like a character of that length.
func anyText(n int) string {
	max := n
	if max < 4 {
		max = 4
	}
	k := sym.Choice(max + 1)
	s := sym.StringN(k)
	if k > n {
		sym.Assume(s[0] >= [...]byte{3: 0xe0, 4: 0xf0}[k])
	}
	return s
}

// okRune: the next character of s is well-formed UTF-8 and an XML character.
func okRune(s string) bool {
	r, w := utf8.DecodeRuneInString(s)
	return !(r == utf8.RuneError && w <= 1) && isXMLChar(r)
}

func runeWidth(s string) int {
	_, w := utf8.DecodeRuneInString(s)
	return w
}

// sanitize is what a reader must get back for text s: s itself, with anything that is not an
// XML character replaced by U+FFFD.
func sanitize(s string) string {
	var out []byte
	for i := 0; i < len(s); {
		w := sym.Pin(runeWidth(s[i:]))
		if okRune(s[i:]) {
			out = append(out, s[i:i+w]...)
		} else {
			out = append(out, "\uFFFD"...)
		}
		i += w
	}
	return string(out)
}

// unescapeText is what an XML processor reports for character data b; ok=false if b is not
// well-formed character data.
func unescapeText(b []byte) (string, bool) {
	var out []byte
	for i := 0; i < len(b); {
		switch b[i] {
		case '<':
			return "", false
		case '&':
			ch, n := parseRef(b[i:])
			if n == 0 {
				return "", false
			}
			out = append(out, ch...)
			i += n
		case ']':
			if i+2 < len(b) && b[i+1] == ']' && b[i+2] == '>' {
				return "", false
			}
			out = append(out, ']')
			i++
		case '\r':
			// line-end normalisation
			out = append(out, '\n')
			i++
			if i < len(b) && b[i] == '\n' {
				i++
			}
		default:
			out = append(out, b[i])
			i++
		}
	}
	return string(out), true
}

func parseRef(b []byte) (string, int) {
	n := 1
	for n < len(b) && b[n] != ';' {
		n++
		if n > 12 {
			return "", 0
		}
	}
	if n >= len(b) {
		return "", 0
	}
	name := string(b[1:n])
	switch name {
	case "amp":
		return "&", n + 1
	case "lt":
		return "<", n + 1
	case "gt":
		return ">", n + 1
	case "quot":
		return "\"", n + 1
	case "apos":
		return "'", n + 1
	}
	if len(name) < 2 || name[0] != '#' {
		return "", 0
	}
	v := 0
	d := name[1:]
	if d[0] == 'x' {
		d = d[1:]
		if len(d) == 0 {
			return "", 0
		}
		for i := 0; i < len(d); i++ {
			c := d[i]
			switch {
			case c >= '0' && c <= '9':
				v = v*16 + int(c-'0')
			case c >= 'a' && c <= 'f':
				v = v*16 + int(c-'a') + 10
			case c >= 'A' && c <= 'F':
				v = v*16 + int(c-'A') + 10
			default:
				return "", 0
			}
		}
	} else {
		for i := 0; i < len(d); i++ {
			if d[i] < '0' || d[i] > '9' {
				return "", 0
			}
			v = v*10 + int(d[i]-'0')
		}
	}
	if v > 0x10FFFF || !isXMLChar(rune(v)) {
		return "", 0
	}
	return string(rune(v)), n + 1
}

// fillLens are lengths near the places where an implementation might switch path: small sizes,
// powers of two, and the writer's default buffer.
var fillLens = []int{1, 2, 3, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 2039, 2040, 2041, 2042, 2043, 2044, 2045, 2046, 2047, 2048, 2049, 4095, 4096}

// fill is at least n bytes of filler.
func fill(n int, unit string) string {
	if n == 0 {
		return ""
	}
	b := []byte(unit)
	for len(b)*2 <= n {
		b = append(b, b...)
	}
	for len(b) < n {
		k := n - len(b)
		if k < len(unit) || k%len(unit) != 0 {
			k = len(unit)
		}
		if k > len(b) {
			k = len(b)
		}
		b = append(b, b[:k]...)
	}
	return string(b)
}

// checkText: what is between the tags reads back as s.
func checkText(b []byte, open, s, end string) {
	sym.Observe("out", b)
	sym.Assert(len(b) >= len(open)+len(end) && string(b[:len(open)]) == open && string(b[len(b)-len(end):]) == end, "markup around text")
	got, ok := unescapeText(b[len(open) : len(b)-len(end)])
	sym.Assert(ok, "text is not well-formed character data")
	sym.Assert(got == sanitize(s), "text does not read back")
}

// checkFilled is checkText for s = pre + mid + post with harmless pre and post, which are compared
// as they are when the output has them so (reading them byte by byte gives the same, slower).
func checkFilled(b []byte, open, pre, mid, post, end string) {
	o, e := open+pre, post+end
	if len(b) >= len(o)+len(e) && string(b[:len(o)]) == o && string(b[len(b)-len(e):]) == e {
		checkText(b, o, mid, e)
		return
	}
	checkText(b, open, pre+mid+post, end)
}

// C01_text: Text written inside an element reads back as the same string.
// Bound: every byte string of up to 3 bytes (thorough: 4), and of 4 with a first byte from 0xf0.
func C01_text() {
	s := anyText(3 + sym.Tier())
	var out sink
	w := xw.Open(&out)
	ok(w.Start(xw.Elem{Name: "a"}), "element")
	ok(w.WriteText(s), "text")
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Cover("text")
	checkText(out.b, "<a>", s, "</a>")
}

// C01_routes: the same through every way of writing text.
// Bound: 2 arbitrary bytes; WriteText, Write, Block, Elem.Content, nested Content, with enforcement
// off, with an indenter, top level, after a Next, or through OpenEncoding's sibling options.
func C01_routes() {
	s := sym.StringN(2)
	var out sink
	route := sym.Choice(10)
	var opts []xw.Option
	if route == 6 {
		opts = append(opts, xw.WithIndent())
	}
	if route == 7 {
		opts = append(opts, func(w *xw.Writer) { w.Enforce = false })
	}
	if route == 9 {
		opts = append(opts, func(w *xw.Writer) { w.InitialBufSize = 1 })
	}
	w := xw.Open(&out, opts...)
	pre, post := "<a>", "</a>"
	switch route {
	case 0, 6, 7, 9:
		ok(w.StartElem(xw.Elem{Name: "a"}), "element")
		ok(w.Write(xw.Text(s)), "text")
	case 1:
		ok(w.Block(xw.Elem{Name: "a"}, xw.Text(s)), "block")
	case 2:
		ok(w.WriteElem(xw.Elem{Name: "a", Content: []xw.Writable{xw.Text(s)}}), "element")
	case 3:
		ok(w.Write(xw.Elem{Name: "a", Content: []xw.Writable{xw.Elem{Name: "b", Content: []xw.Writable{xw.Text(s)}}}}), "element")
		pre, post = "<a><b>", "</b></a>"
	case 4:
		ok(w.WriteText(s), "text")
		pre, post = "", ""
	case 5:
		ok(w.Start(xw.Elem{Name: "a", Attrs: []xw.Attr{{Name: "k"}}}), "element")
		ok(w.Next(), "Next")
		ok(w.Write(xw.Text(s), xw.Comment{Content: "c"}), "text")
		pre, post = "<a k=\"\">", "<!--c--></a>"
	case 8:
		ok(w.Start(xw.Elem{Name: "a"}, xw.Elem{Name: "b"}), "element")
		ok(w.EndElem(), "end")
		ok(w.WriteText(s), "text")
		pre, post = "<a><b/>", "</a>"
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Cover("route")
	checkText(out.b, pre, s, post)
}

var _ = reg("C01_routes", C01_routes)

// C01_long: text reads back whatever surrounds the unusual bytes and wherever the buffer ends.
// Bound: 1 arbitrary byte after filler of 40 different lengths up to 4096 (ASCII or two-byte
// filler), followed by 0, 1 or 8 more bytes, with buffers of 16, 100 and 2048 bytes; or 2
// arbitrary bytes after filler of up to 24 bytes with a buffer of 16.
func C01_long() {
	var out sink
	var pre, mid, post string
	buf := 16
	if sym.Choice(2) == 0 {
		n := fillLens[sym.Choice(len(fillLens))]
		pre, mid, post = fill(n, []string{"x", "\u00e9"}[sym.Choice(2)]), sym.StringN(1), fill([]int{0, 1, 8}[sym.Choice(3)], "y")
		if n < 300 {
			buf = []int{16, 100, 2048}[sym.Choice(3)]
		} else {
			buf = 2048
		}
	} else {
		pre, mid = fill(sym.Choice(25), "x"), sym.StringN(2)
	}
	w := xw.Open(&out, func(w *xw.Writer) { w.InitialBufSize = buf })
	ok(w.Start(xw.Elem{Name: "a"}), "element")
	ok(w.WriteText(pre+mid+post), "text")
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Cover("long")
	checkFilled(out.b, "<a>", pre, mid, post, "</a>")
}

var _ = reg("C01_long", C01_long)

// C01_pieces: text given in several calls reads back as the concatenation.
// Bound: 3 calls with strings of 1 arbitrary byte each out of a printable subset or a multi-byte
// character, or a flush in between; bytes that only mean something together ("]]>", "\r\n") included.
func C01_pieces() {
	var out sink
	w := xw.Open(&out)
	ok(w.Start(xw.Elem{Name: "a"}), "element")
	all := ""
	for i := 0; i < 3; i++ {
		s := sym.StringN(1)
		ok(w.WriteText(s), "text")
		all += sanitize(s)
		if i == 1 && sym.Choice(2) == 1 {
			ok(w.Flush(), "flush")
		}
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Cover("pieces")
	checkText(out.b, "<a>", all, "</a>")
}

var _ = reg("C01_pieces", C01_pieces)
var _ = reg("C01_text", C01_text)

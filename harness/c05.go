package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// normLE is a reader's line-end normalisation.
func normLE(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\r' {
			out = append(out, '\n')
			if i+1 < len(s) && s[i+1] == '\n' {
				i++
			}
			continue
		}
		out = append(out, s[i])
	}
	return string(out)
}

// section is a comment or CDATA section under construction: what the writer accepted so far.
type section struct {
	w     *xw.Writer
	out   *sink
	cdata bool
	acc   string
	pre   []ev // what a reader reports before it
	post  []ev
	lead  string // the markup before the content
}

func (s *section) start(content string) error {
	if s.cdata {
		return s.w.Start(xw.CData{Content: content})
	}
	return s.w.Start(xw.Comment{Content: content})
}

func (s *section) content(p string) error {
	if s.cdata {
		return s.w.Write(xw.CDataContent(p))
	}
	return s.w.Write(xw.CommentContent(p))
}

func (s *section) end() error {
	if s.cdata {
		return s.w.EndCData()
	}
	return s.w.EndComment()
}

func (s *section) ev() ev {
	if s.cdata {
		return ev{k: evCData, val: normLE(s.acc)}
	}
	return ev{k: evComment, val: normLE(s.acc)}
}

// refused: the content of the node itself was refused. What is in the output must be a prefix of
// the opening markup, and the history ends here.
func (s *section) refused() {
	sym.Cover("refused")
	ok(s.w.Flush(), "Flush")
	b := s.out.b
	sym.Observe("out", b)
	sym.Assert(len(b) <= len(s.lead) && string(b) == s.lead[:len(b)], "refused content reached the output")
	sym.Stop()
}

// finish ends the section, after another piece if it cannot end as it is, and reads it back.
func (s *section) finish() {
	if err := s.end(); err != nil {
		sym.Cover("end refused")
		ok(s.content("x"), "plain content")
		s.acc += "x"
		ok(s.end(), "end after plain content")
	} else {
		sym.Cover("accepted")
	}
}

func (s *section) check() {
	sym.Observe("out", s.out.b)
	got, msg := read(s.out.b)
	sym.Assert(msg == "", "content broke out of its node")
	want := append(append(s.pre, s.ev()), s.post...)
	sym.Assert(sameEvs(got, want), "content does not read back")
}

const sectionParents = 7

// openSection makes the place for a section: top level, a document, an element whose tag is open,
// opened, deep (the node stack grows with the section), the element's sibling, a DTD.
func openSection(parent int, cdata bool) *section {
	s := &section{out: &sink{}, cdata: cdata}
	s.w = xw.Open(s.out)
	e := ev{k: evStart, name: "e"}
	x := ev{k: evEnd, name: "e"}
	switch parent {
	case 0:
		// no parent
	case 1:
		if cdata {
			sym.Stop()
		}
		ok(s.w.Start(xw.Doc{}), "doc")
		s.lead = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
		s.pre = []ev{{k: evDecl, attrs: []kv{{"version", "1.0"}, {"encoding", "UTF-8"}}}, {k: evText, val: "\n"}}
	case 2:
		ok(s.w.Start(xw.Elem{Name: "e"}), "elem")
		s.lead = "<e>"
		s.pre, s.post = []ev{e}, []ev{x}
	case 3:
		ok(s.w.Start(xw.Elem{Name: "e"}), "elem")
		ok(s.w.Next(), "Next")
		s.lead = "<e>"
		s.pre, s.post = []ev{e}, []ev{x}
	case 4:
		for i := 0; i < 8; i++ {
			ok(s.w.Start(xw.Elem{Name: "e"}), "elem")
			s.lead += "<e>"
			s.pre = append(s.pre, e)
			s.post = append(s.post, x)
		}
	case 5:
		// after a section of the same kind that ends in half a delimiter
		ok(s.w.Start(xw.Elem{Name: "e"}), "elem")
		s.pre, s.post = []ev{e}, []ev{x}
		if cdata {
			ok(s.w.Write(xw.CData{Content: "]]"}), "cdata")
			s.lead = "<e><![CDATA[]]]]>"
			s.pre = append(s.pre, ev{k: evCData, val: "]]"})
		} else {
			ok(s.w.Write(xw.Comment{Content: "- -x"}), "comment")
			s.lead = "<e><!--- -x-->"
			s.pre = append(s.pre, ev{k: evComment, val: "- -x"})
		}
	case 6:
		if cdata {
			sym.Stop()
		}
		ok(s.w.Start(xw.DTD{Name: "d"}), "dtd")
		s.lead = "<!DOCTYPE d ["
		s.pre, s.post = []ev{{k: evDTD, name: "d"}}, []ev{{k: evDTDEnd}}
	}
	if cdata {
		s.lead += "<![CDATA["
	} else {
		s.lead += "<!--"
	}
	return s
}

// piece gives one piece of content and notes whether it was accepted.
func (s *section) piece(p string) {
	if err := s.content(p); err == nil {
		s.acc += p
	} else {
		sym.Cover("piece refused")
	}
}

// alphabet is a byte that can be part of a delimiter.
func delimByte() byte {
	c := sym.Byte()
	sym.Assume(c == '-' || c == '>' || c == ']' || c == '!' || c == '?' || c == 'x' || c == '\r')
	return c
}

func delims(max int) string {
	b := make([]byte, sym.Choice(max+1))
	for i := range b {
		b[i] = delimByte()
	}
	return string(b)
}

// whole writes a section in one call, by one of the APIs which do.
func (s *section) whole(c string) error {
	if s.cdata {
		n := xw.CData{Content: c}
		switch sym.Choice(3) {
		case 0:
			return s.w.WriteCData(n)
		case 1:
			return s.w.Write(n)
		default:
			return s.w.Block(n)
		}
	}
	n := xw.Comment{Content: c}
	switch sym.Choice(3) {
	case 0:
		return s.w.WriteComment(n)
	case 1:
		return s.w.Write(n)
	default:
		return s.w.Block(n)
	}
}

// wholeAndCheck: written in one call.
func (s *section) wholeAndCheck(c string) {
	if err := s.whole(c); err != nil {
		// a comment may also be refused at its end
		if !s.cdata && len(c) > 0 && c[len(c)-1] == '-' {
			s.lead += c
		}
		s.refused()
	}
	s.acc = c
	sym.Cover("written")
	ok(s.w.EndAllFlush(), "EndAllFlush")
	s.check()
}

// nodeAndPiece: content in the node and a piece after it.
func (s *section) nodeAndPiece(c, p string) {
	ok(s.start(c), "start")
	if err := s.content(p); err != nil {
		// either of the two may be the reason: neither may be there unless it is harmless
		sym.Cover("piece refused")
		ok(s.w.Flush(), "Flush")
		b, lead := s.out.b, s.lead+c
		sym.Observe("out", b)
		sym.Assert(len(b) <= len(lead) && string(b) == lead[:len(b)], "refused content reached the output")
		sym.Stop()
	}
	s.acc = c + p
	s.finish()
	ok(s.w.EndAllFlush(), "EndAllFlush")
	s.check()
}

// C05_content: whatever bytes a comment or CDATA section is given, it reads back or is refused.
// Bound: inside an element; every content of up to 3 bytes (thorough: 4), or 4 with a first byte from 0xf0, written in one call (3
// APIs), 1+2 bytes in the node and a later call, or up to 3 bytes split over two calls; StrictChars
// on and off.
func C05_content() {
	s := openSection(2, sym.Choice(2) == 1)
	s.w.StrictChars = sym.Choice(2) == 0
	switch sym.Choice(3) {
	case 0:
		s.wholeAndCheck(anyText(3 + sym.Tier()))
	case 1:
		s.nodeAndPiece(sym.String(1), sym.String(2))
	case 2:
		ok(s.start(""), "start")
		n := sym.Choice(4)
		b := sym.StringN(3)
		s.piece(b[:n])
		s.piece(b[n:])
		s.finish()
		ok(s.w.EndAllFlush(), "EndAllFlush")
		s.check()
	}
}

// C05_splits: delimiters cannot be put together from the content of several calls.
// Bound: up to 4 (thorough: 5) calls with up to 2 bytes each out of - > ] ! ? x CR, the first two
// with up to 3, with nothing, Next or Flush between them, in both kinds of section.
func C05_splits() {
	s := openSection(2, sym.Choice(2) == 1)
	ok(s.start(""), "start")
	between := sym.Choice(3)
	n := 1 + sym.Choice(4+sym.Tier())
	for i := 0; i < n; i++ {
		if i > 0 {
			switch between {
			case 1:
				ok(s.w.Next(), "Next")
			case 2:
				ok(s.w.Flush(), "Flush")
			}
		}
		max := 1
		if n <= 2 {
			max = 3
		} else if n == 3 {
			max = 2
		}
		s.piece(delims(max))
	}
	s.finish()
	ok(s.w.EndAllFlush(), "EndAllFlush")
	s.check()
}

// C05_places: the same wherever the section is, and however it is written.
// Bound: 7 places (no parent, document, open element, opened element, nested 8 deep, after a
// section that ends in half a delimiter, DTD), content of up to 3 bytes out of - > ] ! ? x CR in one
// call, in the node and one more call, or as the Content of an element.
func C05_places() {
	s := openSection(sym.Choice(sectionParents), sym.Choice(2) == 1)
	switch sym.Choice(3) {
	case 0:
		s.wholeAndCheck(delims(3))
	case 1:
		s.nodeAndPiece(delims(1), delims(2))
	case 2:
		s.pre = append(s.pre, ev{k: evStart, name: "q"})
		s.post = append([]ev{{k: evText, val: "y"}, {k: evEnd, name: "q"}}, s.post...)
		c := delims(3)
		var n xw.Writable = xw.Comment{Content: c}
		if s.cdata {
			n = xw.CData{Content: c}
		}
		if s.w.Write(xw.Elem{Name: "q", Content: []xw.Writable{n, xw.Text("y")}}) != nil {
			sym.Cover("refused")
			sym.Stop()
		}
		s.acc = c
		sym.Cover("written")
		ok(s.w.EndAllFlush(), "EndAllFlush")
		s.check()
	}
}

// C05_long: the same for long content, near the end of the buffer and across it.
// Bound: 5 lengths (thorough: 41) of harmless content before and between two pieces of up to 2
// bytes out of - > ] ! ? x CR, with buffers of 16 and 2048 bytes.
func C05_long() {
	cdata := sym.Choice(2) == 1
	s := &section{out: &sink{}, cdata: cdata}
	size := []int{16, 2048}[sym.Choice(2)]
	s.w = xw.Open(s.out, func(w *xw.Writer) { w.InitialBufSize = size })
	lens := []int{1, 15, 64, 2037, 4096}
	if sym.Tier() > 0 {
		lens = fillLens
	}
	f := fill(lens[sym.Choice(len(lens))], "f")
	ok(s.start(""), "start")
	s.piece(f)
	a := delims(2)
	s.piece(a)
	g := ""
	if sym.Choice(2) == 1 {
		g = f
	}
	d := delims(1)
	s.piece(g + d)
	s.finish()
	ok(s.w.EndAllFlush(), "EndAllFlush")
	// the filler is read as it is
	b := s.out.b
	lead := 4
	if cdata {
		lead = 9
	}
	sym.Assert(len(b) > lead+len(f) && string(b[lead:lead+len(f)]) == f && string(s.acc[:len(f)]) == f, "long content")
	b = append(append([]byte{}, b[:lead]...), b[lead+len(f):]...)
	s.acc = s.acc[len(f):]
	s.out.b = b
	s.check()
}

// piContent is what a reader reports for the content of a PI: white space after the target is a
// separator.
func piContent(s string) string {
	s = normLE(s)
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\t' || s[0] == '\n') {
		s = s[1:]
	}
	return s
}

// C05_pi: a processing instruction reads back or is refused.
// Bound: every content of up to 3 bytes (thorough: 4), of 4 with a first byte from 0xf0, or up to 4 bytes out of - > ] ! ? x CR;
// every target of 3 bytes spelling a variation of xml or xmx; in 4 places (no parent, document, open element,
// opened element, deep), StrictChars on and off.
func C05_pi() {
	parent := []int{0, 1, 2, 3, 4}[sym.Choice(5)]
	s := openSection(parent, false)
	s.lead = s.lead[:len(s.lead)-4]
	s.w.StrictChars = sym.Choice(2) == 0
	target, c := "p", ""
	switch sym.Choice(3) {
	case 0:
		if parent != 2 {
			sym.Stop()
		}
		c = anyText(3 + sym.Tier())
	case 1:
		c = delims(4)
	case 2:
		t := []byte{sym.Byte(), sym.Byte(), sym.Byte()}
		sym.Assume(t[0]|0x20 == 'x')
		sym.Assume(t[1]|0x20 == 'm')
		sym.Assume(t[2]|0x20 == 'l' || t[2] == 'x')
		target = string(t)
		c = []string{"", "version='1.0'"}[sym.Choice(2)]
	}
	var err error
	if sym.Choice(2) == 0 {
		err = s.w.WritePI(xw.PI{Target: target, Content: c})
	} else {
		err = s.w.Write(xw.PI{Target: target, Content: c})
	}
	if err != nil {
		s.refused()
	}
	sym.Cover("written")
	ok(s.w.WriteComment(xw.Comment{Content: "after"}), "comment after")
	ok(s.w.EndAllFlush(), "EndAllFlush")
	sym.Observe("out", s.out.b)
	got, msg := read(s.out.b)
	sym.Assert(msg == "", "content broke out of its node")
	want := append(append(s.pre, ev{k: evPI, name: target, val: piContent(c)}, ev{k: evComment, val: "after"}), s.post...)
	sym.Assert(sameEvs(got, want), "PI does not read back")
}

var _ = reg("C05_content", C05_content)
var _ = reg("C05_splits", C05_splits)
var _ = reg("C05_places", C05_places)
var _ = reg("C05_long", C05_long)
var _ = reg("C05_pi", C05_pi)

// C05_top: where nothing is open, content can be written too, and one call must not end what it is content of.
// Bound: a piece of comment or CDATA content of up to 4 (thorough: 5) bytes, each of them a byte of a
// delimiter; one piece, or two of which the second has up to 2 bytes.
func C05_top() {
	var out sink
	w := xw.Open(&out)
	want := ""
	cdata := sym.Choice(2) == 1
	pieces := []string{delims(4 + sym.Tier())}
	if sym.Choice(2) == 1 {
		pieces = append(pieces, delims(2))
	}
	for _, p := range pieces {
		var err error
		bad := "--"
		if cdata {
			bad = "]]>"
			err = w.WriteCDataContent(p)
		} else {
			err = w.WriteCommentContent(p)
		}
		if contains(p, bad) {
			sym.Assert(err != nil, "what ends a node was accepted as its content")
			sym.Cover("refused")
			break
		}
		sym.Assert(len(pieces) == 2 || err == nil, "content was refused")
		if err != nil {
			break
		}
		sym.Cover("accepted")
		want += p
	}
	ok(w.Flush(), "Flush")
	sym.Observe("out", out.b)
	sym.Assert(string(out.b) == want, "what was refused is in the output, or what was accepted is not")
}

func contains(s, part string) bool {
	for i := 0; i+len(part) <= len(s); i++ {
		if s[i:i+len(part)] == part {
			return true
		}
	}
	return false
}

var _ = reg("C05_top", C05_top)

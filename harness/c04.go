package main

import (
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// discouraged are the ranges the XML recommendation (2.2, note) asks authors to avoid.
func discouraged(r rune) bool {
	return (r >= 0x7F && r <= 0x84) || (r >= 0x86 && r <= 0x9F) || (r >= 0xFDD0 && r <= 0xFDEF) ||
		(r >= 0x10000 && r&0xFFFE == 0xFFFE)
}

// charsOK: s is valid UTF-8 made of XML characters (and, if strict, of encouraged ones).
func charsOK(s string, strict bool) bool {
	good := true
	for i := 0; i < len(s); {
		r, w0 := utf8.DecodeRuneInString(s[i:])
		w := sym.Pin(w0)
		if w == 1 && s[i] >= 0x80 {
			return false
		}
		good = and(good, isXMLChar(r))
		if strict {
			good = and(good, !discouraged(r))
		}
		i += w
	}
	return good
}

func pubidOK(s string) bool {
	for i := 0; i < len(s); i++ {
		if !pubidByte(s[i]) {
			return false
		}
	}
	return true
}

func encNameByte(c byte, first bool) bool {
	return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || !first && ((c >= '0' && c <= '9') || c == '.' || c == '_' || c == '-')
}

func encOK(s string) bool {
	for i := 0; i < len(s); i++ {
		if !encNameByte(s[i], i == 0) {
			return false
		}
	}
	return true
}

func exactly(err error, want bool, what string) {
	sym.Observe("err", err == nil)
	if err == nil {
		sym.Cover("accepted")
		sym.Assert(want, what+" accepts what it must refuse")
	} else {
		sym.Cover("refused")
		sym.Assert(!want, what+" refuses what it must accept")
	}
}

// C04_chars: CheckChars accepts exactly the Char production, less the discouraged when strict.
// Bound: every byte string of up to 4 bytes (thorough: 5), strict or not.
func C04_chars() {
	s := sym.String(4 + sym.Tier())
	strict := sym.Choice(2) == 1
	exactly(xw.CheckChars(s, strict), charsOK(s, strict), "CheckChars")
}

// C04_pubid: CheckPubID accepts exactly PubidChar*.
// Bound: every byte string of up to 3 bytes (thorough: 4).
func C04_pubid() {
	s := sym.String(3 + sym.Tier())
	exactly(xw.CheckPubID(s), pubidOK(s), "CheckPubID")
}

// C04_encoding: CheckEncoding accepts exactly EncName and the empty string.
// Bound: every byte string of up to 3 bytes (thorough: 4).
func C04_encoding() {
	s := sym.String(3 + sym.Tier())
	exactly(xw.CheckEncoding(s), encOK(s), "CheckEncoding")
}

// C04_long: the checkers look at every character of long strings.
// Bound: 4 arbitrary bytes (CheckChars) or 2 (the others) before, after or between acceptable
// filler of 40 lengths up to 4096 (up to 300 and 2048 in the quick check).
func C04_long() {
	n := fillLens[sym.Choice(len(fillLens))]
	if n > 300 && sym.Tier() == 0 && n != 2048 {
		sym.Stop()
	}
	pre, post := "", ""
	switch sym.Choice(3) {
	case 0:
		post = fill(n, "x")
	case 1:
		pre = fill(n, "x")
	case 2:
		pre, post = fill(n, "x"), fill(n, "y")
	}
	switch sym.Choice(4) {
	case 0:
		s := sym.StringN(4)
		exactly(xw.CheckChars(pre+s+post, true), charsOK(s, true), "CheckChars")
	case 1:
		s := sym.StringN(4)
		exactly(xw.CheckChars(pre+s+post, false), charsOK(s, false), "CheckChars")
	case 2:
		s := sym.StringN(2)
		exactly(xw.CheckPubID(pre+s+post), pubidOK(s), "CheckPubID")
	case 3:
		s := sym.StringN(2)
		p := ""
		if pre != "" {
			p = "x"
		}
		exactly(xw.CheckEncoding(pre+s+post), encOK(p+s), "CheckEncoding")
	}
}

// C04_writer: the writer enforces the productions where the property says.
// Bound: every string of up to 4 bytes without the node's own delimiters as content of a comment,
// CDATA section or PI, written whole, as content calls or in Elem.Content, with StrictChars on, off
// and default; up to 3 bytes as public ID of a DTD, entity or notation, and as encoding name.
func C04_writer() {
	place := sym.Choice(12)
	strict := true
	var opts []xw.Option
	switch sym.Choice(3) {
	case 1:
		strict = false
		opts = append(opts, func(w *xw.Writer) { w.StrictChars = false })
	case 2:
		opts = append(opts, func(w *xw.Writer) { w.StrictChars = true })
	}
	var out sink
	w := xw.Open(&out, opts...)
	if place < 8 {
		s := sym.StringN(1 + sym.Choice(4))
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] != '-' && s[i] != ']' && s[i] != '?')
		}
		if place != 5 {
			ok(w.Start(xw.Elem{Name: "e"}), "element")
		}
		var err error
		switch place {
		case 0:
			err = w.Write(xw.Comment{Content: s})
		case 1:
			ok(w.Start(xw.Comment{}), "comment")
			err = w.WriteCommentContent(s)
		case 2:
			err = w.Write(xw.CData{Content: s})
		case 3:
			ok(w.Start(xw.CData{}), "cdata")
			err = w.WriteCDataContent(s)
		case 4:
			err = w.Write(xw.PI{Target: "p", Content: s})
		case 5:
			err = w.Write(xw.Elem{Name: "x", Content: []xw.Writable{xw.Comment{Content: s}}})
		case 6:
			err = w.Write(xw.Elem{Name: "x", Content: []xw.Writable{xw.CData{Content: s}}})
		case 7:
			ok(w.Start(xw.Comment{Content: "a"}), "comment")
			err = w.WriteCommentContent(s)
		}
		exactly(err, charsOK(s, strict), "the writer")
		return
	}
	if strict != true || len(opts) > 0 {
		sym.Stop()
	}
	s := sym.StringN(1 + sym.Choice(3))
	switch place {
	case 8:
		exactly(w.Start(xw.DTD{Name: "d", PublicID: s, SystemID: "s"}), pubidOK(s), "a DTD's public ID")
	case 9:
		exactly(w.Write(xw.DTDEntity{Name: "d", PublicID: s, SystemID: "s"}), pubidOK(s), "an entity's public ID")
	case 10:
		n := xw.Notation{Name: "d", PublicID: s}
		if sym.Choice(2) == 1 {
			n.SystemID = "s"
		}
		exactly(w.Write(n), pubidOK(s), "a notation's public ID")
	case 11:
		if sym.Choice(2) == 1 {
			exactly(w.Start(xw.Doc{}.ForceEncoding(s)), encOK(s), "a forced encoding")
			return
		}
		w = xw.OpenEncoding(&out, s, utf8Encoder())
		exactly(w.Start(xw.Doc{}), encOK(s), "an encoding name")
	}
}

var _ = reg("C04_chars", C04_chars)
var _ = reg("C04_pubid", C04_pubid)
var _ = reg("C04_encoding", C04_encoding)
var _ = reg("C04_long", C04_long)
var _ = reg("C04_writer", C04_writer)

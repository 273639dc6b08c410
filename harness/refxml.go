package main

import "unicode/utf8"

// A strict, independent reader for the XML the writer produces: well-formed element content,
// declarations and fragments of them. It is the oracle, so it shares nothing with the writer.

type kv struct{ n, v string }

// ev is one thing a reader reports.
type ev struct {
	k     byte // see below
	name  string
	val   string
	val2  string
	attrs []kv
}

const (
	evDecl     = 'X' // <?xml ...?>: attrs
	evStart    = 'S' // name, attrs
	evEnd      = 'E' // name, val="/" for the short form
	evText     = 'T' // val
	evCData    = 'D' // val
	evComment  = 'C' // val
	evPI       = 'P' // name, val
	evDTD      = 'Y' // name, val=public id, val2=system id
	evDTDEnd   = 'y'
	evEntity   = 'N' // name ("%n" for parameter entities), val=literal or kind of external id, attrs
	evElement  = 'L' // name, val=content spec
	evAttlist  = 'A' // name
	evAttdef   = 'a' // name, val=type, val2=default
	evNotation = 'O' // name, val=public, val2=system
)

type reader struct {
	b    []byte
	i    int
	evs  []ev
	err  string
	text []byte // pending character data
	has  bool
	open []string
	// raw attribute values, as written, in order (when keepRaw)
}

func (r *reader) fail(msg string) bool {
	if r.err == "" {
		r.err = msg
	}
	return false
}

func (r *reader) lit(s string) bool {
	if len(r.b)-r.i < len(s) {
		return false
	}
	for k := 0; k < len(s); k++ {
		if r.b[r.i+k] != s[k] {
			return false
		}
	}
	r.i += len(s)
	return true
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func (r *reader) ws() int {
	n := 0
	for r.i < len(r.b) && isWS(r.b[r.i]) {
		r.i++
		n++
	}
	return n
}

// xmlNameStart and xmlNameChar are the XML 1.0 (fifth edition) productions.
func xmlNameStart(r rune) bool {
	return r == ':' || r == '_' || (r >= 'A' && r <= 'Z') || (r >= 'a' && r <= 'z') ||
		(r >= 0xC0 && r <= 0xD6) || (r >= 0xD8 && r <= 0xF6) || (r >= 0xF8 && r <= 0x2FF) ||
		(r >= 0x370 && r <= 0x37D) || (r >= 0x37F && r <= 0x1FFF) || (r >= 0x200C && r <= 0x200D) ||
		(r >= 0x2070 && r <= 0x218F) || (r >= 0x2C00 && r <= 0x2FEF) || (r >= 0x3001 && r <= 0xD7FF) ||
		(r >= 0xF900 && r <= 0xFDCF) || (r >= 0xFDF0 && r <= 0xFFFD) || (r >= 0x10000 && r <= 0xEFFFF)
}

func xmlNameChar(r rune) bool {
	return xmlNameStart(r) || r == '-' || r == '.' || (r >= '0' && r <= '9') || r == 0xB7 ||
		(r >= 0x300 && r <= 0x36F) || (r >= 0x203F && r <= 0x2040)
}

func asciiNameByte(c byte, first bool) bool {
	if c == ':' || c == '_' || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') {
		return true
	}
	return !first && (c == '-' || c == '.' || (c >= '0' && c <= '9'))
}

// name reads a Name; "" if there is none.
func (r *reader) name() string {
	s := r.i
	for r.i < len(r.b) {
		c := r.b[r.i]
		if c < 0x80 {
			if !asciiNameByte(c, r.i == s) {
				break
			}
			r.i++
			continue
		}
		rn, w := utf8.DecodeRune(r.b[r.i:])
		if rn == utf8.RuneError && w == 1 {
			break
		}
		if r.i == s && !xmlNameStart(rn) || !xmlNameChar(rn) {
			break
		}
		r.i += w
	}
	return string(r.b[s:r.i])
}

// char reads one character of content at r.i and returns its width; 0 if it is not allowed.
func (r *reader) char() int {
	c := r.b[r.i]
	if c < 0x80 {
		if c < 0x20 && c != '\t' && c != '\n' && c != '\r' {
			return 0
		}
		return 1
	}
	rn, w := utf8.DecodeRune(r.b[r.i:])
	if rn == utf8.RuneError && w == 1 || !isXMLChar(rn) {
		return 0
	}
	return w
}

// until reads characters up to the delimiter, which it skips; line ends are normalised.
func (r *reader) until(delim string) (string, bool) {
	var out []byte
	for r.i < len(r.b) {
		if r.lit(delim) {
			return string(out), true
		}
		if r.b[r.i] == '\r' {
			out = append(out, '\n')
			r.i++
			if r.i < len(r.b) && r.b[r.i] == '\n' {
				r.i++
			}
			continue
		}
		w := r.char()
		if w == 0 {
			return "", r.fail("not an XML character")
		}
		out = append(out, r.b[r.i:r.i+w]...)
		r.i += w
	}
	return "", r.fail("missing " + delim)
}

func (r *reader) ref() (string, bool) {
	s, n := parseRef(r.b[r.i:])
	if n == 0 {
		return "", r.fail("bad reference")
	}
	r.i += n
	return s, true
}

// quoted reads an attribute value with its quotes.
func (r *reader) quoted() (string, bool) {
	if r.i >= len(r.b) || r.b[r.i] != '"' && r.b[r.i] != '\'' {
		return "", r.fail("attribute value is not quoted")
	}
	q := r.b[r.i]
	r.i++
	var out []byte
	for r.i < len(r.b) {
		c := r.b[r.i]
		switch {
		case c == q:
			r.i++
			return string(out), true
		case c == '<':
			return "", r.fail("< in attribute value")
		case c == '&':
			s, ok := r.ref()
			if !ok {
				return "", false
			}
			out = append(out, s...)
		case c == '\r':
			out = append(out, ' ')
			r.i++
			if r.i < len(r.b) && r.b[r.i] == '\n' {
				r.i++
			}
		case c == '\t' || c == '\n':
			out = append(out, ' ')
			r.i++
		default:
			w := r.char()
			if w == 0 {
				return "", r.fail("not an XML character in attribute value")
			}
			out = append(out, r.b[r.i:r.i+w]...)
			r.i += w
		}
	}
	return "", r.fail("unterminated attribute value")
}

// literal reads a quoted literal in which nothing is recognised.
func (r *reader) literal() (string, bool) {
	if r.i >= len(r.b) || r.b[r.i] != '"' && r.b[r.i] != '\'' {
		return "", r.fail("literal is not quoted")
	}
	q := r.b[r.i]
	r.i++
	s := r.i
	for r.i < len(r.b) {
		if r.b[r.i] == q {
			r.i++
			return string(r.b[s : r.i-1]), true
		}
		w := r.char()
		if w == 0 {
			return "", r.fail("not an XML character in literal")
		}
		r.i += w
	}
	return "", r.fail("unterminated literal")
}

// attrs reads attributes up to the end of the tag.
func (r *reader) attrs() []kv {
	var out []kv
	for {
		n := r.ws()
		if r.i >= len(r.b) || r.b[r.i] == '/' || r.b[r.i] == '>' || r.b[r.i] == '?' {
			return out
		}
		if n == 0 {
			r.fail("no space before attribute")
			return nil
		}
		name := r.name()
		if name == "" {
			r.fail("no attribute name")
			return nil
		}
		if !r.lit("=") {
			r.fail("no = after attribute name")
			return nil
		}
		v, ok := r.quoted()
		if !ok {
			return nil
		}
		for _, a := range out {
			if a.n == name {
				r.fail("duplicate attribute " + name)
				return nil
			}
		}
		out = append(out, kv{name, v})
	}
}

func (r *reader) flushText() {
	if r.has && len(r.text) > 0 {
		r.evs = append(r.evs, ev{k: evText, val: string(r.text)})
	}
	r.text, r.has = nil, false
}

func (r *reader) add(e ev) {
	r.flushText()
	r.evs = append(r.evs, e)
}

// externalID reads SYSTEM "s" or PUBLIC "p" ["s"].
func (r *reader) externalID(sysOptional bool) (kind, pub, sys string, ok bool) {
	switch {
	case r.lit("SYSTEM"):
		if r.ws() == 0 {
			return "", "", "", r.fail("no space after SYSTEM")
		}
		sys, ok = r.literal()
		return "SYSTEM", "", sys, ok
	case r.lit("PUBLIC"):
		if r.ws() == 0 {
			return "", "", "", r.fail("no space after PUBLIC")
		}
		pub, ok = r.literal()
		if !ok {
			return
		}
		for i := 0; i < len(pub); i++ {
			if !pubidByte(pub[i]) {
				return "", "", "", r.fail("not a pubid character")
			}
		}
		n := r.ws()
		if r.i < len(r.b) && (r.b[r.i] == '"' || r.b[r.i] == '\'') {
			if n == 0 {
				return "", "", "", r.fail("no space before system literal")
			}
			sys, ok = r.literal()
			return "PUBLIC+", pub, sys, ok
		}
		if !sysOptional {
			return "", "", "", r.fail("no system literal")
		}
		return "PUBLIC", pub, "", true
	}
	return "", "", "", r.fail("no external ID")
}

func pubidByte(c byte) bool {
	if (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') {
		return true
	}
	switch c {
	case ' ', '\r', '\n', '-', '\'', '(', ')', '+', ',', '.', '/', ':', '=', '?', ';', '!', '*', '#', '@', '$', '_', '%':
		return true
	}
	return false
}

// decl reads a markup declaration after "<!X"; ok=false on error.
func (r *reader) markupDecl() bool {
	switch {
	case r.lit("<!ENTITY"):
		if r.ws() == 0 {
			return r.fail("no space after <!ENTITY")
		}
		pe := false
		if r.lit("%") {
			pe = true
			if r.ws() == 0 {
				return r.fail("no space after %")
			}
		}
		n := r.name()
		if n == "" {
			return r.fail("entity without name")
		}
		if r.ws() == 0 {
			return r.fail("no space after entity name")
		}
		e := ev{k: evEntity, name: n}
		if pe {
			e.name = "%" + n
		}
		if r.i < len(r.b) && (r.b[r.i] == '"' || r.b[r.i] == '\'') {
			v, ok := r.literal()
			if !ok {
				return false
			}
			e.val = "VALUE"
			e.val2 = v
		} else {
			k, pub, sys, ok := r.externalID(false)
			if !ok {
				return false
			}
			e.val = k
			e.val2 = sys
			e.attrs = append(e.attrs, kv{"pub", pub})
			sp := r.ws()
			if r.lit("NDATA") {
				if sp == 0 || pe {
					return r.fail("misplaced NDATA")
				}
				if r.ws() == 0 {
					return r.fail("no space after NDATA")
				}
				nd := r.name()
				if nd == "" {
					return r.fail("NDATA without name")
				}
				e.attrs = append(e.attrs, kv{"ndata", nd})
			}
		}
		r.ws()
		if !r.lit(">") {
			return r.fail("entity not closed")
		}
		r.add(e)
		return true
	case r.lit("<!ELEMENT"):
		if r.ws() == 0 {
			return r.fail("no space after <!ELEMENT")
		}
		n := r.name()
		if n == "" {
			return r.fail("element declaration without name")
		}
		if r.ws() == 0 {
			return r.fail("no space after element name")
		}
		s := r.i
		for r.i < len(r.b) && r.b[r.i] != '>' {
			if r.b[r.i] == '<' {
				return r.fail("< in content spec")
			}
			r.i++
		}
		spec := string(r.b[s:r.i])
		if spec == "" || !r.lit(">") {
			return r.fail("element declaration not closed")
		}
		r.add(ev{k: evElement, name: n, val: spec})
		return true
	case r.lit("<!ATTLIST"):
		if r.ws() == 0 {
			return r.fail("no space after <!ATTLIST")
		}
		n := r.name()
		if n == "" {
			return r.fail("attlist without name")
		}
		r.add(ev{k: evAttlist, name: n})
		for {
			sp := r.ws()
			if r.lit(">") {
				return true
			}
			if sp == 0 {
				return r.fail("no space before attribute definition")
			}
			if !r.attdef() {
				return false
			}
		}
	case r.lit("<!NOTATION"):
		if r.ws() == 0 {
			return r.fail("no space after <!NOTATION")
		}
		n := r.name()
		if n == "" {
			return r.fail("notation without name")
		}
		if r.ws() == 0 {
			return r.fail("no space after notation name")
		}
		k, pub, sys, ok := r.externalID(true)
		if !ok {
			return false
		}
		r.ws()
		if !r.lit(">") {
			return r.fail("notation not closed")
		}
		r.add(ev{k: evNotation, name: n, val: pub, val2: sys, attrs: []kv{{k, ""}}})
		return true
	}
	return r.fail("unknown declaration")
}

// attdef reads NAME TYPE DEFAULT.
func (r *reader) attdef() bool {
	an := r.name()
	if an == "" {
		return r.fail("attribute definition without name")
	}
	if r.ws() == 0 {
		return r.fail("no space after attribute definition name")
	}
	t := r.name()
	if t == "" {
		return r.fail("attribute definition without type")
	}
	if r.ws() == 0 {
		return r.fail("no space after attribute type")
	}
	e := ev{k: evAttdef, name: an, val: t}
	switch {
	case r.lit("#REQUIRED"):
		e.val2 = "#REQUIRED"
	case r.lit("#IMPLIED"):
		e.val2 = "#IMPLIED"
	default:
		fixed := false
		if r.lit("#FIXED") {
			fixed = true
			if r.ws() == 0 {
				return r.fail("no space after #FIXED")
			}
		}
		v, ok := r.quoted()
		if !ok {
			return false
		}
		e.val2 = "=" + v
		if fixed {
			e.val2 = "F" + v
		}
	}
	r.add(e)
	return true
}

// item reads one item of content; what it accepts depends on where it is.
func (r *reader) item(inDTD bool) bool {
	b := r.b
	if b[r.i] != '<' {
		if inDTD {
			if r.ws() > 0 {
				return true
			}
			return r.fail("text in DTD")
		}
		return r.textRun()
	}
	switch {
	case r.lit("<!--"):
		s := r.i
		v, ok := r.until("--")
		if !ok {
			return false
		}
		_ = s
		if !r.lit(">") {
			return r.fail("-- in comment")
		}
		r.add(ev{k: evComment, val: v})
		return true
	case r.lit("<?"):
		n := r.name()
		if n == "" {
			return r.fail("PI without target")
		}
		if lowerASCII(n) == "xml" {
			if n != "xml" || r.i != 5 {
				return r.fail("misplaced or reserved PI target")
			}
			a := r.attrs()
			if r.err != "" {
				return false
			}
			if !r.lit("?>") {
				return r.fail("XML declaration not closed")
			}
			r.add(ev{k: evDecl, attrs: a})
			return true
		}
		sp := r.ws()
		v, ok := r.until("?>")
		if !ok {
			return false
		}
		if sp == 0 && v != "" {
			return r.fail("no space after PI target")
		}
		r.add(ev{k: evPI, name: n, val: v})
		return true
	}
	if inDTD || r.peek("<!ENTITY") || r.peek("<!ELEMENT") || r.peek("<!ATTLIST") || r.peek("<!NOTATION") {
		return r.markupDecl()
	}
	switch {
	case r.lit("<![CDATA["):
		v, ok := r.until("]]>")
		if !ok {
			return false
		}
		r.add(ev{k: evCData, val: v})
		return true
	case r.lit("<!DOCTYPE"):
		if r.ws() == 0 {
			return r.fail("no space after <!DOCTYPE")
		}
		n := r.name()
		if n == "" {
			return r.fail("doctype without name")
		}
		e := ev{k: evDTD, name: n}
		sp := r.ws()
		if r.peek("SYSTEM") || r.peek("PUBLIC") {
			if sp == 0 {
				return r.fail("no space before external ID")
			}
			_, pub, sys, ok := r.externalID(false)
			if !ok {
				return false
			}
			e.val, e.val2 = pub, sys
			r.ws()
		}
		r.add(e)
		if r.lit("[") {
			for {
				if r.i >= len(r.b) {
					return r.fail("doctype not closed")
				}
				if r.lit("]") {
					break
				}
				if !r.item(true) {
					return false
				}
			}
			r.ws()
		}
		if !r.lit(">") {
			return r.fail("doctype not closed")
		}
		r.add(ev{k: evDTDEnd})
		return true
	case r.lit("</"):
		n := r.name()
		r.ws()
		if !r.lit(">") {
			return r.fail("end tag not closed")
		}
		if len(r.open) == 0 || r.open[len(r.open)-1] != n {
			return r.fail("end tag does not match")
		}
		r.open = r.open[:len(r.open)-1]
		r.add(ev{k: evEnd, name: n})
		return true
	}
	r.i++
	n := r.name()
	if n == "" {
		return r.fail("element without name")
	}
	a := r.attrs()
	if r.err != "" {
		return false
	}
	r.add(ev{k: evStart, name: n, attrs: a})
	switch {
	case r.lit("/>"):
		r.add(ev{k: evEnd, name: n, val: "/"})
		return true
	case r.lit(">"):
		r.open = append(r.open, n)
		return true
	}
	return r.fail("start tag not closed")
}

func (r *reader) peek(s string) bool {
	i := r.i
	ok := r.lit(s)
	r.i = i
	return ok
}

func lowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// textRun reads character data up to the next markup.
func (r *reader) textRun() bool {
	r.has = true
	for r.i < len(r.b) && r.b[r.i] != '<' {
		switch r.b[r.i] {
		case '&':
			s, ok := r.ref()
			if !ok {
				return false
			}
			r.text = append(r.text, s...)
		case '\r':
			r.text = append(r.text, '\n')
			r.i++
			if r.i < len(r.b) && r.b[r.i] == '\n' {
				r.i++
			}
		case ']':
			if r.peek("]]>") {
				return r.fail("]]> in text")
			}
			r.text = append(r.text, ']')
			r.i++
		default:
			w := r.char()
			if w == 0 {
				return r.fail("not an XML character in text")
			}
			r.text = append(r.text, r.b[r.i:r.i+w]...)
			r.i += w
		}
	}
	return true
}

// read parses a document or fragment. Character data outside every element is kept.
func read(b []byte) ([]ev, string) {
	r := &reader{b: b}
	for r.i < len(r.b) {
		if !r.item(false) {
			if r.err == "" {
				r.err = "syntax"
			}
			return r.evs, r.err
		}
	}
	r.flushText()
	if len(r.open) > 0 {
		return r.evs, "unclosed element " + r.open[len(r.open)-1]
	}
	return r.evs, ""
}

func sameEv(a, b *ev) bool {
	if a.k != b.k || a.name != b.name || a.val != b.val || a.val2 != b.val2 || len(a.attrs) != len(b.attrs) {
		return false
	}
	for i := range a.attrs {
		if a.attrs[i].n != b.attrs[i].n || a.attrs[i].v != b.attrs[i].v {
			return false
		}
	}
	return true
}

func sameEvs(a, b []ev) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameEv(&a[i], &b[i]) {
			return false
		}
	}
	return true
}

// blank: only white space.
func blank(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isWS(s[i]) {
			return false
		}
	}
	return true
}

// dropBlank removes white-space-only text outside every element.
func dropBlankTop(evs []ev) []ev {
	var out []ev
	d := 0
	for _, e := range evs {
		switch e.k {
		case evStart:
			d++
		case evEnd:
			d--
		case evText:
			if d == 0 && blank(e.val) {
				continue
			}
		}
		out = append(out, e)
	}
	return out
}

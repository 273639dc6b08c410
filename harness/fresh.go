package main

import (
	"errors"

	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// C05_fresh: what is in one section has nothing to do with another one.
// Bound: a comment, CDATA section, PI, text or attribute value of 1-2 bytes out of - > ] ! ? x CR (or 1 arbitrary byte), then a comment,
// CDATA section or PI of up to 2 such bytes, in one or two pieces, as its sibling, one level deeper or one up; accepted if and only if
// it is on its own.
func C05_fresh() {
	one := func(max int) string {
		if sym.Tier() > 0 && sym.Choice(2) == 1 {
			return sym.StringN(1)
		}
		return delims(max)
	}
	var out, alone sink
	w, v := xw.Open(&out), xw.Open(&alone)
	for _, x := range []*xw.Writer{w, v} {
		ok(x.Start(xw.Elem{Name: "a"}, xw.Elem{Name: "b"}), "elements")
	}
	var err error
	switch s := one(2); sym.Choice(6) {
	case 0:
		err = w.Write(xw.Comment{Content: s})
	case 1:
		err = w.Write(xw.CData{Content: s})
	case 2:
		err = w.Write(xw.PI{Target: "p", Content: s})
	case 3:
		err = w.Write(xw.Text(s))
	case 4:
		err = w.Write(xw.Elem{Name: "c", Attrs: []xw.Attr{{Name: "x", Value: s}}, Content: []xw.Writable{xw.Text(s)}})
	case 5:
		ok(w.Start(xw.CData{}), "CDATA")
		err = w.WriteCDataContent(s)
		if err == nil {
			err = w.EndCData()
		}
	}
	if err != nil {
		sym.Stop()
	}
	switch sym.Choice(3) {
	case 0:
	case 1:
		for _, x := range []*xw.Writer{w, v} {
			ok(x.Start(xw.Elem{Name: "d"}), "element")
		}
	case 2:
		for _, x := range []*xw.Writer{w, v} {
			ok(x.EndElem(), "EndElem")
		}
	}
	from, fromAlone := 0, 0
	ok(w.Next(), "Next")
	ok(v.Next(), "Next")
	ok(w.Flush(), "Flush")
	ok(v.Flush(), "Flush")
	from, fromAlone = len(out.b), len(alone.b)
	s, t := one(2), ""
	kind := sym.Choice(3)
	two := kind < 2 && sym.Choice(2) == 1
	if two {
		t = delims(1)
	}
	put := func(w *xw.Writer) error {
		switch kind {
		case 0:
			if !two {
				return w.Write(xw.Comment{Content: s})
			}
			ok(w.Start(xw.Comment{}), "comment")
			if err := w.WriteCommentContent(s); err != nil {
				return err
			}
			if err := w.WriteCommentContent(t); err != nil {
				return err
			}
			return w.EndComment()
		case 1:
			if !two {
				return w.Write(xw.CData{Content: s})
			}
			ok(w.Start(xw.CData{}), "CDATA")
			if err := w.WriteCDataContent(s); err != nil {
				return err
			}
			if err := w.WriteCDataContent(t); err != nil {
				return err
			}
			return w.EndCData()
		}
		return w.Write(xw.PI{Target: "p", Content: s})
	}
	errW, errV := put(w), put(v)
	sym.Observe("err", errW == nil)
	sym.Assert((errW == nil) == (errV == nil), "content is refused or accepted because of what is in another node")
	if errW != nil {
		sym.Cover("refused")
		return
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	ok(v.EndAllFlush(), "EndAllFlush")
	sym.Assert(string(out.b[from:]) == string(alone.b[fromAlone:]), "what is written depends on what is in another node")
	sym.Cover("accepted")
}

var _ = reg("C05_fresh", C05_fresh)

// C01_next: one text and the next.
// Bound: a text which ends in one of 7 beginnings of something, then one with 1 arbitrary byte before or after filler of 10 lengths up to
// 2047 letters; by WriteText or Write, as Content, or with a flush or a comment in between.
func C01_next() {
	first := []string{"]", "]]", "\r", "\xc3", "&", "&#6", "x]]"}[sym.Choice(7)]
	n := []int{0, 1, 7, 8, 15, 16, 31, 64, 255, 2047}[sym.Choice(10)]
	next := sym.StringN(1) + fill(n, "x")
	if n > 0 && sym.Choice(2) == 1 {
		next = fill(n, "x") + sym.StringN(1)
	}
	var out sink
	w := xw.Open(&out)
	between := ""
	e := xw.Elem{Name: "a"}
	switch sym.Choice(5) {
	case 0:
		ok(w.Start(e), "element")
		ok(w.WriteText(first), "text")
		ok(w.WriteText(next), "text")
	case 1:
		ok(w.Start(e), "element")
		ok(w.Write(xw.Text(first), xw.Text(next)), "text")
	case 2:
		e.Content = []xw.Writable{xw.Text(first), xw.Text(next)}
		ok(w.Write(e), "element")
	case 3:
		ok(w.Start(e), "element")
		ok(w.WriteText(first), "text")
		ok(w.Flush(), "Flush")
		ok(w.WriteText(next), "text")
	case 4:
		ok(w.Start(e), "element")
		ok(w.WriteText(first), "text")
		ok(w.Write(xw.Comment{}), "comment")
		ok(w.WriteText(next), "text")
		between = "<!---->"
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Cover("two texts")
	if between == "" {
		checkText(out.b, "<a>", sanitize(first)+sanitize(next), "</a>")
		return
	}
	for i := 3; i+len(between) <= len(out.b); i++ {
		if out.b[i] == '<' {
			sym.Assert(string(out.b[i:i+len(between)]) == between, "a comment between two texts")
			checkText(out.b[:i], "<a>", first, "")
			checkText(out.b[i:], between, next, "</a>")
			return
		}
	}
	sym.Assert(false, "a comment between two texts")
}

var _ = reg("C01_next", C01_next)

// C16_same: errors which have been seen before, and collectors which hold one.
// Bound: up to 3 calls of Do with up to 2 errors each out of nil, 2 errors, an error around the first and the collector itself, then Must
// with up to 2 of these.
func C16_same() {
	a, b := errors.New("a"), &typedErr{1}
	ec := &xw.ErrCollector{}
	c := &collected{}
	some := func(max int) []error {
		errs := make([]error, sym.Choice(max+1))
		for i := range errs {
			errs[i] = []error{nil, a, b, &wrapErr{a}, ec}[sym.Choice(5)]
		}
		return errs
	}
	for i, n := 0, sym.Choice(3+sym.Tier()); i < n; i++ {
		errs := some(2)
		var p place
		func() { p = at(); ec.Do(errs...) }()
		c.do(p, errs)
		c.check(ec)
	}
	errs := some(2)
	any := false
	for _, e := range errs {
		any = any || e != nil
	}
	r := caught(func() { ec.Must(errs...) })
	sym.Observe("panicked", r != nil)
	if any {
		sym.Assert(sameCollector(r, ec), "Must did not panic with the collector")
		sym.Assert(ec.Err != nil, "Must panicked without an error")
		sym.Cover("panicked")
		return
	}
	sym.Assert(r == nil, "Must panicked without an error")
	c.check(ec)
	sym.Cover("no error")
}

type wrapErr struct{ err error }

func (e *wrapErr) Error() string { return "wrapped" }
func (e *wrapErr) Unwrap() error { return e.err }

var _ = reg("C16_same", C16_same)

// C14_refused: what is refused in one style is refused in another.
// Bound: 2 (thorough: 3) nodes out of 28, most of them without what they need or with what they may not have, in 6 places, with
// enforcement on or (thorough) off; all in one call of Write, WriteAttr or Block, or one by one.
func C14_refused() {
	a, b, wa, wb := twoWriters(false)
	if sym.Tier() > 0 && sym.Choice(2) == 1 {
		wa.Enforce, wb.Enforce = false, false
	}
	var parent xw.Startable
	switch sym.Choice(6) {
	case 1:
		parent = xw.Doc{}
	case 2:
		parent = xw.Elem{Name: "e"}
	case 3:
		parent = xw.DTD{Name: "d"}
	case 4:
		parent = xw.DTDAttList{Name: "l"}
	case 5:
		parent = xw.Comment{}
	}
	nodes := []xw.Writable{
		xw.Attr{}, xw.Attr{Value: "v"}, xw.Attr{Name: "x", Value: mark()}, xw.Attr{Name: "1"}, xw.Attr{Name: "y", URI: "u"}, xw.Attr{Prefix: "p", Value: "v"},
		xw.Attr{Prefix: "p", URI: "u", Name: "a"}, xw.Attr{Prefix: "p", URI: "v", Name: "b"},
		xw.Elem{}, xw.Elem{Name: "c"}, xw.Elem{Prefix: "p"}, xw.Elem{Name: "c", Attrs: []xw.Attr{{}}}, xw.Elem{Name: "c", Content: []xw.Writable{nil}},
		xw.Text(""), xw.Text("t"), xw.Comment{}, xw.Comment{Content: "-"}, xw.CData{Content: "]]>"}, xw.PI{}, xw.PI{Target: "xml"},
		xw.CommentContent("-"), xw.CommentContent(""), xw.DTDElem{}, xw.DTDEntity{}, xw.DTDAttr{}, xw.DTDAttr{Name: "a"}, xw.DTDAttList{}, xw.Notation{},
	}
	var ns []xw.Writable
	for i := 0; i < 2+sym.Tier(); i++ {
		ns = append(ns, nodes[sym.Choice(len(nodes))])
	}
	one := func() error {
		if parent != nil {
			if err := wa.Start(parent); err != nil {
				return err
			}
		}
		for _, n := range ns {
			if err := wa.Write(n); err != nil {
				return err
			}
		}
		return nil
	}
	many := func() error {
		attrs, isAttrs := []xw.Attr{}, parent != nil
		for _, n := range ns {
			x, is := n.(xw.Attr)
			attrs, isAttrs = append(attrs, x), isAttrs && is
		}
		switch sym.Choice(4) {
		case 0:
			if parent != nil {
				if err := wb.Start(parent); err != nil {
					return err
				}
			}
			return wb.Write(ns...)
		case 1:
			if parent == nil {
				sym.Stop()
			}
			if err := wb.Block(parent, ns...); err != nil {
				return err
			}
			ok(wa.EndAny(), "EndAny")
			return nil
		case 2:
			if !isAttrs {
				sym.Stop()
			}
			if err := wb.Start(parent); err != nil {
				return err
			}
			return wb.WriteAttr(attrs...)
		}
		e, is := parent.(xw.Elem)
		if !isAttrs || !is {
			sym.Stop()
		}
		e.Attrs = attrs
		return wb.Start(e)
	}
	// a nil node in Content is refused, not dereferenced
	errA := one()
	if errA == nil {
		if _, is := parent.(xw.Comment); is && wa.Enforce && endsInDash(ns) {
			sym.Stop() // Block cannot end it
		}
	}
	errB := many()
	sym.Observe("err", errA == nil)
	sym.Assert((errA == nil) == (errB == nil), "one style is refused, another is not")
	if errA != nil {
		sym.Cover("refused")
		return
	}
	sym.Cover("accepted")
	sameOutput(a, b, wa, wb)
}

func endsInDash(ns []xw.Writable) bool {
	for _, n := range ns {
		if c, ok := n.(xw.CommentContent); ok && c == "-" {
			return true
		}
	}
	return false
}

var _ = reg("C14_refused", C14_refused)

// ends is a string with something special in the middle and something at an end.
func ends() (s, special string) {
	special = []string{"&", "\"", "\n", "\xff", "\u00e9"}[sym.Choice(5)]
	n := []int{1, 7, 8, 15, 16, 63, 64, 130, 255}[sym.Choice(9)]
	m := []int{0, 1, 7, 24}[sym.Choice(4)]
	if sym.Choice(2) == 1 {
		return sym.StringN(1) + fill(n, "x") + special + fill(m, "y"), special
	}
	return fill(n, "x") + special + fill(m, "y") + sym.StringN(1), special
}

// C02_ends: what is at an end of a value has nothing to do with the middle.
// Bound: 5 special characters after filler of 9 lengths up to 255 and before filler of 4 lengths up to 24, with 1 arbitrary byte at
// either end; as the value of an attribute of an element or as a default.
func C02_ends() {
	s, _ := ends()
	var out sink
	w := xw.Open(&out)
	if sym.Choice(2) == 1 {
		ok(w.WriteDTDAttr(xw.DTDAttr{Name: "k", Type: "CDATA", Value: s, Default: xw.DTDAttrDefault}), "definition")
		ok(w.Flush(), "Flush")
		pre := " k CDATA \""
		sym.Assert(len(out.b) > len(pre) && string(out.b[:len(pre)]) == pre, "markup around a default")
		wantAttrs(append([]byte("<a k=\""), append(out.b[len(pre):len(out.b):len(out.b)], "/>"...)...), "a", []kv{{"k", sanitize(s)}})
		sym.Cover("default")
		return
	}
	ok(w.Write(xw.Elem{Name: "a", Attrs: []xw.Attr{{Name: "k", Value: s}}}), "element")
	ok(w.Flush(), "Flush")
	wantAttrs(out.b, "a", []kv{{"k", sanitize(s)}})
	sym.Cover("value")
}

var _ = reg("C02_ends", C02_ends)

// C01_ends: what is at an end of a text has nothing to do with the middle.
// Bound: as C02_ends, as text.
func C01_ends() {
	s, _ := ends()
	var out sink
	w := xw.Open(&out)
	ok(w.Write(xw.Elem{Name: "a", Content: []xw.Writable{xw.Text(s)}}), "element")
	ok(w.Flush(), "Flush")
	checkText(out.b, "<a>", s, "</a>")
	sym.Cover("text")
}

var _ = reg("C01_ends", C01_ends)

// C09_history: the place decides, not what has been written there.
// Bound: 20 stacks of open nodes with 1-129 (9 counts) nodes of the kind that may be there (thorough: of 2), then any node by 46 APIs.
func C09_history() {
	p := newPair()
	p.script(func(s *script) {
		i := sym.Choice(places + 2)
		if i < places {
			s.place(i)
			return
		}
		s.start(xw.Doc{})
		s.start(xw.DTD{Name: letter()})
		if i > places {
			s.start(xw.DTDAttList{Name: letter()})
		}
	})
	n := []int{1, 2, 3, 4, 5, 8, 17, 33, 129}[sym.Choice(9)]
	nodes := []xw.Writable{xw.Comment{}, xw.Text("t"), xw.PI{Target: "t"}, xw.Elem{Name: "e"}, xw.DTDElem{Name: "e", Decl: "ANY"}, xw.CommentContent("c"), xw.CDataContent("c"),
		xw.DTDAttr{Name: "n", Type: "ID"}}
	from := 0
	if sym.Tier() > 0 {
		from = sym.Choice(4)
	}
	done := false
	for _, node := range nodes[from:] {
		if p.m.allows(kindOf(node)) {
			for i := 0; i < n; i++ {
				p.write(node)
			}
			done = true
			break
		}
	}
	if !done {
		sym.Stop()
	}
	p.try(carry(sym.Choice(carriers), "x"))
	p.probe()
	p.compare()
}

var _ = reg("C09_history", C09_history)

// C03_mixed: a name is checked whether or not it has been seen.
// Bound: every name of 2 bytes, which an element, attribute, prefix, PI, attribute list or DTD had before, as the parent, its parent or
// an earlier sibling, without enforcement, or was refused as; then as an element, prefix, attribute, PI target (7 calls), or a declaration
// (3), with enforcement.
func C03_mixed() {
	s := sym.StringN(2)
	sym.Assume(s[0] < 0x80 && s[1] < 0x80)
	var out sink
	w := xw.Open(&out)
	dtd := sym.Choice(2) == 1
	w.Enforce = false
	var err error
	if dtd {
		ok(w.Start(xw.DTD{Name: s}), "DTD without enforcement")
		switch sym.Choice(4) {
		case 0:
			err = w.Write(xw.DTDElem{Name: s, Decl: "ANY"})
		case 1:
			err = w.Write(xw.DTDEntity{Name: s, Content: "c"})
		case 2:
			err = w.Write(xw.DTDAttList{Name: s, Attrs: []xw.DTDAttr{{Name: s, Type: "ID"}}})
		case 3:
			err = w.Start(xw.DTDAttList{Name: s})
		}
	} else {
		switch sym.Choice(8) {
		case 0:
			err = w.Start(xw.Elem{Name: s})
		case 1:
			err = w.Start(xw.Elem{Name: s}, xw.Elem{Name: "b"})
		case 2:
			ok(w.Start(xw.Elem{Name: "a"}), "element")
			err = w.WriteAttr(xw.Attr{Name: s, Value: "v"})
		case 3:
			ok(w.Start(xw.Elem{Name: "a"}), "element")
			err = w.Write(xw.Elem{Name: s})
		case 4:
			err = w.Start(xw.Elem{Prefix: s, Name: "n", URI: "u"})
		case 5:
			ok(w.Start(xw.Elem{Name: "a"}), "element")
			err = w.WriteAttr(xw.Attr{Prefix: s, Name: "n", URI: "u"})
		case 6:
			ok(w.Start(xw.Elem{Name: "a"}), "element")
			err = w.WritePI(xw.PI{Target: s})
		case 7:
			w.Enforce = true
			ok(w.Start(xw.Elem{Name: "a"}), "element")
			if w.Write(xw.Elem{Name: s}) == nil {
				sym.Stop()
			}
		}
	}
	ok(err, "a name without enforcement")
	w.Enforce = true
	full := s
	if dtd {
		switch sym.Choice(3) {
		case 0:
			if w.Depth() > 0 {
				err = w.Write(xw.DTDAttr{Name: s, Type: "ID"})
			} else {
				err = w.Write(xw.DTDElem{Name: s, Decl: "ANY"})
			}
		case 1:
			if w.Depth() > 0 {
				sym.Stop()
			}
			err = w.Write(xw.DTDEntity{Name: s, Content: "c"})
		case 2:
			if w.Depth() > 0 {
				sym.Stop()
			}
			err = w.Start(xw.DTDAttList{Name: s})
		}
	} else {
		i := sym.Choice(7)
		if i < 3 && w.Start(xw.Elem{Name: "z"}) != nil {
			sym.Stop() // a prefix is declared as late as here
		}
		switch i {
		case 0:
			err = w.WriteAttr(xw.Attr{Name: s, Value: "v"})
		case 1:
			full = s + ":n"
			err = w.WriteAttr(xw.Attr{Prefix: s, Name: "n", URI: "u"})
		case 2:
			err = w.Write(xw.PI{Target: s})
		case 3:
			err = w.Start(xw.Elem{Name: s})
		case 4:
			full = s + ":n"
			err = w.Start(xw.Elem{Prefix: s, Name: "n", URI: "u"})
		case 5:
			err = w.Write(xw.Elem{Name: s, Attrs: []xw.Attr{{Name: "a", Value: "v"}}})
		case 6:
			err = w.Block(xw.Elem{Name: "o", Content: []xw.Writable{xw.Elem{Name: s}}})
		}
	}
	isName, must := nameClass(full)
	sym.Observe("err", err == nil)
	if err == nil {
		sym.Assert(isName, "a name that is not a Name was accepted")
		sym.Cover("accepted")
		return
	}
	sym.Assert(!must, "a supported Name was refused")
	sym.Cover("refused")
}

var _ = reg("C03_mixed", C03_mixed)

// reusable starts and ends a node of any kind, with or without something in it.
func reusable(i, with int, name string) []func(w *xw.Writer) error {
	start := func(n xw.Startable) func(w *xw.Writer) error {
		return func(w *xw.Writer) error { return w.Start(n) }
	}
	write := func(n xw.Writable) func(w *xw.Writer) error {
		return func(w *xw.Writer) error { return w.Write(n) }
	}
	end := func(w *xw.Writer) error { return w.EndAny() }
	var s xw.Startable
	var c xw.Writable
	switch i {
	case 0:
		s, c = xw.Comment{}, xw.CommentContent(name)
	case 1:
		s, c = xw.Elem{Name: name}, xw.Text(name)
	case 2:
		s, c = xw.CData{}, xw.CDataContent(name)
	case 3:
		s, c = xw.DTD{Name: name}, xw.DTDElem{Name: name, Decl: "ANY"}
	case 4:
		s, c = xw.DTDAttList{Name: name}, xw.DTDAttr{Name: name, Type: xw.DTDAttrString}
	case 5:
		s, c = xw.Doc{}, xw.Elem{Name: name}
	}
	if with == 0 {
		return []func(w *xw.Writer) error{start(s), end}
	}
	calls := []func(w *xw.Writer) error{start(s)}
	for ; with > 0; with-- {
		calls = append(calls, write(c))
	}
	return append(calls, end)
}

// anew plays a node after another one has been ended in the same place, and by itself, with a PI (in a DTD: an entity) before.
// It gives the output and the steps from there on, and the same of the node by itself.
func anew(second []int, indent bool) (a, b string, sa, sb []step) {
	// what may be in which place
	in := [][]int{{0, 1, 2, 3, 4, 5}, {0, 1, 3}, {0, 1, 2}, {0, 4}}
	place := sym.Choice(len(in))
	first := reusable(in[place][sym.Choice(len(in[place]))], 1+sym.Choice(2), letter())
	i := in[place][sym.Choice(len(in[place]))]
	is := false
	for _, s := range second {
		is = is || s == i
	}
	if !is {
		sym.Stop()
	}
	then := reusable(i, sym.Choice(2), letter())
	play := func(calls []func(w *xw.Writer) error) (string, []step) {
		var out sink
		r := &recorder{fail: -1}
		opt := withIndenter(r)
		if indent {
			opt = xw.WithIndent()
		}
		w := xw.Open(&out, opt)
		switch place {
		case 1:
			ok(w.Start(xw.Doc{}), "doc")
		case 2:
			ok(w.Start(xw.Elem{Name: "p"}), "elem")
		case 3:
			ok(w.Start(xw.DTD{Name: "p"}), "dtd")
		}
		for _, c := range calls {
			ok(c(w), "a valid call")
		}
		if place == 3 {
			ok(w.Write(xw.DTDEntity{Name: "pi", Content: "v"}), "entity")
		} else {
			ok(w.Write(xw.PI{Target: "pi"}), "PI")
		}
		ok(w.Flush(), "Flush")
		n, k := len(out.b), len(r.steps)
		for _, c := range then {
			ok(c(w), "a valid call")
		}
		ok(w.Flush(), "Flush")
		return string(out.b[n:]), r.steps[k:]
	}
	a, sa = play(first)
	b, sb = play(nil)
	sym.Observe("a", a)
	return
}

// C20_fresh: how a DTD or an attribute list is written does not depend on what was there before.
// Bound: nothing, a document, an element or a DTD around it; a node of any kind allowed there with 1 or 2 children, ended; a PI (in a DTD: an entity);
// then a DTD or an attribute list with or without a declaration; with and without indenter; symbolic letters.
func C20_fresh() {
	a, b, _, _ := anew([]int{3, 4}, sym.Choice(2) == 1)
	sym.Assert(a == b, "a declaration is not written as by itself")
	sym.Cover("anew")
}

// C07_anew: the same for every other kind of node.
// Bound: as C20_fresh.
func C07_anew() {
	a, b, _, _ := anew([]int{0, 1, 2, 5}, sym.Choice(2) == 1)
	sym.Assert(a == b, "a node is not written as by itself")
	sym.Cover("anew")
}

// C23_fresh: what an Indenter is told of a node has nothing to do with one that was there before.
// Bound: as C20_fresh, any kind of node.
func C23_fresh() {
	_, _, a, b := anew([]int{0, 1, 2, 3, 4, 5}, false)
	sym.Assert(len(a) > 0 && sameSteps(a, b), "an Indenter is told something else about a node than about the same by itself")
	sym.Cover("anew")
}

var (
	_ = reg("C20_fresh", C20_fresh)
	_ = reg("C07_anew", C07_anew)
	_ = reg("C23_fresh", C23_fresh)
)

package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"

	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

type place struct {
	file string
	line int
}

// at is the place of the call of at.
func at() place {
	_, file, line, _ := runtime.Caller(1)
	return place{file, line}
}

type typedErr struct{ n int }

func (e *typedErr) Error() string { return "typed" }

// collected is what the collector should hold.
type collected struct {
	err   error
	index int
	place
}

func (c *collected) check(ec *xw.ErrCollector) {
	sym.Assert(ec.Err == c.err, "the collector does not hold the first error")
	sym.Assert(ec.Index == c.index, "wrong index")
	sym.Assert(ec.Line == c.line, "wrong line")
	sym.Assert(ec.File == c.file, "wrong file")
}

// do is what a call of Do at a place should do.
func (c *collected) do(p place, errs []error) {
	if c.err != nil {
		return
	}
	for i, e := range errs {
		if e != nil {
			c.err, c.index, c.place = e, i+1, p
			return
		}
	}
}

// someErrors is up to max errors, each nil or not. Sometimes the same one twice.
func someErrors(max int) []error {
	errs := make([]error, sym.Choice(max+1))
	for i := range errs {
		var e error
		if sym.Bool() {
			switch i % 3 {
			case 0:
				e = errors.New("plain")
			case 1:
				e = &typedErr{i}
			case 2:
				e = errs[0]
			}
		}
		errs[i] = e
	}
	return errs
}

// doSomewhere calls Do at one of several places.
func doSomewhere(ec *xw.ErrCollector, errs []error) (p place) {
	switch sym.Choice(4) {
	case 0:
		func() { p = at(); ec.Do(errs...) }()
	case 1:
		func() { p = at(); ec.Do(errs...) }()
	case 2:
		func() { p = at(); defer ec.Do(errs...); p = at() }()
	case 3: // without a list
		if len(errs) != 2 {
			sym.Stop()
		}
		a, b := errs[0], errs[1]
		func() { p = at(); ec.Do(a, b) }()
	}
	return
}

// caught calls f and gives what it panicked with.
func caught(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

func sameCollector(r interface{}, ec *xw.ErrCollector) bool {
	c, ok := r.(*xw.ErrCollector)
	return ok && c == ec
}

func collectorResults(ec *xw.ErrCollector, c *collected) {
	earlier := errors.New("earlier")
	for _, old := range []error{nil, earlier} {
		target := old
		ec.Set(&target)
		if c.err == nil {
			sym.Assert(target == old, "Set without an error changed the target")
		} else {
			got, ok := target.(*xw.ErrCollector)
			sym.Assert(ok && got == ec, "Set did not assign the collector")
			sym.Assert(errors.Is(target, c.err), "errors.Is does not see the error")
			sym.Assert(!errors.Is(target, earlier), "errors.Is sees another error")
			sym.Assert(errors.Unwrap(target) == c.err, "errors.Unwrap does not see the error")
		}
	}
	named := func() (err error) {
		defer ec.Set(&err)
		return nil
	}()
	if c.err == nil {
		sym.Assert(named == nil, "Set without an error changed the result")
	} else {
		sym.Assert(named == error(ec), "Set did not change the result")
	}
	r := caught(func() { defer ec.Panic() })
	if c.err == nil {
		sym.Assert(r == nil, "Panic without an error")
		sym.Cover("no error")
	} else {
		sym.Assert(sameCollector(r, ec), "Panic did not panic with the collector")
		sym.Cover("an error")
	}
	c.check(ec)
}

// C16_do: sequences of Do.
// Bound: up to 3 calls of Do (thorough: 4) at 4 places with up to 3 errors each,
// each nil or not, of 2 types; then Set, Panic, errors.Is and errors.Unwrap.
func C16_do() {
	ec := &xw.ErrCollector{}
	c := &collected{}
	for i, n := 0, sym.Choice(4+sym.Tier()); i < n; i++ {
		errs := someErrors(3)
		keep := append([]error{}, errs...)
		p := doSomewhere(ec, errs)
		for i := range errs {
			sym.Assert(errs[i] == keep[i], "Do changed its arguments")
		}
		c.do(p, errs)
		c.check(ec)
	}
	collectorResults(ec, c)
}

// C16_must: Must panics at once, with the place of its call.
// Bound: up to 2 calls of Must with up to 4 errors each, nil or not.
func C16_must() {
	ec := &xw.ErrCollector{}
	c := &collected{}
	for i := 0; i < 2 && c.err == nil; i++ {
		errs := someErrors(4)
		var p place
		var after bool
		r := caught(func() { p = at(); ec.Must(errs...); after = true })
		c.do(p, errs)
		sym.Assert(after == (c.err == nil), "Must returned with an error, or not without")
		if c.err == nil {
			sym.Assert(r == nil, "Must panicked without an error")
		} else {
			sym.Assert(sameCollector(r, ec), "Must did not panic with the collector")
		}
		c.check(ec)
	}
	collectorResults(ec, c)
}

// C16_writer: with the calls of a writer; no call is skipped.
// Bound: 5 calls on a writer in two Do calls, any one of them refused for its symbolic name or comment.
func C16_writer() {
	s := &sink{}
	w := xw.Open(s)
	ec := &xw.ErrCollector{}
	c := &collected{}
	name := func() string {
		b := sym.Byte()
		sym.Assume(b == '!' || b >= 'a' && b <= 'c')
		return string([]byte{b})
	}
	n1, n2, n3 := name(), name(), name()
	var errs []error
	var p place
	rec := func(e error) error { errs = append(errs, e); return e }
	el := func(prefix, name string) error { return rec(w.Write(xw.Elem{Prefix: prefix, Name: name})) }
	ok(w.Start(xw.Elem{Name: "r"}), "Start")
	func() { p = at(); ec.Do(el("", n1), el(n2, n2)) }()
	c.do(p, errs)
	errs = nil
	func() { p = at(); ec.Do(el("", n3), rec(w.EndAllFlush())) }()
	c.do(p, errs)
	good := 0
	for _, n := range []string{n1, n2, n3} {
		if n != "!" {
			good++
		}
	}
	sym.Assert((c.err == nil) == (good == 3), "an error was lost")
	if good == 3 {
		sym.Assert(string(s.b) == "<r><"+n1+"/><"+n2+":"+n2+"/><"+n3+"/></r>", "a call was skipped")
	}
	collectorResults(ec, c)
}

// C16_long: long lists and long histories.
// Bound: 0-20 calls of Do with 0-3 successes each, then Do or Must with 1-40 arguments with one or two errors
// anywhere among them, then more.
func C16_long() {
	ec := &xw.ErrCollector{}
	c := &collected{}
	for i, n := 0, []int{0, 1, 2, 7, 20}[sym.Choice(5)]; i < n; i++ {
		ec.Do(make([]error, i%4)...)
	}
	c.check(ec)
	errs := make([]error, []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 40}[sym.Choice(11)])
	i := sym.Choice(len(errs))
	j := i + sym.Choice(len(errs)-i)
	errs[j] = &typedErr{2}
	errs[i] = &typedErr{1}
	var p place
	if sym.Choice(2) == 0 {
		func() { p = at(); ec.Do(errs...) }()
	} else {
		sym.Assert(sameCollector(caught(func() { p = at(); ec.Must(errs...) }), ec), "Must did not panic with the collector")
	}
	c.do(p, errs)
	c.check(ec)
	ec.Do(nil, io.EOF)
	ec.Do()
	collectorResults(ec, c)
}

var _ = reg("C16_long", C16_long)

type valueErr string

func (e valueErr) Error() string { return string(e) }

type joined []error

func (j joined) Error() string   { return "joined" }
func (j joined) Unwrap() []error { return j }

type awkward struct{}

func (awkward) Error() string   { panic("Error was called") }
func (awkward) Is(error) bool   { return false }
func (awkward) As(any) bool     { return false }
func (awkward) Timeout() bool   { return true }
func (awkward) Temporary() bool { return true }

// C16_kinds: what kind of error it is makes no difference.
// Bound: 1-2 calls of Do or Must with up to 2 errors out of 14: without a text, of value, pointer,
// slice and joined types, a nil pointer in an error, wrapped and well-known errors, other collectors, one whose methods must not
// be called.
func C16_kinds() {
	other := &xw.ErrCollector{File: "other.go", Line: 77, Index: 5, Err: errors.New("other")}
	pool := [...]error{nil, errors.New(""), errors.New("x"), valueErr(""), valueErr("y"), (*typedErr)(nil), &typedErr{1},
		io.EOF, io.ErrShortWrite, fmt.Errorf("wrapped: %w", io.EOF), other, &xw.ErrCollector{}, joined{io.EOF, other}, awkward{}, error(&joined{})}
	ec := &xw.ErrCollector{}
	c := &collected{}
	for i, n := 0, 1+sym.Choice(2); i < n; i++ {
		errs := make([]error, 1+sym.Choice(2))
		for j := range errs {
			errs[j] = pool[sym.Choice(len(pool))]
		}
		var p place
		if sym.Choice(2) == 0 {
			func() { p = at(); ec.Do(errs...) }()
			c.do(p, errs)
		} else {
			if c.err != nil {
				sym.Stop() // Must after Do
			}
			r := caught(func() { p = at(); ec.Must(errs...) })
			c.do(p, errs)
			if c.err == nil {
				sym.Assert(r == nil, "Must panicked without an error")
			} else {
				sym.Assert(sameCollector(r, ec), "Must did not panic with the collector")
			}
		}
		if j, isJoined := c.err.(joined); isJoined {
			g, same := ec.Err.(joined)
			sym.Assert(same && len(g) == len(j) && g[0] == j[0], "the collector does not hold the first error")
			sym.Assert(ec.Index == c.index && ec.Line == c.line && ec.File == c.file, "wrong place")
			var target error
			ec.Set(&target)
			sym.Assert(errors.Is(target, io.EOF), "errors.Is does not see the error")
			sym.Stop()
		}
		c.check(ec)
	}
	sym.Assert(other.File == "other.go" && other.Line == 77 && other.Index == 5, "another collector was changed")
	collectorResults(ec, c)
}

var _ = reg("C16_kinds", C16_kinds)
var _ = reg("C16_do", C16_do)
var _ = reg("C16_must", C16_must)
var _ = reg("C16_writer", C16_writer)

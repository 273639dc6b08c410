package main

import (
	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// sysOK: s can be a system literal; entity values are held to the same.
func sysOK(s string) bool {
	sq, dq := false, false
	for i := 0; i < len(s); i++ {
		sq = or(sq, s[i] == '\'')
		dq = or(dq, s[i] == '"')
	}
	return and(!and(sq, dq), charsOK(s, false))
}

func or(a, b bool) bool { return sym.If(a, 1, sym.If(b, 1, 0)) == 1 }

const literalPlaces = 10

// literalPlace writes pub and sys (or the entity value) in one of the declarations which take
// them, and says whether they must be accepted and what a reader reports.
func literalPlace(w *xw.Writer, place int, pub, sys string) (err error, want bool, evs []ev) {
	pubGood := func(notation bool) bool {
		if !pubidOK(pub) {
			return false
		}
		if sys == "" && pub != "" {
			return notation
		}
		return true
	}
	switch place {
	case 0:
		n := xw.DTD{Name: "d", PublicID: pub, SystemID: sys}
		err = w.StartDTD(n)
		want = and(sysOK(sys), pubGood(false))
		evs = []ev{{k: evDTD, name: "d", val: pub, val2: sys}, {k: evDTDEnd}}
		return
	case 1, 2:
		// inside a document, with a declaration following
		ok(w.StartDoc(xw.Doc{SuppressVersion: true, SuppressEncoding: true}), "doc")
		err = w.Start(xw.DTD{Name: "d", PublicID: pub, SystemID: sys})
		want = and(sysOK(sys), pubGood(false))
		evs = []ev{{k: evDecl}, {k: evText, val: "\n"}, {k: evDTD, name: "d", val: pub, val2: sys}}
		if err == nil && place == 2 {
			ok(w.WriteDTDElem(xw.DTDElem{Name: "e", Decl: "ANY"}), "declaration")
			evs = append(evs, ev{k: evElement, name: "e", val: "ANY"})
		}
		evs = append(evs, ev{k: evDTDEnd})
		return
	}
	if sym.Choice(2) == 1 {
		ok(w.StartDTD(xw.DTD{Name: "d"}), "dtd")
		evs = []ev{{k: evDTD, name: "d"}}
		defer func() { evs = append(evs, ev{k: evDTDEnd}) }()
	}
	switch place {
	case 3, 4, 5:
		n := xw.DTDEntity{Name: "n", PublicID: pub, SystemID: sys, IsPE: place == 4}
		if place == 5 {
			n.NDataID = "nd"
		}
		if pub == "" && sys == "" {
			n.NDataID = ""
		}
		err = w.WriteDTDEntity(n)
		want = and(sysOK(sys), pubGood(false))
		evs = append(evs, entityEv(n))
	case 6, 7:
		n := xw.Notation{Name: "n", PublicID: pub, SystemID: sys}
		if place == 6 {
			err = w.WriteNotation(n)
		} else {
			err = w.Write(n)
		}
		want = and(sysOK(sys), pubGood(true))
		if pub == "" && sys == "" {
			want = false
		}
		evs = append(evs, notationEv(n))
	case 8, 9:
		n := xw.DTDEntity{Name: "n", Content: sys, IsPE: place == 9}
		err = w.Write(n)
		want = sysOK(sys)
		evs = append(evs, entityEv(n))
	}
	return
}

func checkLiterals(out *sink, w *xw.Writer, err error, want bool, evs []ev) {
	exactly(err, want, "the declaration")
	if err != nil {
		sym.Stop()
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	sym.Observe("out", out.b)
	got, msg := read(out.b)
	sym.Assert(msg == "", "the literal broke out of its quotes")
	sym.Assert(sameEvs(got, evs), "the literal does not read back")
}

// C06_system: system IDs and entity values.
// Bound: every byte string of up to 4 bytes (thorough: 5), in each of 10 declarations.
func C06_system() {
	var out sink
	w := xw.Open(&out)
	place := sym.Choice(literalPlaces)
	err, want, evs := literalPlace(w, place, "", sym.String(4+sym.Tier()))
	checkLiterals(&out, w, err, want, evs)
}

// C06_public: public IDs.
// Bound: every byte string of up to 3 bytes (thorough: 4), with and without a system ID, in each of
// 8 declarations.
func C06_public() {
	var out sink
	w := xw.Open(&out)
	err, want, evs := literalPlace(w, sym.Choice(literalPlaces-2), sym.String(3+sym.Tier()), []string{"", "s", "'", "\""}[sym.Choice(4)])
	checkLiterals(&out, w, err, want, evs)
}

// C06_both: public and system ID together, and both kinds of quotes far from each other.
// Bound: public IDs of up to 1 and system IDs of up to 2 arbitrary bytes; system IDs and values made
// of 5 lengths (thorough: 41) of harmless characters between two arbitrary bytes.
func C06_both() {
	var out sink
	w := xw.Open(&out)
	if sym.Choice(2) == 0 {
		pub := sym.String(1)
		err, want, evs := literalPlace(w, sym.Choice(literalPlaces-2), pub, sym.String(2))
		checkLiterals(&out, w, err, want, evs)
		return
	}
	lens := []int{1, 15, 64, 2037, 4096}
	if sym.Tier() > 0 {
		lens = fillLens
	}
	f := fill(lens[sym.Choice(len(lens))], "f")
	a, b := sym.StringN(1), sym.StringN(1)
	place := []int{0, 3, 6, 9}[sym.Choice(4)]
	var err error
	switch place {
	case 0:
		err = w.StartDTD(xw.DTD{Name: "d", SystemID: a + f + b})
	case 3:
		err = w.WriteDTDEntity(xw.DTDEntity{Name: "n", SystemID: a + f + b})
	case 6:
		err = w.WriteNotation(xw.Notation{Name: "n", SystemID: a + f + b})
	case 9:
		err = w.WriteDTDEntity(xw.DTDEntity{Name: "n", Content: a + f + b})
	}
	exactly(err, sysOK(a+b) && a[0] < 0x80 && b[0] < 0x80, "the declaration")
	if err != nil {
		sym.Stop()
	}
	ok(w.EndAllFlush(), "EndAllFlush")
	// the harmless part is where it belongs
	at := map[int]string{0: "<!DOCTYPE d SYSTEM ", 3: "<!ENTITY n SYSTEM ", 6: "<!NOTATION n SYSTEM ", 9: "<!ENTITY n "}[place]
	i := len(at) + 2
	sym.Assert(len(out.b) == i+len(f)+3 && string(out.b[i:i+len(f)]) == f, "long literal")
	rest := append(append([]byte{}, out.b[:i]...), out.b[i+len(f):]...)
	got, msg := read(rest)
	sym.Observe("out", rest)
	sym.Assert(msg == "", "the literal broke out of its quotes")
	var evs []ev
	switch place {
	case 0:
		evs = []ev{{k: evDTD, name: "d", val2: a + b}, {k: evDTDEnd}}
	case 3:
		evs = []ev{entityEv(xw.DTDEntity{Name: "n", SystemID: a + b})}
	case 6:
		evs = []ev{notationEv(xw.Notation{Name: "n", SystemID: a + b})}
	case 9:
		evs = []ev{entityEv(xw.DTDEntity{Name: "n", Content: a + b})}
	}
	sym.Assert(sameEvs(got, evs), "the literal does not read back")
}

var _ = reg("C06_system", C06_system)
var _ = reg("C06_public", C06_public)
var _ = reg("C06_both", C06_both)

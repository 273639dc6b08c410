package main

import (
	"math"
	"strconv"

	xw "github.com/shabbyrobe/xmlwriter"
	"verif/harness/sym"
)

// givenAttr is an attribute with something in every field.
func givenAttr() xw.Attr {
	return xw.Attr{Prefix: letter(), URI: mark(), Name: letter(), Value: sym.StringN(2)}
}

// onlyValue: nothing but the value has been changed.
func onlyValue(before, after xw.Attr) {
	sym.Assert(after.Prefix == before.Prefix, "prefix changed")
	sym.Assert(after.URI == before.URI, "URI changed")
	sym.Assert(after.Name == before.Name, "name changed")
}

// decimal: the value is v in decimal. (The only decimal form without padding and plus sign that
// parses back as v is the one strconv gives.)
func decimal(before, after xw.Attr, v int64) {
	onlyValue(before, after)
	sym.Observe("value", after.Value)
	sym.Assert(after.Value == strconv.FormatInt(v, 10), "the value is not the decimal form of the integer")
	sym.Cover("integer")
}

func udecimal(before, after xw.Attr, v uint64) {
	onlyValue(before, after)
	sym.Observe("value", after.Value)
	sym.Assert(after.Value == strconv.FormatUint(v, 10), "the value is not the decimal form of the integer")
	sym.Cover("integer")
}

// C17_int: signed setters store the decimal form.
// Bound: none on the value: every value of int, int8, int16, int32 and int64.
func C17_int() {
	a := givenAttr()
	v := sym.Uint64()
	switch sym.Choice(5) {
	case 0:
		decimal(a, a.Int(int(v)), int64(v))
	case 1:
		decimal(a, a.Int8(int8(v)), int64(int8(v)))
	case 2:
		decimal(a, a.Int16(int16(v)), int64(int16(v)))
	case 3:
		decimal(a, a.Int32(int32(v)), int64(int32(v)))
	case 4:
		decimal(a, a.Int64(int64(v)), int64(v))
	}
}

// C17_uint: unsigned setters store the decimal form.
// Bound: none on the value: every value of uint8, uint16, uint32 and uint64, and every int given to Uint
// (the negative ones are a known finding).
func C17_uint() {
	a := givenAttr()
	v := sym.Uint64()
	switch sym.Choice(5) {
	case 0:
		b := a.Uint(int(v))
		onlyValue(a, b)
		sym.Observe("value", b.Value)
		sym.AssertKnown("uint-negative", int(v) < 0, b.Value == strconv.FormatInt(int64(v), 10), "the value is not the decimal form of the integer")
		sym.Cover("integer")
	case 1:
		udecimal(a, a.Uint8(uint8(v)), uint64(uint8(v)))
	case 2:
		udecimal(a, a.Uint16(uint16(v)), uint64(uint16(v)))
	case 3:
		udecimal(a, a.Uint32(uint32(v)), uint64(uint32(v)))
	case 4:
		udecimal(a, a.Uint64(v), v)
	}
}

// digit value and number of the digits of a value that must be plain decimal, by the harness itself.
func parsed(s string) (neg bool, v uint32, good bool) {
	i := 0
	if i < len(s) && s[i] == '-' {
		neg = true
		i++
	}
	good = len(s) > i && (s[i] != '0' || len(s) == i+1 && !neg)
	for ; i < len(s); i++ {
		good = good && s[i] >= '0' && s[i] <= '9'
		v = v*10 + uint32(s[i]-'0')
	}
	return
}

// C17_parse: the same of the small types, judged by a parser of the harness instead of strconv.
// Bound: every value of int8, uint8, int16 and uint16.
func C17_parse() {
	a := givenAttr()
	v := sym.Uint16()
	var s string
	var want int32
	switch sym.Choice(4) {
	case 0:
		s, want = a.Int8(int8(v)).Value, int32(int8(v))
	case 1:
		s, want = a.Uint8(uint8(v)).Value, int32(uint8(v))
	case 2:
		s, want = a.Int16(int16(v)).Value, int32(int16(v))
	case 3:
		s, want = a.Uint16(v).Value, int32(v)
	}
	neg, got, good := parsed(s)
	sym.Assert(good, "the value is not plain decimal")
	if neg {
		sym.Assert(-int32(got) == want, "the value does not parse back")
	} else {
		sym.Assert(int32(got) == want, "the value does not parse back")
	}
	sym.Cover("parsed")
}

// C17_bool: Bool parses back.
// Bound: both values.
func C17_bool() {
	a := givenAttr()
	v := sym.Bool()
	b := a.Bool(v)
	onlyValue(a, b)
	sym.Observe("value", b.Value)
	p, err := strconv.ParseBool(b.Value)
	sym.Assert(err == nil, "the value is not a boolean")
	sym.Assert(p == v, "the value does not parse back")
	sym.Cover("bool")
}

// C17_float: floats parse back with every bit (a NaN as a NaN).
// Bound: every float32 and float64, taking as given that strconv's shortest form of a float parses back
// as that float and that any other precision may lose some; the same for mantissas that need many digits.
func C17_float() {
	a := givenAttr()
	long := sym.Choice(2) == 1
	if sym.Choice(2) == 0 {
		v := sym.Uint32()
		if long {
			e := v >> 23 & 0xff
			sym.Assume(e > 100 && e < 180 && v&0x3ff == 0x16b)
		}
		b := a.Float32(math.Float32frombits(v))
		onlyValue(a, b)
		f, err := strconv.ParseFloat(b.Value, 32)
		sym.Assert(err == nil, "the value is not a number")
		p := math.Float32bits(float32(f))
		nan := v&0x7f800000 == 0x7f800000 && v&0x7fffff != 0
		sym.Assert(p == v || nan && f != f, "the value does not parse back")
	} else {
		v := sym.Uint64()
		if long {
			e := v >> 52 & 0x7ff
			sym.Assume(e > 950 && e < 1100 && v&0xffff == 0x5a6b)
		}
		b := a.Float64(math.Float64frombits(v))
		onlyValue(a, b)
		f, err := strconv.ParseFloat(b.Value, 64)
		sym.Assert(err == nil, "the value is not a number")
		p := math.Float64bits(f)
		nan := v&0x7ff0000000000000 == 0x7ff0000000000000 && v&0xfffffffffffff != 0
		sym.Assert(p == v || nan && f != f, "the value does not parse back")
	}
	sym.Cover("float")
}

var _ = reg("C17_int", C17_int)
var _ = reg("C17_uint", C17_uint)
var _ = reg("C17_parse", C17_parse)
var _ = reg("C17_bool", C17_bool)
var _ = reg("C17_float", C17_float)

package main

import (
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/unicode"
)

func utf8Encoder() *encoding.Encoder { return unicode.UTF8.NewEncoder() }

// The encodings of C15.
const (
	latin1 = iota
	win1252
	utf16be
	utf16le
	utf8enc
	encodings
)

// encoder is a new encoder and the name the harness gives it.
func encoder(i int) (string, *encoding.Encoder) {
	switch i {
	case latin1:
		return "iso-8859-1", charmap.ISO8859_1.NewEncoder()
	case win1252:
		return "windows-1252", charmap.Windows1252.NewEncoder()
	case utf16be:
		return "utf-16be", unicode.UTF16(unicode.BigEndian, unicode.ExpectBOM).NewEncoder()
	case utf16le:
		return "utf-16le", unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM).NewEncoder()
	}
	return "utf-8", utf8Encoder()
}

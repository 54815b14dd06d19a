package main

import (
	"fmt"
	"strings"
)

// Cells are built from tokens whose visible width is known by construction
// (UAX #11 / ECMA-48), so the oracle never asks the code under test how wide
// something is. w is the width outside, ea inside an East Asian locale.
type tok struct {
	s     string
	w, ea int
}

var toks = []tok{
	{"a", 1, 1}, {"Zx", 2, 2}, {"7", 1, 1}, {"-", 1, 1}, {" ", 1, 1},
	{"世", 2, 2}, {"さの", 4, 4}, {"ｾ", 1, 1}, {"한", 2, 2}, {"Ｗ", 2, 2},
	{"e\u0301", 1, 1}, {"é", 1, 2}, {"☆", 1, 2}, {"─", 1, 2},
	{"👩", 2, 2}, {"👩\u200d🍳", 2, 2}, {"\u200b", 0, 0}, {"\u0301", 0, 0},
	{"\x1b[38;5;9m", 0, 0}, {"\x1b[0m", 0, 0}, {"\x1b[1;31m", 0, 0}, {"\x1b[K", 0, 0},
	{"\u009b31m", 0, 0}, {"ж", 1, 2}, {"ا", 1, 1}, {"\x00", 0, 0},
	{"\x1b[?25l", 0, 0}, {"\x1b(B", 0, 0}, {"\x1b[48;2;10;200;3m", 0, 0}, {"\x1b[m", 0, 0}, {"\x1bc", 0, 0}, {"\u009b0K", 0, 0},
	{"±", 1, 2}, {"👍🏽", 2, 2}, {"\u1100\u1161", 2, 2}, {"　", 2, 2}, {"…", 1, 2}, {"→", 1, 2}, {"°", 1, 2}, {"ก", 1, 1},
	{"\x7f", 0, 0}, {"\xff", 1, 2}, {"0123456789", 10, 10}, {"#", 1, 1}, {"ÿ", 1, 1}, {"م", 1, 1}, {"𝒜", 1, 1}, {"𠀀", 2, 2}, {"m", 1, 1}, {"[", 1, 1},
	// line breaks and the like, where lines do not matter
	{"\n", 0, 0}, {"\t", 0, 0}, {"\r\n", 0, 0}, {"\u2028", 0, 0}, {"\v", 0, 0},
}

const ctlToks = 5

// Beyond the listed tokens, a token may be any character of a range whose
// width Unicode settles (runeBase + code point), or a control sequence drawn
// from a number (escBase + number).
const (
	runeBase = 1_000_000
	escBase  = 10_000_000
)

type runeRange struct {
	lo, hi rune
	w, ea  int
}

var runeRanges = []runeRange{
	{0x20, 0x7e, 1, 1},       // ASCII
	{0x0300, 0x034e, 0, 0},   // combining marks
	{0x03b1, 0x03c1, 1, 2},   // Greek
	{0x0410, 0x044f, 1, 2},   // Cyrillic
	{0x05d0, 0x05ea, 1, 1},   // Hebrew
	{0x0627, 0x063a, 1, 1},   // Arabic
	{0x0905, 0x0939, 1, 1},   // Devanagari
	{0x0e01, 0x0e30, 1, 1},   // Thai
	{0x2460, 0x2473, 1, 2},   // enclosed numbers
	{0x2500, 0x254b, 1, 2},   // box drawing
	{0x3041, 0x3096, 2, 2},   // Hiragana
	{0x30a1, 0x30fa, 2, 2},   // Katakana
	{0x3105, 0x3129, 2, 2},   // Bopomofo
	{0x3400, 0x4dbf, 2, 2},   // CJK extension A
	{0x4e00, 0x9fff, 2, 2},   // CJK
	{0xac00, 0xd7a3, 2, 2},   // Hangul
	{0xe000, 0xf8ff, 1, 2},   // private use
	{0xff01, 0xff5e, 2, 2},   // fullwidth
	{0xff66, 0xff9d, 1, 1},   // halfwidth Katakana
	{0x1d400, 0x1d454, 1, 1}, // mathematical letters
	{0x1f600, 0x1f64f, 2, 2}, // emoticons
	{0x20000, 0x2a6d6, 2, 2}, // CJK extension B
}

const escFinals = "mmmmmmmKJHABCDEFGfhlnrqg"

// tk returns the token with this number.
func tk(t int) tok {
	if t < runeBase {
		return toks[t]
	}
	if t < escBase {
		c := rune(t - runeBase)
		for _, x := range runeRanges {
			if c >= x.lo && c <= x.hi {
				return tok{string(c), x.w, x.ea}
			}
		}
		panic("no such token")
	}
	r := &rng{s: uint64(t - escBase)}
	s := "\x1b["
	if r.p(1, 6) {
		s = "\u009b"
	}
	if r.p(1, 8) {
		s += "?"
	}
	if n := r.in(0, 6); n > 0 {
		s += fmt.Sprint(r.n(pick(r, 10, 100, 256, 10000)))
		for ; n > 1; n-- {
			s += ";"
			if !r.p(1, 6) {
				s += fmt.Sprint(r.n(pick(r, 10, 100, 256, 10000)))
			}
		}
	}
	return tok{s + string(escFinals[r.n(len(escFinals))]), 0, 0}
}

// tok draws a token.
func (r *rng) tok() int {
	switch r.n(8) {
	case 0, 1:
		x := pick(r, runeRanges...)
		return runeBase + int(x.lo) + r.n(int(x.hi-x.lo)+1)
	case 2:
		return escBase + r.n(1<<16)
	}
	if r.ctl && r.p(1, 12) {
		return len(toks) - 1 - r.n(ctlToks)
	}
	return r.n(len(toks) - ctlToks)
}

// cell is one cell: an optional ASCII tag, tokens, and a repetition count for
// the tokens.
type cell struct {
	Tag string `json:"g,omitempty"`
	P   int    `json:"p,omitempty"` // P times token PT come first
	PT  int    `json:"pt,omitempty"`
	T   []int  `json:"t,omitempty"`
	Rep int    `json:"r,omitempty"`
	// Only for strings compared with themselves: bytes left out at the
	// beginning and at the end. The width is then not known.
	Skip int `json:"sk,omitempty"`
	Cut  int `json:"ct,omitempty"`
}

func (c cell) known() bool { return c.Skip == 0 && c.Cut == 0 }

func (c cell) str() string {
	var b strings.Builder
	b.WriteString(c.Tag)
	for i := 0; i < c.P; i++ {
		b.WriteString(tk(c.PT).s)
	}
	n := c.Rep
	if n < 1 {
		n = 1
	}
	for ; n > 0; n-- {
		for _, t := range c.T {
			b.WriteString(tk(t).s)
		}
	}
	if c.known() {
		return b.String()
	}
	s := b.String()
	if c.Skip+c.Cut >= len(s) {
		return ""
	}
	return s[c.Skip : len(s)-c.Cut]
}

const maxSupported = 65535

func (c cell) width(ea bool) int {
	w := 0
	for _, t := range c.T {
		if ea {
			w += tk(t).ea
		} else {
			w += tk(t).w
		}
	}
	if c.Rep > 1 {
		w *= c.Rep
	}
	w += len(c.Tag)
	if ea {
		w += c.P * tk(c.PT).ea
	} else {
		w += c.P * tk(c.PT).w
	}
	if w > maxSupported {
		w = maxSupported
	}
	return w
}

func (r *rng) cell(max int) cell {
	n := r.in(0, max)
	var c cell
	if r.p(1, 40) {
		// a long one: a run of one token around random ones
		k := r.in(1, 1<<r.in(3, 9))
		c.P, c.PT = k, r.tok()
		if r.p(1, 2) {
			c.PT = r.n(5)
		}
		if n := 600 / len(tk(c.PT).s); c.P > n {
			c.P = n
		}
	}
	style := r.n(6)
	for i := 0; i < n; i++ {
		switch style {
		case 0: // ASCII only
			c.T = append(c.T, r.n(4))
		case 1: // zero width only, now and then
			if r.p(1, 3) {
				c.T = append(c.T, pick(r, 16, 17, 18, 19, 22, 25))
			} else {
				c.T = append(c.T, r.tok())
			}
		default:
			c.T = append(c.T, r.tok())
		}
	}
	return c
}

// tokOf is the number of a listed token.
func tokOf(s string) int {
	for i, t := range toks {
		if t.s == s {
			return i
		}
	}
	panic("no such token")
}

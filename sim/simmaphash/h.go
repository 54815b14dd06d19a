// Package simmaphash stands in for hash/maphash in instrumented code: the same
// interface, with seeds that are the same in every process.
package simmaphash

import "fmt"

type Seed struct{ s uint64 }

func MakeSeed() Seed { return Seed{0x1234567} }

type Hash struct {
	seed Seed
	h    uint64
	init bool
}

const (
	offset = 0xcbf29ce484222325
	prime  = 0x100000001b3
)

func (h *Hash) start() {
	if !h.init {
		if h.seed.s == 0 {
			h.seed = MakeSeed()
		}
		h.h, h.init = offset^h.seed.s, true
	}
}

func (h *Hash) WriteByte(b byte) error {
	h.start()
	h.h = (h.h ^ uint64(b)) * prime
	return nil
}

func (h *Hash) Write(p []byte) (int, error) {
	for _, b := range p {
		h.WriteByte(b)
	}
	return len(p), nil
}

func (h *Hash) WriteString(s string) (int, error) {
	for i := 0; i < len(s); i++ {
		h.WriteByte(s[i])
	}
	return len(s), nil
}

func (h *Hash) Sum64() uint64 {
	h.start()
	x := h.h
	x = (x ^ (x >> 33)) * 0xff51afd7ed558ccd
	return x ^ (x >> 33)
}

func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	for i := 0; i < 8; i++ {
		b = append(b, byte(x>>(8*i)))
	}
	return b
}

func (h *Hash) Reset()         { h.init = false }
func (h *Hash) Seed() Seed     { h.start(); return h.seed }
func (h *Hash) SetSeed(s Seed) { h.seed = s; h.init = false }
func (h *Hash) Size() int      { return 8 }
func (h *Hash) BlockSize() int { return 128 }

func String(seed Seed, s string) uint64 {
	h := Hash{seed: seed}
	h.WriteString(s)
	return h.Sum64()
}

func Bytes(seed Seed, b []byte) uint64 {
	h := Hash{seed: seed}
	h.Write(b)
	return h.Sum64()
}

func Comparable[T comparable](seed Seed, v T) uint64 { return String(seed, fmt.Sprintf("%#v", v)) }

// Package gen has the generators the checks share. Every choice is drawn from rapid.
package gen

import (
	"math"
	"strings"

	"verifharness/pbt"

	"pgregory.net/rapid"
)

var edges = []uint64{0, 1, 2, 7, 8, 127, 128, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537,
	1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40,
	1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}

// U64 draws a number up to max: edges, their neighbourhood, or any number of bits.
func U64(t *rapid.T, label string, max uint64) uint64 {
	var v uint64
	switch rapid.IntRange(0, 3).Draw(t, label+".kind") {
	case 0:
		return rapid.Uint64Range(0, max).Draw(t, label)
	case 1:
		v = rapid.SampledFrom(edges).Draw(t, label)
	case 2:
		b := rapid.IntRange(0, 64).Draw(t, label+".bits")
		v = rapid.Uint64().Draw(t, label)
		if b < 64 {
			v &= 1<<uint(b) - 1
		}
	case 3:
		return max - rapid.Uint64Range(0, min(max, 3)).Draw(t, label)
	}
	if v > max {
		if max == math.MaxUint64 {
			return v
		}
		v %= max + 1
	}
	return v
}

func U32(t *rapid.T, label string) uint32 { return uint32(U64(t, label, math.MaxUint32)) }

var lens = []int{1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 1025,
	1399, 1400, 1439, 1440, 1472, 1499, 1500, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 8999, 9000, 9001,
	16383, 16384, 16385, 32767, 32768, 32769, 65506, 65507, 65535, 65536, 65537}

// Len draws a length up to max, an edge half of the time.
func Len(t *rapid.T, label string, max int) int {
	if rapid.Bool().Draw(t, label+".edge") {
		k := len(lens)
		for k > 1 && lens[k-1] > max {
			k--
		}
		if i := rapid.IntRange(0, k).Draw(t, label); i < k {
			return min(lens[i], max)
		}
		return max
	}
	return rapid.IntRange(0, max).Draw(t, label)
}

// Bytes draws up to max bytes; some are long, most are short.
func Bytes(t *rapid.T, label string, max int) []byte {
	switch rapid.IntRange(0, 5).Draw(t, label+".kind") {
	case 0:
		return []byte{}
	case 1: // a long one made of few draws
		n := Len(t, label+".len", max)
		a := rapid.Uint32().Draw(t, label+".pat")
		b := make([]byte, n)
		for i := range b {
			a = a*1664525 + 1013904223
			b[i] = byte(a >> 24)
		}
		return b
	default:
		return rapid.SliceOfN(rapid.Byte(), 0, min(max, 48)).Draw(t, label)
	}
}

// Name draws a string without NUL: letters, UTF-8, or any bytes, up to max bytes.
func Name(t *rapid.T, label string, max int) pbt.B {
	var s string
	switch rapid.IntRange(0, 5).Draw(t, label+".kind") {
	case 0:
		s = rapid.StringMatching(`[a-zA-Z0-9._-]{0,12}`).Draw(t, label)
	case 1:
		s = rapid.StringMatching(`[a-z]{1,5}(/[a-z0-9. ]{1,5}){0,3}`).Draw(t, label)
	case 2:
		s = rapid.StringN(0, 20, 60).Draw(t, label)
	case 3:
		s = string(rapid.SliceOfN(rapid.ByteRange(1, 255), 0, 40).Draw(t, label))
	case 4:
		n := rapid.IntRange(0, max).Draw(t, label+".len")
		s = strings.Repeat(rapid.SampledFrom([]string{"a", "xy/", "é", "\xff", "%d", "\n", " "}).Draw(t, label+".unit"), n)
	case 5:
		s = rapid.SampledFrom([]string{"", "a", ".", "a b", "a,b=c", "über.txt", "\xff\xfe", "日本", "a\\b", "%s%n", "tab\there"}).Draw(t, label)
	}
	s = strings.ReplaceAll(s, "\x00", "_")
	if len(s) > max {
		s = s[:max]
	}
	return pbt.B(s)
}

// Pick draws one of the values.
func Pick[T any](t *rapid.T, label string, v ...T) T { return rapid.SampledFrom(v).Draw(t, label) }

// Bool draws a bool.
func Bool(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// KV is one name=value of a flag string.
type KV struct{ K, V string }

// Flags draws distinct flags in any order, each with one of its values.
func Flags(t *rapid.T, label string, names []string, opts func(string) []string) []KV {
	p := rapid.Permutation(names).Draw(t, label+".order")
	n := rapid.IntRange(0, len(p)).Draw(t, label+".n")
	var r []KV
	for _, k := range p[:n] {
		r = append(r, KV{k, rapid.SampledFrom(opts(k)).Draw(t, label+"."+k)})
	}
	return r
}

// FlagStr writes a flag string, with a blank after each comma if spaced.
func FlagStr(kv []KV, spaced bool) string {
	var s []string
	for _, x := range kv {
		s = append(s, x.K+"="+x.V)
	}
	if spaced {
		return strings.Join(s, ", ")
	}
	return strings.Join(s, ",")
}

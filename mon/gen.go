//go:build go1.22

package main

import (
	"bytes"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math/rand/v2"
	"strconv"
	"strings"
)

func oneIn(r *rand.Rand, n int) bool { return r.IntN(n) == 0 }

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// size draws a heavy-tailed size up to max, with the values around powers of two
// and common buffer sizes drawn often.
func size(r *rand.Rand, max int) int {
	n := 0
	switch r.IntN(10) {
	case 0:
		n = 0
	case 1, 2, 3:
		n = r.IntN(8)
	case 4, 5:
		n = r.IntN(64)
	case 6:
		n = r.IntN(1024)
	case 7:
		n = 1<<r.IntN(18) + r.IntN(5) - 2
	case 8:
		n = pick(r, 4096, 8192, 16384, 32768, 65536, 65536*2) + r.IntN(5) - 2
	case 9:
		n = r.IntN(max + 1)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = r.IntN(max + 1)
	}
	return n
}

var specials = []byte{0, '\n', '\r', '\t', ' ', '%', '\\', '"', '\'', '-', '.', 0x7f, 0x80, 0xff, 0xfe, 'a', 'b', 'A', '0', '<', '>', 0xc3, 0xa9, 0x1a, 0x04}

// blob draws n bytes in one of several styles.
func blob(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.IntN(7) {
	case 0: // uniform
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
	case 1: // special bytes
		for i := range b {
			b[i] = specials[r.IntN(len(specials))]
		}
	case 2: // text lines
		for i := range b {
			if oneIn(r, 12) {
				b[i] = '\n'
			} else {
				b[i] = byte('a' + r.IntN(26))
			}
		}
	case 3: // one byte value
		c := byte(r.IntN(256))
		if oneIn(r, 2) {
			c = pick(r, byte(0), '\n', 0xff, 0x80)
		}
		for i := range b {
			b[i] = c
		}
	case 4: // CRLF lines, some empty
		for i := range b {
			switch r.IntN(6) {
			case 0:
				b[i] = '\n'
			case 1:
				b[i] = '\r'
			default:
				b[i] = byte('A' + r.IntN(26))
			}
		}
	case 5: // very long lines
		for i := range b {
			if oneIn(r, 30000) {
				b[i] = '\n'
			} else {
				b[i] = byte(' ' + r.IntN(95))
			}
		}
	case 6: // short lines
		for i := range b {
			b[i] = pick(r, byte('\n'), '\n', 'x', 'y')
		}
	}
	if n > 0 && oneIn(r, 3) {
		b[n-1] = '\n'
	}
	return b
}

var oddNames = []string{"a", "file", "x y", "-x", "-n", "--", "-1", "ünïcode", "tab\tname", "%s%d", "$HOME", "a;b", "quote'\"", "*", "..x", ".hidden", "UPPER", "name.swp", "back\\slash", "=", "!", "new\nline", "very" + strings.Repeat("long", 40), "\xff\xfe", "-", "-u", "-s", "-l"}

// name draws a file name that does not begin with "-".
func name(r *rand.Rand) string {
	for {
		s := oddNames[r.IntN(len(oddNames))]
		if oneIn(r, 2) {
			s += string(rune('a' + r.IntN(26)))
		}
		if s != "" && s[0] != '-' {
			return s
		}
	}
}

// mutate changes a few bytes of b: the result may be equal to b.
func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.IntN(3); k > 0; k-- {
		at := 0
		if len(b) > 0 {
			at = r.IntN(len(b) + 1)
			if oneIn(r, 4) {
				at = len(b)
			} else if oneIn(r, 4) {
				at = len(b) - 1
			}
		}
		switch r.IntN(5) {
		case 0: // insert
			x := blob(r, 1+r.IntN(3))
			b = append(b[:at:at], append(x, b[at:]...)...)
		case 1: // delete
			end := at + 1 + r.IntN(3)
			if end > len(b) {
				end = len(b)
			}
			b = append(b[:at:at], b[end:]...)
		case 2, 3: // replace
			if at < len(b) {
				if oneIn(r, 2) {
					b[at] ^= 1 << r.IntN(8)
				} else {
					b[at] = specials[r.IntN(len(specials))]
				}
			}
		case 4: // truncate
			b = b[:at]
		}
	}
	return b
}

func lines(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
}

func firstDiff(a, b []byte) int {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return n
}

// show describes how got differs from want.
func show(got, want []byte) string {
	if bytes.Equal(got, want) {
		return "equal"
	}
	i := firstDiff(got, want)
	lo := max(0, i-20)
	return sprintf("got %d bytes, want %d, first difference at offset %d: got …%q, want …%q", len(got), len(want), i,
		clip(string(got[lo:min(len(got), i+40)]), 200), clip(string(want[lo:min(len(want), i+40)]), 200))
}

func eqLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type breEl struct {
	any      bool
	set      []rune
	min, max int // max -1: no limit
}

func (e breEl) has(r rune) bool {
	if e.any {
		return true
	}
	for _, x := range e.set {
		if x == r {
			return true
		}
	}
	return false
}

// breMatch is the oracle: the set of positions reachable after each element.
func breMatch(els []breEl, left, right bool, s []rune) bool {
	cur := make([]bool, len(s)+1)
	for i := range cur {
		cur[i] = i == 0 || !left
	}
	for _, e := range els {
		// from each position in the set, any number of steps from min to max along
		// characters that match: an interval, added up in diff
		diff := make([]int, len(s)+2)
		run := 0 // matching characters from i on
		for i := len(s); i >= 0; i-- {
			if i < len(s) && e.has(s[i]) {
				run++
			} else {
				run = 0
			}
			hi := run
			if e.max >= 0 && e.max < hi {
				hi = e.max
			}
			if cur[i] && e.min <= hi {
				diff[i+e.min]++
				diff[i+hi+1]--
			}
		}
		n := 0
		for i := range cur {
			n += diff[i]
			cur[i] = n > 0
		}
	}
	if right {
		return cur[len(s)]
	}
	for _, b := range cur {
		if b {
			return true
		}
	}
	return false
}

// twins returns two different words that some checksum does not tell apart.
func twins(r *rand.Rand) [2]string {
	if allTwins == nil {
		allTwins = findTwins()
	}
	return allTwins[r.IntN(len(allTwins))]
}

var allTwins [][2]string

func findTwins() (out [][2]string) {
	java := func(s string) uint32 {
		var h uint32
		for _, b := range []byte(s) {
			h = 31*h + uint32(b)
		}
		return h
	}
	djb := func(s string) uint32 {
		h := uint32(5381)
		for _, b := range []byte(s) {
			h = 33*h + uint32(b)
		}
		return h
	}
	sums := []func(s string) uint32{
		func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) },
		func(s string) uint32 { return crc32.Checksum([]byte(s), crc32.MakeTable(crc32.Castagnoli)) },
		func(s string) uint32 { return adler32.Checksum([]byte(s)) },
		func(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() },
		func(s string) uint32 { h := fnv.New32a(); h.Write([]byte(s)); return h.Sum32() },
		java, djb,
	}
	for _, sum := range sums {
		seen := map[uint32]string{}
		n := 0
		for i := uint64(0); n < 4 && i < 400000; i++ {
			w := "w" + strconv.FormatUint(mix(i), 36)
			k := sum(w)
			if o, ok := seen[k]; ok {
				out = append(out, [2]string{o, w})
				n++
			} else {
				seen[k] = w
			}
		}
	}
	// sums of bytes, lengths, case and blanks
	return append(out, [2]string{"ab", "ba"}, [2]string{"Aa", "BB"}, [2]string{"word", "WORD"}, [2]string{"word", "word "}, [2]string{"x y", "x  y"},
		[2]string{"é", "e\u0301"}, [2]string{"01", "1"}, [2]string{"1.0", "1.00"}, [2]string{"abc", "abd"}, [2]string{"straße", "STRASSE"}, [2]string{"\xff", "\xfe"}, [2]string{"\xff", "\ufffd"})
}

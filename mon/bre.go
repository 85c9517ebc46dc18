//go:build go1.22

package main

import (
	"math/rand/v2"
	"strconv"
	"strings"
	"unicode"

	"github.com/fwip/posix-utils/pkg/regexes"
)

func init() {
	register(&Prop{ID: "C17", Level: "exploration", Quick: 3000000, Thorough: 20000000,
		Rule:      "patterns of 0-7 elements (literals, ., lists, grouping parentheses, *, {n}, {n,}, {n,m}, anchors) over small and non-ASCII alphabets x 6 subjects each, drawn from the pattern's language, near misses and at random; oracle: a set-of-positions matcher; also malformed patterns, which must be rejected; one pattern in a thousand has counts up to 70000 or long subjects with much backtracking; non-trivial: the pattern has an element or is malformed",
		MinEvents: []string{"matches", "mismatches", "malformed", "stars", "counts", "lists", "groups", "anchored_left", "anchored_right", "backtracks", "long_matches", "long_mismatches"},
		Run:       runBre})
}

func genBre(r *rand.Rand, c *Ctx) (string, []breEl, bool, bool, []rune) {
	alpha := []rune(pick(r, "a", "ab", "ab", "abc", "abx-", "aé漢", "01,", "a\n \t", "a}|+?<>", "aA", "sſS", "a😀", "\uf600\U0001f600", "\x00\x7f\u0080ÿĀ", "\u00e9\u0301e"))
	var sb strings.Builder
	var els []breEl
	left, right := oneIn(r, 4), oneIn(r, 3)
	many := oneIn(r, 400) // many elements, few of them repeated
	left = left || many
	if left {
		sb.WriteByte('^')
		c.Count("anchored_left", 1)
	}
	n := r.IntN(6)
	if oneIn(r, 20) {
		n = 7
	}
	if many {
		n = 8 + r.IntN(pick(r, 10, 60, 250))
		c.Count("many_elements", 1)
	}
	open, reps := 0, 0
	for k := 0; k < n; k++ {
		if oneIn(r, 12) {
			sb.WriteByte('(')
			open++
			c.Count("groups", 1)
		}
		e := breEl{min: 1, max: 1}
		switch r.IntN(8) {
		case 0, 1:
			e.any = true
			sb.WriteByte('.')
		case 2, 3:
			m := 1 + r.IntN(3)
			wide := oneIn(r, 200) // a list of many characters
			if wide {
				m = 4 + r.IntN(pick(r, 10, 60, 300))
				c.Count("long_lists", 1)
			}
			sb.WriteByte('[')
			for j := 0; j < m; j++ {
				x := alpha[r.IntN(len(alpha))]
				if wide && !oneIn(r, 4) {
					x = pick(r, '0'+rune(r.IntN(10)), 'A'+rune(r.IntN(26)), 'a'+rune(r.IntN(26)), 'à'+rune(r.IntN(30)))
					if oneIn(r, 3) {
						x = '一' + rune(r.IntN(20000))
					}
				}
				if oneIn(r, 6) {
					x = pick(r, '.', '*', '$', '(', ')', '{', '}', ',')
				}
				if x == '-' || x == '^' || x == ']' {
					x = alpha[0]
				}
				if j > 0 && oneIn(r, 8) {
					x = '^'
				}
				e.set = append(e.set, x)
				sb.WriteRune(x)
			}
			sb.WriteByte(']')
			c.Count("lists", 1)
		default:
			x := alpha[r.IntN(len(alpha))]
			e.set = []rune{x}
			sb.WriteRune(x)
		}
		rep := r.IntN(8)
		if many && (!oneIn(r, n/4) || reps > 1) {
			rep = 7
		}
		if rep < 5 {
			reps++
		}
		switch rep {
		case 0, 1:
			e.min, e.max = 0, -1
			sb.WriteByte('*')
			c.Count("stars", 1)
		case 2:
			e.min = r.IntN(4)
			e.max = e.min
			sb.WriteString("{" + strconv.Itoa(e.min) + "}")
			c.Count("counts", 1)
		case 3:
			e.min, e.max = r.IntN(3), -1
			sb.WriteString("{" + strconv.Itoa(e.min) + ",}")
			c.Count("counts", 1)
		case 4:
			e.min = r.IntN(3)
			e.max = e.min + r.IntN(3)
			if oneIn(r, 10) {
				e.max = e.min + 10 + r.IntN(5)
			}
			sb.WriteString("{" + strconv.Itoa(e.min) + "," + strconv.Itoa(e.max) + "}")
			c.Count("counts", 1)
		}
		els = append(els, e)
		// a parenthesis closes only after an element, and is not repeated
		if open > 0 && oneIn(r, 2) {
			sb.WriteByte(')')
			open--
		}
	}
	for ; open > 0; open-- {
		sb.WriteByte(')')
	}
	if right {
		sb.WriteByte('$')
		c.Count("anchored_right", 1)
	}
	return sb.String(), els, left, right, alpha
}

// kin draws a character that is easily confused with x.
func kin(r *rand.Rand, x rune) rune {
	y := pick(r, x^0x80, x^0x100, x&0xff, x+0x10000, x&0xffff, x^0x20, unicode.SimpleFold(x), x+1, x-1)
	if y < 0 || y > unicode.MaxRune || y >= 0xd800 && y < 0xe000 {
		return x
	}
	return y
}

// genLongBre draws a pattern with a large count or for long subjects.
func genLongBre(r *rand.Rand) (pat string, els []breEl, left, right bool, subjects [][]rune) {
	n := pick(r, 9, 10, 11, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 300, 512, 999, 1000)
	el := func(set string, k int) {
		e := breEl{min: 1, max: 1, set: []rune(set)}
		switch len(set) {
		case 0:
			e.any = true
			pat += "."
		case 1:
			pat += set
		default:
			pat += "[" + set + "]"
		}
		switch k {
		case 1:
			e.min, e.max = 0, -1
			pat += "*"
		case 2:
			e.min, e.max = n, n
			pat += sprintf("{%d}", n)
		case 3:
			e.min, e.max = n, -1
			pat += sprintf("{%d,}", n)
		case 4:
			e.min, e.max = n, n+pick(r, 0, 1, 2, 100, 256)
			pat += sprintf("{%d,%d}", n, e.max)
		case 5:
			e.min, e.max = r.IntN(3), n
			pat += sprintf("{%d,%d}", e.min, n)
		}
		els = append(els, e)
	}
	left, right = !oneIn(r, 4), !oneIn(r, 3)
	if oneIn(r, 40) {
		n = pick(r, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70000)
		left, right = true, true
	}
	if left {
		pat = "^"
	}
	if n > 1000 {
		el(pick(r, "a", "", "ab"), 2+r.IntN(4))
	} else {
		// a repetition that takes too much at first, and what must follow it
		if oneIn(r, 3) {
			el("x", 0)
		}
		el(pick(r, "a", "", "ab"), 1+r.IntN(5))
		if !oneIn(r, 3) {
			el(pick(r, "a", "b", "ab"), 0)
			el(pick(r, "a", "b"), r.IntN(6))
		}
	}
	if right {
		pat += "$"
	}
	for k := 0; k < 4; k++ {
		var s []rune
		if els[0].has('x') && !els[0].any {
			s = append(s, 'x')
		}
		m := n + pick(r, 0, 0, 0, -1, 1, 2, -2, 100, 256, -256, -n+n%256, -n+n%65536)
		for i := 0; i < m; i++ {
			s = append(s, 'a')
		}
		if len(els) > 1 {
			if oneIn(r, 2) {
				s = append(s, 'b')
			}
			for i := r.IntN(2) * (n + r.IntN(3) - 1); i > 0; i-- {
				s = append(s, pick(r, 'a', 'a', 'a', 'b'))
			}
			if oneIn(r, 2) {
				for i := pick(r, 1, 2, n); i > 0; i-- {
					s = append(s, 'b')
				}
			}
		}
		subjects = append(subjects, s)
	}
	return
}

func genSubject(r *rand.Rand, els []breEl, left, right bool, alpha []rune) []rune {
	ch := func() rune {
		if oneIn(r, 100) {
			return '\ufffd' // also stands for a byte that is not part of a character
		}
		switch r.IntN(16) {
		case 0, 1:
			return pick(r, 'z', '$', '^', '.', 'é', '\n')
		case 2:
			return kin(r, alpha[r.IntN(len(alpha))])
		}
		return alpha[r.IntN(len(alpha))]
	}
	var s []rune
	if oneIn(r, 3) {
		for k := r.IntN(8); k > 0; k-- {
			s = append(s, ch())
		}
		return s
	}
	if !left || oneIn(r, 8) {
		for k := r.IntN(3); k > 0; k-- {
			s = append(s, ch())
		}
	}
	for _, e := range els {
		k := e.min
		if e.max < 0 {
			k += r.IntN(4)
		} else {
			k += r.IntN(e.max - e.min + 1)
		}
		if oneIn(r, 15) {
			k += r.IntN(3) - 1
		}
		for ; k > 0; k-- {
			if e.any {
				s = append(s, ch())
			} else {
				s = append(s, e.set[r.IntN(len(e.set))])
			}
		}
	}
	if !right || oneIn(r, 8) {
		for k := r.IntN(3); k > 0; k-- {
			s = append(s, ch())
		}
	}
	if len(s) > 0 && oneIn(r, 6) {
		i := r.IntN(len(s))
		s = append(s[:i:i], s[i+1:]...)
	}
	return s
}

func runBre(c *Ctx) {
	r := c.R
	if oneIn(r, 1000) {
		runLongBre(c)
		return
	}
	pat, els, left, right, alpha := genBre(r, c)
	if oneIn(r, 12) {
		// break it: an unterminated list or count, or a bad count
		var bad string
		body := strings.TrimSuffix(pat, "$")
		switch r.IntN(4) {
		case 0:
			bad = body + "[" + pick(r, "a", "ab", "", "abc", "a.*", "a$")
			if strings.HasSuffix(bad, "$") {
				bad = strings.TrimSuffix(bad, "$") + "x"
			}
		case 1:
			bad = body + "b{" + pick(r, "1", "1,", "1,2", "", "2x", "12")
		case 2:
			bad = body + "b{" + pick(r, "x", "", ",", "1,x", "1;2", "1 ", " 1", "a,b", "1,2,3", "-1", "1.5", ",2", "1,-2", "+1") + "}" + pick(r, "", "c", "$")
		case 3:
			bad = "[" + pick(r, "a", "xyz", "")
		}
		c.Count("malformed", 1)
		c.Key("malformed", bad)
		c.Desc("malformed pattern %q", bad)
		var err error
		var b *regexes.Bre
		p, _ := Catch(func() { b, err = regexes.ParseBre(bad) })
		if p == nil && err == nil {
			c.Fail("malformed pattern %q is accepted: %v", bad, b != nil)
		}
		return
	}
	if len(els) == 0 {
		c.Trivial()
	}
	var b *regexes.Bre
	var err error
	if p, st := Catch(func() { b, err = regexes.ParseBre(pat) }); p != nil || err != nil || b == nil {
		c.Fail("pattern %q is refused: %v %v\n%s", pat, p, err, clip(st, 1500))
		return
	}
	c.Key(pat)
	for k := 0; k < 6; k++ {
		s := genSubject(r, els, left, right, alpha)
		if k == 5 && oneIn(r, 4) {
			s = nil
		}
		want := breMatch(els, left, right, s)
		text := string(s)
		if strings.ContainsRune(text, '\ufffd') {
			switch r.IntN(3) {
			case 0:
				text = strings.ReplaceAll(text, "\ufffd", "\xff")
			case 1:
				text = strings.ReplaceAll(text, "\ufffd", "\xc3")
			}
			c.Count("odd_bytes", 1)
		}
		var got bool
		if p, st := Catch(func() { got = b.Matches(text) }); p != nil {
			c.Fail("/%s/ on %q panics: %v\n%s", pat, text, p, clip(st, 1500))
			return
		}
		if got != want {
			c.Fail("/%s/ on %q: %v, want %v", pat, text, got, want)
			return
		}
		c.Key(text)
		if want {
			c.Count("matches", 1)
		} else {
			c.Count("mismatches", 1)
		}
		if want && len(els) > 1 && els[0].max != els[0].min {
			c.Count("backtracks", 1)
		}
		c.Desc("/%s/ on %q: %v", pat, text, want)
	}
}

// genFarBre draws a pattern without much repetition, and very long subjects in
// which it matches late or nowhere.
func genFarBre(r *rand.Rand) (pat string, els []breEl, left, right bool, subjects [][]rune) {
	right = oneIn(r, 3)
	optional := oneIn(r, 4) // the empty string matches, but with $ only at the end
	if optional {
		right = !oneIn(r, 3)
	}
	fill := pick(r, 'a', 'é', '😀', ' ')
	for k := 1 + r.IntN(4); k > 0; k-- {
		e := breEl{min: 1, max: 1, set: []rune(pick(r, "x", "y", "xy", "漢"))}
		if len(e.set) > 1 {
			pat += "[" + string(e.set) + "]"
		} else {
			pat += string(e.set)
		}
		switch r.IntN(8) {
		case 0:
			e.max = 2
			pat += "{1,2}"
		case 1:
			e.min, e.max = 0, -1
			pat += "*"
		case 2:
			e.min, e.max = 0, 3
			pat += "{0,3}"
		}
		if optional && e.min > 0 {
			pat = strings.TrimSuffix(pat, "{1,2}") + "*"
			e.min, e.max = 0, -1
		}
		els = append(els, e)
	}
	if right {
		pat += "$"
	}
	for k := 0; k < 3; k++ {
		n := pick(r, 50, 120, 250, 500, 1000, 4090, 8190, 10000, 32760, 65530, 100000, 140000) + r.IntN(20)
		var s []rune
		for i := 0; i < n; i++ {
			s = append(s, fill)
		}
		var m []rune
		for _, e := range els {
			m = append(m, e.set[r.IntN(len(e.set))])
		}
		if oneIn(r, 3) { // a near miss
			m = m[1:]
		}
		at := len(s)
		if oneIn(r, 3) {
			at = r.IntN(len(s) + 1)
		}
		subjects = append(subjects, append(s[:at:at], append(m, s[at:]...)...))
	}
	return
}

func runLongBre(c *Ctx) {
	pat, els, left, right, subjects := genLongBre(c.R)
	if oneIn(c.R, 4) {
		pat, els, left, right, subjects = genFarBre(c.R)
	}
	c.Count("long", 1)
	c.Key(pat)
	c.Desc("/%s/ on long subjects", pat)
	var b *regexes.Bre
	var err error
	if p, st := Catch(func() { b, err = regexes.ParseBre(pat) }); p != nil || err != nil || b == nil {
		c.Fail("pattern %q is refused: %v %v\n%s", pat, p, err, clip(st, 1500))
		return
	}
	for _, s := range subjects {
		want := breMatch(els, left, right, s)
		var got bool
		if p, st := Catch(func() { got = b.Matches(string(s)) }); p != nil {
			c.Fail("/%s/ on %q panics: %v\n%s", pat, clip(string(s), 600), p, clip(st, 1500))
			return
		}
		if got != want {
			c.Fail("/%s/ on %q (%d characters): %v, want %v", pat, clip(string(s), 600), len(s), got, want)
			return
		}
		if want {
			c.Count("long_matches", 1)
		} else {
			c.Count("long_mismatches", 1)
		}
	}
}

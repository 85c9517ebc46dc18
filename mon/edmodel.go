//go:build go1.22

package main

import (
	"math/rand/v2"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// A model of ed's buffer: a list of lines and a current line. Generated
// commands are executed on the model as they are made, so that the expected
// answers are known.

type edModel struct {
	r     *rand.Rand
	c     *Ctx
	lines []string
	cur   int
	name  string // remembered file
	dir   string // where files are
	files map[string]string
	nfile int

	script []string // lines sent
	want   []edAns  // expected answers
	odd    bool     // odd text allowed
	long   int      // long lines so far
	huge   bool     // the next file has tens of thousands of lines
}

// edAns is the expected answer to one command: exact text (without the last
// newline), or an error answer.
type edAns struct {
	text  string
	fail  bool
	cmd   string
	lines int // lines of input
}

func (m *edModel) send(ans string, ls ...string) {
	m.script = append(m.script, ls...)
	m.want = append(m.want, edAns{text: ans, cmd: ls[0], lines: len(ls)})
}

func (m *edModel) sendBad(ls ...string) {
	m.script = append(m.script, ls...)
	m.want = append(m.want, edAns{fail: true, cmd: ls[0], lines: len(ls)})
	m.c.Count("invalid", 1)
}

func (m *edModel) String() string {
	if len(m.lines) == 0 {
		return ""
	}
	return strings.Join(m.lines, "\n") + "\n"
}

var edWords = []string{"alpha", "beta", "gamma", "abc", "xyz", "a", "b", "aa", "ab", "hello world", "x1", "foo bar", "42", "end"}

func (m *edModel) line() string {
	r := m.r
	switch k := r.IntN(10); {
	case k < 6 || !m.odd:
		s := edWords[r.IntN(len(edWords))]
		if oneIn(r, 3) {
			s += " " + strconv.Itoa(r.IntN(100))
		}
		return s
	case k < 9:
		return pick(r, "", "", "..", ".x", ". ", " .", ".\r", "x\r", "\r", "é", "日本語 text", "\t", " ", "p", "q", "1d", "a", "w", "$", "%s%d", "\\", "\\n", "\"q\"", "?", "/x/", "\x00", "\x7f", "1,$p", "ü.", "e file", "𝄞", ".\t", "\u2028", "\u00a0", "line ending \\")
	default:
		if oneIn(r, 10) {
			if m.long++; m.long > 3 {
				return "long"
			}
			n := pick(r, 100, 500, 1500)
			if m.long == 1 && oneIn(r, 12) {
				n = pick(r, 14000, 66000)
			}
			// what is at the end is to be found as well
			return strings.Repeat(pick(r, "long ", "é", "z"), n) + pick(r, "", edWords[r.IntN(len(edWords))]+strconv.Itoa(r.IntN(100)))
		}
		n := r.IntN(12)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(rune(32 + r.IntN(95)))
		}
		if sb.String() == "." {
			return "x"
		}
		return sb.String()
	}
}

// newFile makes a file and returns its name; some end without a newline.
func (m *edModel) newFile(big bool) string {
	r := m.r
	n := pick(r, 0, 1, 1, 2, 3, 5, 8, 12)
	if big && oneIn(r, 40) {
		n = 50 + r.IntN(200)
		if oneIn(r, 5) {
			n = 1000 + r.IntN(1500)
		}
	}
	if m.huge {
		// beyond what 15 or 16 bits can count
		n = pick(r, 32760, 33000, 40000, 65530, 66000, 70000) + r.IntN(20)
		if oneIn(r, 4) {
			n += 70000
		}
		m.huge = false
		m.c.Count("huge_files", 1)
	}
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, m.line())
	}
	s := strings.Join(ls, "\n")
	if n > 0 && (ls[n-1] == "" || !oneIn(r, 3)) {
		s += "\n"
	}
	if n == 0 && oneIn(r, 3) {
		s = "\n" // one empty line
	}
	m.nfile++
	name := pick(r, "f", "file", "x y", "ünï", "f.txt", "-f", "a;b") + strconv.Itoa(m.nfile)
	p := filepath.Join(m.dir, name)
	must(os.WriteFile(p, []byte(s), 0644))
	m.files[name] = s
	if oneIn(r, 3) {
		m.files[p] = s
		return p
	}
	return name
}

func (m *edModel) load(name string) {
	m.lines = append([]string(nil), lines([]byte(m.files[name]))...)
	m.cur = len(m.lines)
	m.name = name
}

// an address
type edAddr struct {
	text string
	line int
	ok   bool
	base int // base line, before the offset
}

func (m *edModel) pattern() (string, func(string) bool) {
	r := m.r
	esc := func(s string) (string, []breEl) {
		var sb strings.Builder
		var els []breEl
		rs := []rune(s)
		for i, x := range rs {
			alnum := x >= 'a' && x <= 'z' || x >= '0' && x <= '9' || x == ' ' || x > 127 && x != 0xfffd && x != 0x2028
			e := breEl{min: 1, max: 1, set: []rune{x}}
			switch {
			case x == '/':
				sb.WriteString(`\/`)
			case !alnum || oneIn(r, 8):
				e = breEl{any: true, min: 1, max: 1}
				sb.WriteByte('.')
			case alnum && x < 128 && oneIn(r, 10):
				e.set = []rune{x, 'z'}
				sb.WriteString("[" + string(x) + "z]")
			default:
				sb.WriteRune(x)
			}
			if i+1 < len(rs) && oneIn(r, 10) {
				e.min, e.max = 0, -1
				sb.WriteByte('*')
			}
			els = append(els, e)
		}
		return sb.String(), els
	}
	var s string
	if len(m.lines) > 0 && !oneIn(r, 10) {
		rs := []rune(m.lines[r.IntN(len(m.lines))])
		if m.long > 0 && m.long < 10 && oneIn(r, 3) { // a long line, if there still is one
			for _, l := range m.lines {
				if len(l) > 1000 {
					rs = []rune(l)
					m.c.Count("far_searches", 1)
				}
			}
		}
		if len(rs) > 0 {
			i := r.IntN(len(rs))
			j := i + 1 + r.IntN(min(6, len(rs)-i))
			if len(rs) > 100 && oneIn(r, 2) { // near the end
				j = len(rs) - r.IntN(3)
				i = j - 1 - r.IntN(6)
			} else if oneIn(r, 3) {
				i = 0
				j = 1 + r.IntN(min(6, len(rs)))
			}
			s = string(rs[i:j])
		}
	}
	if s == "" || strings.ContainsAny(s, "\n\r\\\x00") || strings.ContainsRune(s, 0xfffd) {
		s = pick(r, "a", "b", "alpha", "xyz", "nosuchline", "foo", "4", "zz")
	}
	pat, els := esc(s)
	left, right := oneIn(r, 6), oneIn(r, 8)
	if left {
		pat = "^" + pat
	}
	if right {
		pat += "$"
	}
	return pat, func(l string) bool { return breMatch(els, left, right, []rune(l)) }
}

// addr draws an address, evaluated with the given current line. want, if >= 0,
// is a line it should preferably stand for.
func (m *edModel) addr(cur, want int) edAddr {
	r := m.r
	last := len(m.lines)
	var a edAddr
	a.ok = true
	switch k := r.IntN(12); {
	case k < 5:
		n := want
		if n < 0 {
			n = r.IntN(last + 2)
		}
		if oneIn(r, 3) {
			n += r.IntN(5) - 2
		}
		if n < 0 {
			n = 0
		}
		a.text, a.base = strconv.Itoa(n), n
		if oneIn(r, 12) {
			a.text = "0" + a.text
		}
	case k < 7:
		a.text, a.base = ".", cur
	case k < 9:
		a.text, a.base = "$", last
	default:
		pat, f := m.pattern()
		a.text = "/" + pat + "/"
		a.ok = false
		n := cur
		for range m.lines {
			n++
			if n > last {
				n = 1
			}
			if f(m.lines[n-1]) {
				a.base, a.ok = n, true
				break
			}
		}
		m.c.Count("searches", 1)
		if a.ok && n <= cur {
			m.c.Count("wraps", 1)
		}
	}
	a.line = a.base
	if a.ok {
		switch {
		case want >= 0 && a.line != want:
			d := want - a.line
			m.c.Count("offsets", 1)
			switch {
			case d == 1 && oneIn(r, 2):
				a.text += "+"
			case d == -1 && oneIn(r, 2):
				a.text += "-"
			case d > 0:
				a.text += "+" + strconv.Itoa(d)
			default:
				a.text += "-" + strconv.Itoa(-d)
			}
			a.line = want
		case want < 0 && oneIn(r, 4):
			d := r.IntN(5)
			if oneIn(r, 2) {
				a.text += "+" + strconv.Itoa(d)
				a.line += d
			} else {
				a.text += "-" + strconv.Itoa(d)
				a.line -= d
			}
			m.c.Count("offsets", 1)
		}
	}
	return a
}

func (m *edModel) sp() string {
	if oneIn(m.r, 12) {
		return pick(m.r, " ", "  ", "\t")
	}
	return ""
}

// rng draws the addresses of a command that takes a range: the text, and the
// lines, or !ok. min is the lowest valid address; valid asks for a valid one.
func (m *edModel) rng(low int, valid bool) (text string, x, y int, ok bool) {
	r := m.r
	last := len(m.lines)
	if valid && last < low {
		return "", 0, 0, false
	}
	for try := 0; ; try++ {
		sp := m.sp
		switch r.IntN(9) {
		case 0, 1:
			text, x, y, ok = "", m.cur, m.cur, true
		case 2, 3:
			w := -1
			if valid {
				w = low + r.IntN(last-low+1)
			}
			a := m.addr(m.cur, w)
			text, x, y, ok = sp()+a.text+sp(), a.line, a.line, a.ok
		case 4, 5:
			w1, w2 := -1, -1
			if valid {
				w1 = low + r.IntN(last-low+1)
				w2 = w1 + r.IntN(last-w1+1)
			}
			a := m.addr(m.cur, w1)
			b := m.addr(m.cur, w2)
			text, x, y, ok = sp()+a.text+sp()+","+sp()+b.text+sp(), a.line, b.line, a.ok && b.ok
			m.c.Count("ranges", 1)
		case 6:
			w1, w2 := -1, -1
			if valid {
				w1 = low + r.IntN(last-low+1)
				w2 = w1 + r.IntN(last-w1+1)
			}
			a := m.addr(m.cur, w1)
			b := m.addr(clamp(a.line, 0, last), w2)
			text, x, y, ok = a.text+";"+b.text, a.line, b.line, a.ok && b.ok
			m.c.Count("relative_ranges", 1)
		case 7:
			if oneIn(r, 2) {
				text, x, y, ok = ",", 1, last, true
			} else {
				text, x, y, ok = ";", m.cur, last, true
			}
			m.c.Count("default_ranges", 1)
		case 8:
			w := -1
			if valid {
				w = low + r.IntN(last-low+1)
			}
			a := m.addr(m.cur, w)
			switch r.IntN(4) {
			case 0:
				text, x, y = a.text+",", a.line, a.line
			case 1:
				text, x, y = a.text+";", a.line, a.line
			case 2:
				text, x, y = ","+a.text, 1, a.line
			case 3:
				text, x, y = ";"+a.text, m.cur, a.line
			}
			ok = a.ok
			m.c.Count("default_ranges", 1)
		}
		if !ok {
			x, y = -1, -1
		}
		if x < low || y < x || y > last {
			ok = false
		}
		if ok || !valid || try > 50 {
			return
		}
	}
}

// one draws the address of a command that takes one.
func (m *edModel) one(low int, valid bool) (text string, x int, ok bool) {
	r := m.r
	last := len(m.lines)
	if valid && last < low {
		return "", 0, false
	}
	for try := 0; ; try++ {
		if oneIn(r, 4) && m.cur >= low {
			return "", m.cur, true
		}
		w := -1
		if valid {
			w = low + r.IntN(last-low+1)
		}
		a := m.addr(m.cur, w)
		text, x, ok = m.sp()+a.text+m.sp(), a.line, a.ok
		if !ok {
			x = -1
		}
		if x < low || x > last {
			ok = false
		}
		if ok || !valid || try > 50 {
			return
		}
	}
}

func (m *edModel) text() []string {
	var ls []string
	n := pick(m.r, 0, 1, 1, 1, 2, 3, 5)
	if oneIn(m.r, 100) {
		n = 100
		if m.long == 0 && oneIn(m.r, 8) {
			n = 1000 + m.r.IntN(1500)
			m.long = 4
		}
	}
	for i := 0; i < n; i++ {
		ls = append(ls, m.line())
	}
	return ls
}

func (m *edModel) splice(at, del int, ins []string) {
	var out []string
	out = append(out, m.lines[:at]...)
	out = append(out, ins...)
	out = append(out, m.lines[at+del:]...)
	m.lines = out
}

func clamp(x, lo, hi int) int { return max(lo, min(hi, x)) }

// Step makes and executes one command. valid asks for commands that succeed.
func (m *edModel) step(kind string, valid bool) {
	r := m.r
	switch kind {
	case "a", "i":
		t, x, ok := m.one(0, valid)
		txt := m.text()
		ls := append(append([]string{t + kind}, txt...), ".")
		if !ok {
			m.sendBad(ls...)
			return
		}
		m.c.Count("edits", 1)
		m.c.Count("text_lines", len(txt))
		at := x
		if kind == "i" {
			at = max(0, x-1)
		}
		m.splice(at, 0, txt)
		switch {
		case len(txt) > 0:
			m.cur = at + len(txt)
		case kind == "i":
			m.cur = min(max(x, 1), len(m.lines))
		default:
			m.cur = x
		}
		m.send("", ls...)
	case "c":
		t, x, y, ok := m.rng(0, valid)
		if len(m.lines) == 0 || ok && x == 0 && y == 0 && oneIn(r, 2) {
			return // what c does with an empty buffer is left open
		}
		txt := m.text()
		ls := append(append([]string{t + "c"}, txt...), ".")
		if !ok {
			m.sendBad(ls...)
			return
		}
		if x == 0 {
			x = 1
		}
		if y < x {
			y = x
		}
		m.c.Count("edits", 1)
		m.c.Count("text_lines", len(txt))
		m.splice(x-1, y-x+1, txt)
		if len(txt) > 0 {
			m.cur = x - 1 + len(txt)
		} else {
			m.cur = min(x, len(m.lines))
		}
		m.send("", ls...)
	case "d":
		t, x, y, ok := m.rng(1, valid)
		if !ok {
			if valid {
				return
			}
			m.sendBad(t + "d")
			return
		}
		m.c.Count("edits", 1)
		m.splice(x-1, y-x+1, nil)
		m.cur = min(x, len(m.lines))
		m.send("", t+"d"+m.sp())
	case "p", "n":
		t, x, y, ok := m.rng(1, valid)
		if !ok {
			if valid {
				return
			}
			m.sendBad(t + kind)
			return
		}
		if kind == "n" && y-x > 3000 {
			return // takes quadratic time
		}
		m.c.Count("prints", 1)
		m.cur = y
		if kind == "p" {
			m.send(strings.Join(m.lines[x-1:y], "\n"), t+"p"+m.sp())
			return
		}
		var sb strings.Builder
		for i := x; i <= y; i++ {
			sb.WriteString(strconv.Itoa(i) + "\t" + m.lines[i-1] + "\n")
		}
		m.send(sb.String(), t+"n")
	case "null":
		if oneIn(r, 3) {
			if m.cur+1 > len(m.lines) {
				if !valid {
					m.sendBad("")
				}
				return
			}
			m.cur++
			m.c.Count("prints", 1)
			m.send(m.lines[m.cur-1], "")
			return
		}
		t, x, ok := m.one(1, valid)
		if t == "" {
			return
		}
		if !ok {
			if valid {
				return
			}
			m.sendBad(t)
			return
		}
		m.cur = x
		m.c.Count("prints", 1)
		m.send(m.lines[x-1], t)
	case "=":
		if oneIn(r, 3) {
			m.send(strconv.Itoa(len(m.lines)), "=")
			return
		}
		t, x, ok := m.one(0, valid)
		if t == "" {
			t, x, ok = ".", m.cur, true
		}
		if !ok {
			m.sendBad(t + "=")
			return
		}
		m.c.Count("numbers", 1)
		m.send(strconv.Itoa(x), t+"=")
	case "e":
		if m.name != "" && oneIn(r, 4) {
			if _, known := m.files[m.name]; known {
				m.load(m.name)
				m.send("", "e")
				m.c.Count("edit_files", 1)
				return
			}
		}
		f := m.newFile(true)
		m.load(f)
		m.send("", "e"+pick(r, " ", "  ", "\t")+f)
		m.c.Count("edit_files", 1)
	}
}

// matchAnswers matches the output with the expected answers. An error answer
// is a line starting with "?" and up to seven more lines.
func matchAnswers(out string, want []edAns) string {
	// reachable offsets after each answer
	cur := map[int]bool{0: true}
	for i, w := range want {
		next := map[int]bool{}
		for off := range cur {
			if !w.fail {
				if strings.HasPrefix(out[off:], w.text+"\n") {
					next[off+len(w.text)+1] = true
				}
				continue
			}
			if off >= len(out) || out[off] != '?' {
				continue
			}
			p := off
			for k := 0; k < 8; k++ {
				j := strings.IndexByte(out[p:], '\n')
				if j < 0 {
					break
				}
				p += j + 1
				next[p] = true
			}
		}
		if len(next) == 0 {
			far := 0
			for off := range cur {
				far = max(far, off)
			}
			exp := sprintf("%q", clip(w.text, 300))
			if w.fail {
				exp = "an error answer"
			}
			return sprintf("answer %d, to %q, should be %s, but the output goes on with %q", i+1, clip(w.cmd, 100), exp, clip(out[far:], 400))
		}
		cur = next
	}
	if !cur[len(out)] {
		far := 0
		for off := range cur {
			far = max(far, off)
		}
		return sprintf("output beyond the last answer: %q", clip(out[far:], 400))
	}
	return ""
}

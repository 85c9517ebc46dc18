//go:build go1.22

package main

import (
	"math/rand/v2"
	"regexp"
	"strconv"
	"strings"

	"github.com/fwip/posix-utils/pkg/diff"
)

func init() {
	register(&Prop{ID: "C04", Level: "exploration", Quick: 60000, Thorough: 600000,
		Rule:      "pairs of line sequences (equal, related by random line edits, block moves and swaps, over alphabets of 1-1000 lines, unrelated, empty, up to 1500 lines; one in eight over lines that are alike or that checksums do not tell apart; some of up to 32000 lines; some with 20-270 separate changes; with lines that look like script lines, carriage returns, NULs, long lines), through the library and (one case in eight) the command; the produced script is parsed and applied in both directions; non-trivial: at least one side has a line",
		MinEvents: []string{"hunks", "adds", "deletes", "changes", "equal_pairs", "commands", "trouble"},
		Run:       runDiff})
}

var oddLines = []string{"", "---", "< x", "> x", "<", ">", "1a2", "1,2c3,4", "5d4", "\\ No newline at end of file", "\r", "x\r", "\x00", "\xff\xfe", " ", "\t", "%s", "%d%%", ".", "é", "É", "\xe9", "\u00a0", "\ufeff", "0a1", "-", "--", "< ", "> "}

func genLine(r *rand.Rand, alpha int) string {
	switch {
	case oneIn(r, 6):
		return oddLines[r.IntN(len(oddLines))]
	case oneIn(r, 60):
		return strings.Repeat(pick(r, "y", "ab", "\x01"), 1+size(r, 70000))
	}
	return "L" + strconv.Itoa(r.IntN(alpha))
}

// lookalikes are characters that folding, trimming or normalizing makes equal.
var lookalikes = [][]string{
	{"é", "É", "e\u0301", "e", "E"}, {"ü", "Ü", "u", "ue"}, {"ß", "SS", "ss", "ẞ"}, {"ı", "i", "I", "İ"}, {"ø", "Ø", "o"}, {"ñ", "Ñ", "n"},
	{"д", "Д"}, {"ω", "Ω", "\u2126"}, {"σ", "ς", "Σ"}, {"k", "K", "\u212a"}, {"s", "S", "ſ"}, {"а", "a"}, {"Ａ", "A", "a"}, {"１", "1", "¹"},
	{" ", "\t", "\u00a0", "\u2003", "\u3000", "  ", ""}, {"\r", "", "\v", "\f"}, {"\ufeff", ""}, {"\u200b", ""}, {"\x00", ""}, {"\x7f", "\b", ""}, {"\u2028", "\u0085", ""},
	{"\xff", "\xfe", "\ufffd", "\xc3"}, {"\xe9", "é"}, {"\xc0\x80", "\x00"}, {"-", "\u2010", "\u2212"}, {"'", "\u2019", "\"", "\u201c"}, {"ﬁ", "fi"}, {"½", "1/2"}, {"0", "O", "o"}, {"l", "1", "I"},
	{"😀", "😁"}, {"日", "曰"}, {"\\", "/"}, {"\x1b[0m", ""}, {"0", "00", "+0", "-0"}, {"#", ""}, {";", ""}, {"_", "-"},
}

// relative draws a line that is close to another without being equal to it.
func relative(r *rand.Rand, l string) string {
	b := []byte(l)
	at := r.IntN(len(b) + 1)
	if oneIn(r, 2) {
		at = pick(r, 0, len(b), len(b)/2, max(0, len(b)-1))
	}
	switch k := r.IntN(7); {
	case k == 6: // one character for one that some take for the same
		t := lookalikes[r.IntN(len(lookalikes))]
		i, j := r.IntN(len(t)), r.IntN(len(t))
		for k := r.IntN(len(lookalikes)); k > 0 && !strings.Contains(l, t[i]); k-- {
			t = lookalikes[r.IntN(len(lookalikes))]
			i, j = r.IntN(len(t)), r.IntN(len(t))
		}
		if strings.Contains(l, t[i]) {
			b = []byte(strings.Replace(l, t[i], t[j], pick(r, 1, -1)))
		} else {
			b = append(append(append([]byte(nil), b[:at]...), t[i]...), b[at:]...)
		}
	case k == 0 && at < len(b): // one bit
		b[at] ^= 1 << r.IntN(7)
	case k == 1 && at < len(b): // another byte
		b[at] = byte('a' + r.IntN(26))
	case k == 2 && at < len(b): // one byte less
		b = append(b[:at], b[at+1:]...)
	case k == 3 && len(b) > 1: // two bytes swapped
		i, j := r.IntN(len(b)), r.IntN(len(b))
		b[i], b[j] = b[j], b[i]
	case k == 4: // other blanks
		b = append(append(append([]byte(nil), b[:at]...), pick(r, " ", "\t", "  ", "\r", "\x00")...), b[at:]...)
	case k == 5: // the other case
		b = []byte(swapCase(l))
	default:
		b = append(append(append([]byte(nil), b[:at]...), byte('a'+r.IntN(26))), b[at:]...)
	}
	return strings.ReplaceAll(string(b), "\n", "x")
}

func swapCase(s string) string {
	return strings.Map(func(x rune) rune {
		switch {
		case x >= 'a' && x <= 'z':
			return x - 32
		case x >= 'A' && x <= 'Z':
			return x + 32
		}
		return x
	}, s)
}

// genAlike draws sequences over a few long lines that are much alike, or that
// common checksums do not tell apart.
func genAlike(r *rand.Rand) (a, b []string) {
	var set []string
	if oneIn(r, 3) {
		for k := 1 + r.IntN(3); k > 0; k-- {
			t := twins(r)
			set = append(set, t[0], t[1])
		}
	} else {
		base := string(blob(r, size(r, 6000)))
		base = strings.ReplaceAll(base, "\n", "n")
		switch r.IntN(4) {
		case 0:
			base = strings.Repeat("z", size(r, 70000))
		case 1: // of such characters
			base = ""
			for k := 1 + r.IntN(10); k > 0; k-- {
				base += pick(r, "", "x", "ab") + pick(r, lookalikes[r.IntN(len(lookalikes))]...)
			}
		}
		set = []string{base}
		for k := 1 + r.IntN(5); k > 0; k-- {
			set = append(set, relative(r, set[r.IntN(len(set))]))
		}
	}
	mk := func() []string {
		var x []string
		for k := r.IntN(8); k > 0; k-- {
			x = append(x, set[r.IntN(len(set))])
		}
		return x
	}
	a = mk()
	b = mk()
	if oneIn(r, 2) {
		b = append([]string(nil), a...)
		if len(b) > 0 {
			b[r.IntN(len(b))] = set[r.IntN(len(set))]
		}
	}
	return a, b
}

// genLong draws long sequences with few changes, in which most lines are
// different or most are the same.
func genLong(r *rand.Rand) (a, b []string) {
	n := 2000 + r.IntN(pick(r, 8000, 30000))
	if oneIn(r, 3) { // one line, often
		n = 100 + r.IntN(500)
		for i := 0; i < n; i++ {
			a = append(a, "same")
			if oneIn(r, 100) {
				a = append(a, genLine(r, 50))
			}
		}
	} else {
		for i := 0; i < n; i++ {
			a = append(a, strconv.Itoa(i))
		}
	}
	at := []int{0, len(a)}
	for k := r.IntN(6); k > 0; k-- {
		at = append(at, r.IntN(len(a)+1), pick(r, 9, 99, 999, 9999)%len(a)+r.IntN(3))
	}
	b = append([]string(nil), a...)
	for _, i := range at {
		if oneIn(r, 3) || i > len(b) {
			continue
		}
		j := min(len(b), i+r.IntN(3))
		if oneIn(r, 6) {
			j = min(len(b), i+r.IntN(2000))
		}
		var in []string
		for k := r.IntN(pick(r, 2, 3, 12, 300)); k > 0; k-- {
			in = append(in, "new "+strconv.Itoa(r.IntN(1000)))
		}
		b = append(b[:i:i], append(in, b[j:]...)...)
	}
	return a, b
}

// genMany draws sequences with many separate changes: common runs of equal,
// falling, rising or mixed lengths, with something changed between any two.
func genMany(r *rand.Rand) (a, b []string) {
	runs := 20 + r.IntN(pick(r, 60, 120, 250))
	shape := r.IntN(5)
	alpha := pick(r, 3, 40, 1<<30)
	n := 0
	change := func(x []string, k int) []string {
		for ; k > 0; k-- {
			n++
			if alpha < 100 {
				x = append(x, "c"+strconv.Itoa(r.IntN(alpha)))
			} else {
				x = append(x, "c"+strconv.Itoa(n))
			}
		}
		return x
	}
	kind := r.IntN(4) // changes, additions, deletions, any of them
	for i := 0; i < runs; i++ {
		l := 1
		switch shape {
		case 0:
			l = 1 + (runs-i)/40
		case 1:
			l = 1 + i/40
		case 2:
			l = 1 + r.IntN(6)
		case 3:
			l = 3
		}
		for ; l > 0; l-- {
			n++
			s := "r" + strconv.Itoa(n)
			if alpha == 3 && oneIn(r, 4) { // some lines over and over
				s = "r" + strconv.Itoa(r.IntN(5))
			}
			a, b = append(a, s), append(b, s)
		}
		k := kind
		if k == 3 {
			k = r.IntN(3)
		}
		if k != 1 {
			a = change(a, 1+r.IntN(2))
		}
		if k != 2 {
			b = change(b, 1+r.IntN(2))
		}
	}
	return a, b
}

func genPair(r *rand.Rand) (a, b []string) {
	switch {
	case oneIn(r, 80):
		a, b = genMany(r)
		if oneIn(r, 2) {
			a, b = b, a
		}
		return a, b
	case oneIn(r, 8):
		return genAlike(r)
	case oneIn(r, 250):
		a, b = genLong(r)
		if oneIn(r, 2) {
			a, b = b, a
		}
		return a, b
	}
	n := pick(r, 0, 1, 2, 3, 5, 8, 12, 20, 40)
	if oneIn(r, 60) {
		n = 200 + r.IntN(1300)
	}
	if n > 2 {
		n += r.IntN(n)
	}
	alpha := pick(r, 1, 2, 3, 5, 10, 100, 1000)
	if n > 200 && alpha < 100 {
		alpha = 100
	}
	mk := func(n int) []string {
		var x []string
		for i := 0; i < n; i++ {
			x = append(x, genLine(r, alpha))
		}
		return x
	}
	a = mk(n)
	switch r.IntN(8) {
	case 0:
		b = mk(r.IntN(n + 2))
	case 1:
		b = append([]string(nil), a...)
	default:
		b = append([]string(nil), a...)
		for k := 1 + r.IntN(5); k > 0; k-- {
			at := r.IntN(len(b) + 1)
			if oneIn(r, 4) {
				at = pick(r, 0, len(b))
			}
			switch r.IntN(5) {
			case 0:
				b = append(b[:at:at], append(mk(1+r.IntN(3)), b[at:]...)...)
			case 1:
				end := min(len(b), at+1+r.IntN(3))
				b = append(b[:at:at], b[end:]...)
			case 2:
				if at < len(b) {
					b[at] = genLine(r, alpha)
				}
			case 3: // move a block
				if len(b) > 2 {
					i := r.IntN(len(b) - 1)
					j := i + 1 + r.IntN(len(b)-i-1)
					blk := append([]string(nil), b[i:j]...)
					rest := append(b[:i:i], b[j:]...)
					t := r.IntN(len(rest) + 1)
					b = append(rest[:t:t], append(blk, rest[t:]...)...)
				}
			case 4: // double a block
				if len(b) > 0 && len(b) < 2000 {
					i := r.IntN(len(b))
					j := min(len(b), i+1+r.IntN(4))
					b = append(b[:j:j], b[i:]...)
				}
			}
		}
	}
	if oneIn(r, 2) {
		a, b = b, a
	}
	return a, b
}

var hunkHead = regexp.MustCompile(`^([0-9]+)(?:,([0-9]+))?([acd])([0-9]+)(?:,([0-9]+))?$`)

// checkScript parses a normal-format script and checks it against both files;
// it returns a complaint or "", and the number of unchanged lines.
func checkScript(c *Ctx, script string, a, b []string) (string, int) {
	pa, pb := 0, 0 // lines consumed
	same := 0
	var ls []string
	if script != "" {
		ls = strings.Split(script, "\n")
	}
	eqTo := func(ea, eb int) string {
		if ea < pa || eb < pb || ea > len(a) || eb > len(b) {
			return sprintf("hunk out of range or out of order (at old %d, new %d; hunk at old %d, new %d)", pa, pb, ea, eb)
		}
		if ea-pa != eb-pb {
			return sprintf("hunk positions disagree: %d old and %d new lines in between", ea-pa, eb-pb)
		}
		for ; pa < ea; pa, pb = pa+1, pb+1 {
			if a[pa] != b[pb] {
				return sprintf("lines left unchanged differ: old %d %q, new %d %q", pa+1, clip(a[pa], 80), pb+1, clip(b[pb], 80))
			}
			same++
		}
		return ""
	}
	i := 0
	quoted := func(mark string, f []string, from, to int) string {
		for k := from; k <= to; k++ {
			if i >= len(ls) {
				return "script ends inside a hunk"
			}
			if k < 1 || k > len(f) || ls[i] != mark+" "+f[k-1] {
				return sprintf("script line %d is %q, which is not line %d after %q", i+1, clip(ls[i], 80), k, mark)
			}
			i++
		}
		return ""
	}
	for i < len(ls) {
		m := hunkHead.FindStringSubmatch(ls[i])
		if m == nil {
			return sprintf("script line %d is no hunk header: %q", i+1, clip(ls[i], 80)), same
		}
		i++
		l1, _ := strconv.Atoi(m[1])
		l2, r1 := l1, 0
		if m[2] != "" {
			l2, _ = strconv.Atoi(m[2])
		}
		r1, _ = strconv.Atoi(m[4])
		r2 := r1
		if m[5] != "" {
			r2, _ = strconv.Atoi(m[5])
		}
		if l2 < l1 || r2 < r1 || m[3] == "a" && m[2] != "" || m[3] == "d" && m[5] != "" {
			return sprintf("bad ranges %q", m[0]), same
		}
		c.Count("hunks", 1)
		var e string
		switch m[3] {
		case "a":
			c.Count("adds", 1)
			if e = eqTo(l1, r1-1); e == "" {
				e = quoted(">", b, r1, r2)
				pb = r2
			}
		case "d":
			c.Count("deletes", 1)
			if e = eqTo(l1-1, r1); e == "" {
				e = quoted("<", a, l1, l2)
				pa = l2
			}
		case "c":
			c.Count("changes", 1)
			if e = eqTo(l1-1, r1-1); e == "" {
				e = quoted("<", a, l1, l2)
			}
			if e == "" {
				if i >= len(ls) || ls[i] != "---" {
					return "no --- in a change", same
				}
				i++
				e = quoted(">", b, r1, r2)
			}
			pa, pb = l2, r2
		}
		if e != "" {
			return e, same
		}
	}
	return eqTo(len(a), len(b)), same
}

func longestRun(a, b []string) int {
	idx := map[string][]int{}
	for i, l := range a {
		idx[l] = append(idx[l], i)
	}
	best := 0
	if len(a)*len(b) > 1<<20 {
		prev := map[int]int{}
		for _, l := range b {
			cur := map[int]int{}
			for _, i := range idx[l] {
				cur[i+1] = prev[i] + 1
				best = max(best, cur[i+1])
			}
			prev = cur
		}
		return best
	}
	prev := make([]int, len(a)+1)
	for _, l := range b {
		cur := make([]int, len(a)+1)
		for _, i := range idx[l] {
			cur[i+1] = prev[i] + 1
			if cur[i+1] > best {
				best = cur[i+1]
			}
		}
		prev = cur
	}
	return best
}

func runDiff(c *Ctx) {
	r := c.R
	if n := c.longSize(8, 16, 24, 32); n > 0 {
		longDiff(c, n)
		return
	}
	a, b := genPair(r)
	if oneIn(r, 30) { // hardly anything
		least := func() []string {
			return pick(r, nil, []string{""}, []string{"", ""}, []string{"a"}, []string{"a", ""}, []string{"", "a"})
		}
		a, b = least(), least()
	}
	if len(a)+len(b) == 0 {
		c.Trivial()
	}
	c.Key(strings.Join(a, "\n"), strings.Join(b, "\n"), len(a), len(b))
	c.Desc("old %s; new %s", clip(sprintf("%q", a), 600), clip(sprintf("%q", b), 600))
	equal := eqLines(a, b)
	if equal {
		c.Count("equal_pairs", 1)
	}
	a2, b2 := append([]string(nil), a...), append([]string(nil), b...)
	// spare capacity, to catch appends that write into the caller's slices
	ax, bx := append(append([]string(nil), a...), "spare", "spare"), append(append([]string(nil), b...), "spare", "spare")
	var script string
	p, st := Catch(func() { script = diff.Format(diff.Diff(ax[:len(a)], bx[:len(b)])) })
	if p != nil {
		c.Fail("panic: %v\n%s", p, st)
		return
	}
	if !eqLines(ax[:len(a)], a2) || !eqLines(bx[:len(b)], b2) || ax[len(a)] != "spare" || bx[len(b)] != "spare" || ax[len(a)+1] != "spare" || bx[len(b)+1] != "spare" {
		c.Fail("the inputs were modified")
		return
	}
	script = strings.TrimSuffix(script, "\n")
	if equal != (script == "") {
		c.Fail("sequences equal: %v, but the script is %q", equal, clip(script, 300))
		return
	}
	e, same := checkScript(c, script, a, b)
	if e != "" {
		c.Fail("%s; script %q", e, clip(script, 600))
		return
	}
	if lr := longestRun(a, b); same < lr {
		c.Fail("%d lines unchanged, but the longest common run has %d; script %q", same, lr, clip(script, 600))
		return
	}
	if c.Idx%8 != 0 {
		return
	}
	c.Count("commands", 1)
	dir := c.Dir()
	join := func(x []string) []byte {
		s := strings.Join(x, "\n")
		// an empty last line needs its newline
		if len(x) > 0 && (x[len(x)-1] == "" || oneIn(r, 2)) {
			s += "\n"
		}
		return []byte(s)
	}
	na, nb := "a"+name(r), "b"+name(r)
	if strings.ContainsRune(na+nb, '\x00') {
		return
	}
	c.write(na, join(a))
	c.write(nb, join(b))
	if oneIn(r, 10) { // trouble
		bad := pick(r, "missing", ".", "missing/x")
		args := pick(r, []string{na, bad}, []string{bad, na}, []string{bad, bad})
		res := c.Run(Cmd{Name: "diff", Args: args, Dir: dir})
		c.Count("trouble", 1)
		if res.Code <= 1 && !res.Hung {
			c.Fail("diff %q: trouble, but %s", args, res)
		}
		return
	}
	if oneIn(r, 40) { // a file whose size is not known beforehand
		var data []byte
		na, data = procFile(r)
		a = nil
		if len(data) > 0 {
			a = strings.Split(strings.TrimSuffix(string(data), "\n"), "\n")
		}
		equal = eqLines(a, b)
		c.Count("unsized", 1)
	} else if oneIn(r, 12) { // a file against itself
		nb, b = na, a
		equal = true
	}
	res := c.Run(Cmd{Name: "diff", Args: []string{na, nb}, Dir: dir})
	if res.Hung {
		return
	}
	out := string(res.Out)
	if equal {
		if res.Code != 0 || out != "" {
			c.Fail("command on equal files: %s", res)
		}
		return
	}
	if res.Code != 1 {
		c.Fail("command on different files: %s", res)
		return
	}
	if !strings.HasSuffix(out, "\n") {
		c.Fail("command output does not end in a newline: %s", res)
		return
	}
	e, same = checkScript(c, strings.TrimSuffix(out, "\n"), a, b)
	if e != "" {
		c.Fail("command: %s; script %q", e, clip(out, 600))
		return
	}
	if lr := longestRun(a, b); same < lr {
		c.Fail("command: %d lines unchanged, but the longest common run has %d", same, lr)
	}
}

// longDiff compares files with a very long line.
func longDiff(c *Ctx, n int) {
	r := c.R
	l := longText(c, n)
	a := []string{"first", l, "last"}
	b := append([]string(nil), a...)
	what := pick(r, "same", "last byte", "shorter", "gone", "alone")
	switch what {
	case "last byte":
		b[1] = l[:len(l)-1] + "~"
	case "shorter":
		b[1] = l[:len(l)-3]
	case "gone":
		b = []string{"first", "last"}
	case "alone":
		a, b = []string{l}, []string{"first", l}
	}
	c.Key(what, l)
	c.Desc("a line of %d bytes: %s", len(l), what)
	c.write("a", []byte(strings.Join(a, "\n")))
	c.write("b", []byte(strings.Join(b, "\n")+"\n"))
	res := c.Run(Cmd{Name: "diff", Args: []string{"a", "b"}, Dir: c.Dir()})
	if res.Hung {
		return
	}
	want := 1
	if what == "same" {
		want = 0
	}
	if res.Code != want || len(res.Err) != 0 || (len(res.Out) == 0) != (want == 0) {
		c.Fail("a line of %d bytes (%s): %s", len(l), what, res)
		return
	}
	if want == 0 {
		return
	}
	if e, _ := checkScript(c, strings.TrimSuffix(string(res.Out), "\n"), a, b); e != "" {
		c.Fail("a line of %d bytes (%s): %s", len(l), what, clip(e, 600))
	}
}

//go:build go1.22

package main

import (
	"math/rand/v2"
	"os"
	"strconv"
	"strings"

	"github.com/fwip/posix-utils/pkg/tsort"
)

func init() {
	register(&Prop{ID: "C08", Level: "exploration", Quick: 120000, Thorough: 1000000,
		Rule:      "random constraint sets (sparse and dense acyclic graphs, chains, stars, layers, diamonds, duplicates, lone items in every order, one or more cycles of length 2 and up, disconnected parts) over names of any bytes, through the library (asked for the order at the end, twice, and between additions) and (one case in six) the command with varied white space, long words and odd word counts; the output order is checked against every constraint; non-trivial: at least one constraint",
		MinEvents: []string{"acyclic", "cyclic", "constraints", "commands", "odd", "lone", "asked_between"},
		Run:       runTsort})
}

func genNames(r *rand.Rand, n int, cli bool) []string {
	seen := map[string]bool{}
	var out []string
	style := r.IntN(5)
	if style == 3 && n > 30 || style == 4 && n > 20 {
		style = 2
	}
	sep := pick(r, " ", ",", ":", "->", "\x00", "|", "\t", "\n", "/", "", "<", "-", ";", "=", "\x1f")
	if cli {
		sep = pick(r, ",", ":", "->", "|", "/", "", "<", "-", ";", "=")
	}
	for len(out) < n {
		var s string
		switch style {
		case 3: // parts with one separator: joined names do not tell where one ends
			var parts []string
			for k := 1 + r.IntN(3); k > 0; k-- {
				parts = append(parts, pick(r, "a", "b", "a", "b", "c", "aa"))
			}
			s = strings.Join(parts, sep)
		case 4: // names that checksums do not tell apart
			s = twins(r)[r.IntN(2)]
			if cli {
				s = strings.Join(strings.Fields(s), "_")
			}
		case 0:
			s = "n" + strconv.Itoa(len(out))
		case 1:
			s = strconv.Itoa(r.IntN(n * 3))
		case 2:
			alpha := []rune("aAbB-.<>=\"'\\%$*é漢0_/")
			for k := 1 + r.IntN(4); k > 0; k-- {
				s += string(alpha[r.IntN(len(alpha))])
			}
			if !cli && oneIn(r, 20) {
				s = pick(r, "", " ", "a b", "\n", "\x00")
			}
			if oneIn(r, 30) {
				s += "\xff"
			}
		}
		if oneIn(r, 400) {
			s += strings.Repeat("w", 60000+r.IntN(20000))
		}
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// genGraph draws the edges of an acyclic graph over 0..n-1 (in a hidden order).
func genGraph(r *rand.Rand, n int) [][2]int {
	perm := r.Perm(n)
	var e [][2]int
	add := func(i, j int) {
		if i > j {
			i, j = j, i
		}
		if i != j {
			e = append(e, [2]int{perm[i], perm[j]})
		}
	}
	switch r.IntN(6) {
	case 0: // sparse
		for k := r.IntN(n + 1); k > 0; k-- {
			add(r.IntN(n), r.IntN(n))
		}
	case 1: // chain with extra
		for i := 0; i+1 < n; i++ {
			add(i, i+1)
		}
		for k := r.IntN(n + 1); k > 0; k-- {
			add(r.IntN(n), r.IntN(n))
		}
	case 2: // dense
		m := min(n, 12)
		for i := 0; i < m; i++ {
			for j := i + 1; j < m; j++ {
				if !oneIn(r, 3) {
					add(i, j)
				}
			}
		}
	case 3: // layers
		w := 1 + r.IntN(4)
		for i := w; i < n; i++ {
			for k := 1 + r.IntN(2); k > 0; k-- {
				add((i/w-1)*w+r.IntN(w), i)
			}
		}
	case 4: // stars
		for i := 1; i < n; i++ {
			if oneIn(r, 2) {
				add(0, i)
			} else {
				add(i, n-1)
			}
		}
	case 5: // tree
		for i := 1; i < n; i++ {
			add(r.IntN(i), i)
		}
	}
	return e
}

func hasCycle(n int, e [][2]int) bool {
	in := make([]int, n)
	succ := make([][]int, n)
	for _, x := range e {
		in[x[1]]++
		succ[x[0]] = append(succ[x[0]], x[1])
	}
	var q []int
	for i, k := range in {
		if k == 0 {
			q = append(q, i)
		}
	}
	done := 0
	for len(q) > 0 {
		i := q[0]
		q = q[1:]
		done++
		for _, j := range succ[i] {
			if in[j]--; in[j] == 0 {
				q = append(q, j)
			}
		}
	}
	return done < n
}

func checkOrder(out []string, mentioned map[string]bool, e [][2]int, names []string) string {
	pos := map[string]int{}
	for i, s := range out {
		if _, dup := pos[s]; dup {
			return sprintf("%q is output twice", clip(s, 60))
		}
		if !mentioned[s] {
			return sprintf("%q was never mentioned", clip(s, 60))
		}
		pos[s] = i
	}
	for s := range mentioned {
		if _, ok := pos[s]; !ok {
			return sprintf("%q is missing", clip(s, 60))
		}
	}
	for _, x := range e {
		if pos[names[x[0]]] >= pos[names[x[1]]] {
			return sprintf("%q must precede %q", clip(names[x[0]], 60), clip(names[x[1]], 60))
		}
	}
	return ""
}

func runTsort(c *Ctx) {
	r := c.R
	cli := c.Idx%6 == 0
	if n := c.longSize(6, 12, 18, 24); n > 0 {
		longTsort(c, n)
		return
	}
	n := pick(r, 1, 2, 3, 4, 5, 8, 13, 20, 40)
	if oneIn(r, 100) {
		n = 100 + r.IntN(150)
		if oneIn(r, 4) {
			n = 260 + r.IntN(800)
		}
	}
	if c.Idx%10000 == 77 || c.Idx%20000 == 96 { // 96 is a command
		n = 4000 + r.IntN(2000)
		if c.Idx < 20000 {
			n = 9000
		}
	}
	names := genNames(r, n, cli)
	e := genGraph(r, n)
	if oneIn(r, 3) { // close a cycle somewhere (or not: the model decides)
		for k := 1 + r.IntN(2); k > 0; k-- {
			if len(e) > 0 && oneIn(r, 2) {
				x := e[r.IntN(len(e))]
				e = append(e, [2]int{x[1], x[0]})
			} else if i, j := r.IntN(n), r.IntN(n); i != j {
				e = append(e, [2]int{i, j})
			}
		}
	}
	for k := r.IntN(3); k > 0 && len(e) > 0; k-- { // duplicates
		e = append(e, e[r.IntN(len(e))])
	}
	if oneIn(r, 4) { // in the order of their making: a chain stays one
		c.Count("unshuffled", 1)
	} else {
		r.Shuffle(len(e), func(i, j int) { e[i], e[j] = e[j], e[i] })
	}
	// the calls: pairs, lone items, and chains built from consecutive constraints
	var calls [][]int
	for _, x := range e {
		if k := len(calls) - 1; !cli && k >= 0 && len(calls[k]) >= 2 && calls[k][len(calls[k])-1] == x[0] {
			calls[k] = append(calls[k], x[1])
			continue
		}
		calls = append(calls, []int{x[0], x[1]})
	}
	for k := r.IntN(4); k > 0; k-- {
		at := r.IntN(len(calls) + 1)
		it := []int{r.IntN(n)}
		if !cli && oneIn(r, 6) {
			it = nil
		}
		calls = append(calls[:at:at], append([][]int{it}, calls[at:]...)...)
		c.Count("lone", len(it))
	}
	mentioned := map[string]bool{}
	for _, call := range calls {
		for _, i := range call {
			mentioned[names[i]] = true
		}
	}
	cyclic := hasCycle(n, e)
	if cyclic {
		c.Count("cyclic", 1)
	} else {
		c.Count("acyclic", 1)
	}
	c.Count("constraints", len(e))
	if len(e) == 0 {
		c.Trivial()
	}
	c.Key(sprintf("%v", calls), strings.Join(names, " "), cli)
	c.Desc("names %s calls %s cyclic=%v command=%v", clip(sprintf("%q", names), 500), clip(sprintf("%v", calls), 500), cyclic, cli)
	if !cli {
		var s tsort.Sorter
		given := map[string]bool{}
		var sofar [][2]int
		// asked at the end, and at any other time
		ask := func(when string) bool {
			out, err := s.Order()
			if hasCycle(n, sofar) {
				if err == nil || len(out) > 0 {
					c.Fail("%s: the constraints are cyclic, but Order returns %s, %v", when, clip(sprintf("%q", out), 300), err)
					return false
				}
				return true
			}
			if err != nil {
				c.Fail("%s: no cycle, but Order fails: %v", when, err)
				return false
			}
			if e := checkOrder(out, given, sofar, names); e != "" {
				c.Fail("%s: %s; order %s", when, e, clip(sprintf("%q", out), 400))
				return false
			}
			for i := range out {
				out[i] = "overwritten later"
			}
			return true
		}
		again := oneIn(r, 3)
		p, st := Catch(func() {
			for k, call := range calls {
				items := []string{}
				for i, x := range call {
					items = append(items, names[x])
					given[names[x]] = true
					if i > 0 {
						sofar = append(sofar, [2]int{call[i-1], x})
					}
				}
				cp := append([]string(nil), items...)
				s.Add(items)
				if !eqLines(items, cp) {
					c.Fail("Add modified its argument")
				}
				for i := range items {
					items[i] = "overwritten later"
				}
				if again && oneIn(r, 1+len(calls)/3) {
					c.Count("asked_between", 1)
					if !ask(sprintf("after %d of %d additions", k+1, len(calls))) {
						return
					}
				}
			}
			for k := 0; k < 1+r.IntN(2); k++ {
				if !ask(sprintf("at the end, time %d", k+1)) {
					return
				}
			}
		})
		if p != nil {
			c.Fail("panic: %v\n%s", p, st)
		}
		return
	}
	c.Count("commands", 1)
	var sb strings.Builder
	space := func() {
		sb.WriteString(pick(r, " ", "\n", "\t", "  ", " \n", "\n\n", "\t \n"))
	}
	if oneIn(r, 4) {
		space()
	}
	words := 0
	for _, call := range calls {
		w := []int{call[0], call[len(call)-1]}
		for _, i := range w {
			if words > 0 {
				space()
			}
			sb.WriteString(names[i])
			words++
		}
	}
	odd := oneIn(r, 8)
	if odd {
		if words > 0 {
			space()
		}
		sb.WriteString(names[r.IntN(n)])
		words++
		c.Count("odd", 1)
	}
	if words > 0 && oneIn(r, 2) {
		space()
	}
	cmd := Cmd{Name: "tsort"}
	in := []byte(sb.String())
	switch r.IntN(4) {
	case 0:
		cmd.Stdin = in
	case 1:
		cmd.StdinR = c.given(in)
	case 2:
		cmd.Args = []string{"-"}
		cmd.Stdin = in
	case 3:
		f := name(r)
		c.write(f, in)
		cmd.Dir = c.Dir()
		cmd.Args = []string{f}
		if oneIn(r, 3) {
			cmd.Args = []string{cmd.Dir + string(os.PathSeparator) + f}
		}
	}
	res := c.Run(cmd)
	if res.Hung {
		return
	}
	if cyclic || odd {
		if res.Code == 0 || len(res.Out) != 0 || len(res.Err) == 0 {
			c.Fail("cyclic=%v odd=%v, but %s", cyclic, odd, res)
		}
		return
	}
	if res.Code != 0 || len(res.Err) != 0 {
		c.Fail("no cycle, but %s", res)
		return
	}
	o := string(res.Out)
	if o != "" && !strings.HasSuffix(o, "\n") {
		c.Fail("output does not end in a newline: %s", res)
		return
	}
	if e := checkOrder(lines(res.Out), mentioned, e, names); e != "" {
		c.Fail("%s; output %q", e, clip(o, 400))
	}
}

// longTsort sorts a very long word.
func longTsort(c *Ctx, n int) {
	l := strings.ReplaceAll(longText(c, n), " ", "_")
	c.Key(l)
	c.Desc("a word of %d bytes", len(l))
	in := "b " + l + "\n" + l + " c\nb c"
	x := Cmd{Name: "tsort", Stdin: []byte(in)}
	if n > 1<<23 || oneIn(c.R, 2) { // the scanner starts a word again with every piece
		c.write("in", []byte(in))
		x = Cmd{Name: "tsort", Args: []string{"in"}, Dir: c.Dir()}
	}
	res := c.Run(x)
	if !res.Hung && (res.Code != 0 || len(res.Err) != 0 || string(res.Out) != "b\n"+l+"\nc\n") {
		c.Fail("a word of %d bytes: %s", len(l), res)
	}
}

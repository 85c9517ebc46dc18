//go:build go1.22

package main

import (
	"bytes"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/fwip/posix-utils/pkg/diff"
	"github.com/fwip/posix-utils/pkg/ed"
	"github.com/fwip/posix-utils/pkg/flag"
	"github.com/fwip/posix-utils/pkg/locale"
	"github.com/fwip/posix-utils/pkg/regexes"
	"github.com/fwip/posix-utils/pkg/tsort"
	"github.com/fwip/posix-utils/pkg/txt"
)

func init() {
	register(&Prop{ID: "C24", Level: "exploration", Quick: 4000, Thorough: 80000,
		Rule:      "under the race detector, 2-8 goroutines that start together and each run, in their own random order and with yields, the same 4-12 tasks: diffs of shared slices, sorters, piece tables over shared originals, editors on a shared file with their own saves, option parsers over shared arguments, compilation of expressions and matches with shared compiled ones, reading the locale environment, era strings; half of the cases run together first and alone afterwards, half the other way round; every result is compared with the task's result when run alone, and every shared slice with a copy; non-trivial: tasks of at least three kinds",
		MinEvents: []string{"diff", "tsort", "piece", "ed", "flag", "bre_shared", "bre_own", "locale", "era", "parallel_runs", "cold"},
		Setup: func(w *W) {
			setupEd(w)
			os.Setenv("LANG", "en_US.UTF-8")
			os.Setenv("LC_TIME", "C")
			os.Setenv("LC_MONETARY", "x y")
		}, Run: runConc})
}

type task struct {
	kind string
	what string
	run  func(id string) string
}

func runConc(c *Ctx) {
	r := c.R
	dir := c.Dir()
	must(os.Chdir(dir))
	runtime.GOMAXPROCS(pick(r, 1, 2, 4, 8))
	var tasks []task
	var undo []func() string // compares shared slices with copies
	keepS := func(what string, s []string) []string {
		full := append(append(make([]string, 0, len(s)+1), s...), "spare")
		cp := append([]string(nil), full...)
		undo = append(undo, func() string {
			if !eqLines(full, cp) {
				return sprintf("the slice passed to %s was modified: %q, was %q", what, clip(sprintf("%q", full), 300), clip(sprintf("%q", cp), 300))
			}
			return ""
		})
		return full[:len(s)]
	}
	keepB := func(what string, s []byte) []byte {
		full := append(append(make([]byte, 0, len(s)+1), s...), 'S')
		cp := append([]byte(nil), full...)
		undo = append(undo, func() string {
			if !bytes.Equal(full, cp) {
				return sprintf("the slice passed to %s was modified: %q, was %q", what, clip(string(full), 300), clip(string(cp), 300))
			}
			return ""
		})
		return full[:len(s)]
	}
	kinds := map[string]bool{}
	for k := 4 + r.IntN(9); k > 0; k-- {
		kind := pick(r, "diff", "tsort", "piece", "ed", "flag", "bre_shared", "bre_own", "locale", "era")
		kinds[kind] = true
		var f func(id string) string
		what := ""
		switch kind {
		case "diff":
			a, b := genPair(r)
			top := 60
			if oneIn(r, 20) {
				top = 250
				for len(a) < 200 && len(a) > 0 {
					a = append(a, a...)
				}
			}
			a, b = keepS("Diff", a[:min(len(a), top)]), keepS("Diff", b[:min(len(b), top)])
			what = sprintf("diff of %q and %q", a, b)
			f = func(string) string { return diff.Format(diff.Diff(a, b)) }
		case "tsort":
			n := 1 + r.IntN(12)
			if oneIn(r, 20) {
				n = 20 + r.IntN(300)
			}
			names := genNames(r, n, false)
			e := genGraph(r, n)
			var calls [][]string
			mentioned := map[string]bool{}
			for _, x := range e {
				calls = append(calls, keepS("Add", []string{names[x[0]], names[x[1]]}))
				mentioned[names[x[0]]], mentioned[names[x[1]]] = true, true
			}
			cyclic := hasCycle(n, e)
			what = sprintf("tsort of %q", calls)
			f = func(string) string {
				var s tsort.Sorter
				for i, x := range calls {
					s.Add(x)
					if i%4 == 3 {
						runtime.Gosched()
					}
				}
				out, err := s.Order()
				if cyclic {
					return sprintf("error %v, %d items", err != nil, len(out))
				}
				bad := checkOrder(out, mentioned, e, names)
				sort.Strings(out)
				return sprintf("%q %v %s", out, err, bad)
			}
		case "piece":
			orig := keepB("NewPieceTable", blob(r, r.IntN(pick(r, 60, 60, 60, 60, 60, 60, 60, 60, 60, 9000))))
			rd := bytes.NewReader(orig)
			type op struct {
				ins []byte
				del int
				at  int
			}
			var ops []op
			n := len(orig)
			for j := r.IntN(pick(r, 12, 12, 12, 12, 12, 12, 12, 12, 12, 80)); j > 0; j-- {
				if n == 0 || oneIn(r, 2) {
					t := keepB("Insert", blob(r, r.IntN(9)))
					ops = append(ops, op{ins: t, at: r.IntN(n + 1)})
					n += len(t)
				} else {
					at := r.IntN(n)
					d := 1 + r.IntN(min(n-at, 10))
					ops = append(ops, op{del: d, at: at})
					n -= d
				}
			}
			what = sprintf("piece table of %q, %v", orig, ops)
			f = func(string) string {
				pt := txt.NewPieceTable(rd, len(orig))
				for i, o := range ops {
					if o.del > 0 {
						pt.Delete(o.del, o.at)
					} else {
						pt.Insert(o.ins, o.at)
					}
					if i%3 == 2 {
						runtime.Gosched()
					}
				}
				return pt.String()
			}
		case "ed":
			m := &edModel{r: r, c: c, dir: dir, files: map[string]string{}, nfile: k * 100, long: 10}
			m.step("e", true)
			for j := r.IntN(5); j > 0; j-- {
				m.step(pick(r, "a", "d", "p", "i", "=", "c", "n"), !oneIn(r, 4))
			}
			m.send("", "0a", "saved", ".")
			script := strings.Join(m.script, "\n") + "\n"
			what = sprintf("editor script %q", script)
			kk := k
			f = func(id string) string {
				e := ed.NewEditor(nil, nil)
				var b bytes.Buffer
				out := filepath.Join(dir, sprintf("own-%d-%s", kk, id))
				e.ProcessCommands(strings.NewReader(script+"1,$w "+out+"\n"), &b)
				saved, err := os.ReadFile(out)
				if err != nil {
					return "no file"
				}
				return b.String() + "|" + e.String() + "|" + string(saved)
			}
		case "flag":
			args := []string{}
			for j := r.IntN(6); j > 0; j-- {
				args = append(args, pick(r, "-a", "-b", "-ab", "-n5", "-n", "7", "-sx", "-s", "-abn12", "file", "--", "-", "-z", "-n9999999999999999999"))
			}
			args = keepS("Parser", args)
			what = sprintf("options %q", args)
			f = func(string) string {
				var a, b bool
				var n int64
				var s string
				p := flag.Parser{Input: args}
				p.BoolVar(&a, 'a')
				p.BoolVar(&b, 'b')
				p.IntVar(&n, 'n')
				p.StringVar(&s, 's')
				rest, err := p.Parse()
				if err != nil {
					return "error"
				}
				return sprintf("%v %v %d %q %q", a, b, n, s, rest)
			}
		case "bre_shared", "bre_own":
			pat, els, left, right, alpha := genBre(r, c)
			var subj []string
			for j := 0; j < 4; j++ {
				x := string(genSubject(r, els, left, right, alpha))
				if strings.Count(pat, "*")+strings.Count(pat, "{") <= 1 && oneIn(r, 6) { // long ones
					for k := 1 + r.IntN(8); k > 0 && x != "" && len(x) < 3000; k-- {
						x += x + string(genSubject(r, els, left, right, alpha))
					}
				}
				subj = append(subj, x)
			}
			what = clip(sprintf("expression %q on %q", pat, subj), 3000)
			shared, err := regexes.ParseBre(pat)
			if err != nil {
				continue
			}
			own := kind == "bre_own"
			f = func(id string) string {
				b := shared
				if own || id == "alone" { // the shared one is fresh when all start

					var err error
					b, err = regexes.ParseBre(pat)
					if err != nil {
						return "refused"
					}
				}
				var sb strings.Builder
				for _, s := range subj {
					sb.WriteString(sprintf("%v ", b.Matches(s)))
				}
				return sb.String()
			}
		case "locale":
			what = "locale environment"
			f = func(string) string { return locale.FromEnv().String() }
		case "era":
			in := pick(r, "+:1:2000/01/01:+*:AD:%EC %Ey", "-:1:-0001/12/31:-*:BC:%EC %Ey", "+:2:1990/01/02:2019/04/30:Heisei:%EC%Ey", "bad", "+:x:y")
			what = "era " + in
			f = func(string) string {
				e, err := locale.NewEra(in)
				return sprintf("%+v %v", e, err != nil)
			}
		}
		tasks = append(tasks, task{kind, what, f})
		c.Count(kind, 1)
		c.Key(what)
	}
	if len(kinds) < 3 {
		c.Trivial()
	}
	c.Desc("%d tasks: %s", len(tasks), func() (s string) {
		for _, t := range tasks {
			s += t.kind + " "
		}
		return
	}())
	check := func() bool {
		for _, u := range undo {
			if e := u(); e != "" {
				c.Fail("%s", e)
				return false
			}
		}
		return true
	}
	// The tasks run alone first, or together first: what is made when it is
	// needed for the first time is then needed by several at a time.
	cold := oneIn(r, 2)
	want := make([]string, len(tasks))
	alone := func() bool {
		for i, t := range tasks {
			if p, st := Catch(func() { want[i] = t.run("alone") }); p != nil {
				c.Fail("%s panics: %v\n%s", t.what, p, clip(st, 2000))
				return false
			}
		}
		return check()
	}
	if cold {
		c.Count("cold", 1)
	} else if !alone() {
		return
	}
	// together
	g := 2 + r.IntN(7)
	got := make([][]string, g)
	start := make(chan bool)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first string
	inStep := oneIn(r, 2) // all in the same order
	order := r.Perm(len(tasks))
	for k := 0; k < g; k++ {
		wg.Add(1)
		got[k] = make([]string, len(tasks))
		gr := rand.New(rand.NewPCG(r.Uint64(), uint64(k)))
		mine := order
		if !inStep {
			mine = gr.Perm(len(tasks))
		}
		go func(k int) {
			defer wg.Done()
			<-start
			for _, i := range mine {
				p, st := Catch(func() { got[k][i] = tasks[i].run(names8[k]) })
				if p != nil {
					mu.Lock()
					if first == "" {
						first = sprintf("%s: with others: panic %v %s", clip(tasks[i].what, 1500), p, clip(st, 1500))
					}
					mu.Unlock()
				}
				for y := gr.IntN(3); y > 0 && !inStep; y-- {
					runtime.Gosched()
				}
			}
		}(k)
	}
	close(start)
	wg.Wait()
	c.Count("parallel_runs", g*len(tasks))
	if first != "" {
		c.Fail("%s", first)
		return
	}
	if cold && !alone() {
		return
	}
	for k := range got {
		for i, t := range tasks {
			if got[k][i] != want[i] {
				c.Fail("%s: alone %q, with others %q", clip(t.what, 1500), clip(want[i], 800), clip(got[k][i], 800))
				return
			}
		}
	}
	// and alone again: nothing has been left behind
	for i, t := range tasks {
		if again := t.run("again"); again != want[i] {
			c.Fail("%s: first %q, later %q", clip(t.what, 1500), clip(want[i], 800), clip(again, 800))
			return
		}
	}
	check()
}

var names8 = []string{"g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8"}

//go:build go1.22

package main

import (
	"bytes"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/fwip/posix-utils/pkg/diff"
	"github.com/fwip/posix-utils/pkg/ed"
	"github.com/fwip/posix-utils/pkg/flag"
	"github.com/fwip/posix-utils/pkg/locale"
	"github.com/fwip/posix-utils/pkg/regexes"
	"github.com/fwip/posix-utils/pkg/tsort"
	"github.com/fwip/posix-utils/pkg/txt"
)

func init() {
	register(&Prop{ID: "C26", Level: "exploration", Quick: 6000, Thorough: 100000,
		Rule:      "commands: cat, cksum and head with 20-300 operands, and ed with 20-300 e and w commands (of which some fail), in processes that may have 12 files open, output compared with the model; library: editing sessions to the end of their input, piece tables over files that are closed, diffs, sorts, option parsing, matching, eras and tokenisers run to the end, in a process that does not collect garbage meanwhile, whose open descriptors and goroutines are listed before and after; non-trivial: every case",
		MinEvents: []string{"operands", "sessions", "edit_files", "saves", "failures", "tables", "descriptors", "goroutines", "other"},
		Setup:     setupEd, Run: runLeak})
	helpers["nofile"] = func(args []string) {
		n, _ := strconv.ParseUint(args[0], 10, 64)
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: n, Max: n}))
		must(syscall.Exec(args[1], append([]string{filepath.Base(args[1])}, args[2:]...), os.Environ()))
	}
}

func openFds() map[string]string {
	out := map[string]string{}
	d, _ := os.ReadDir("/proc/self/fd")
	for _, e := range d {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || strings.HasPrefix(l, "/proc/") {
			continue // the listing's own
		}
		out[e.Name()] = l
	}
	return out
}

// leakScript gives a script that opens many files, and its answers.
func leakScript(r *rand.Rand, c *Ctx, dir string, n int) (script string, want []edAns, files map[string]string) {
	files = map[string]string{}
	var names []string
	for k := 0; k < 3; k++ {
		nm := "f" + strconv.Itoa(k)
		t := ""
		for j := 1 + r.IntN(4); j > 0; j-- {
			t += sprintf("text %d\n", r.IntN(100))
		}
		if oneIn(r, 8) {
			t = ""
		} else if oneIn(r, 20) {
			t = strings.Repeat("long text\n", 1000)
		}
		must(os.WriteFile(filepath.Join(dir, nm), []byte(t), 0644))
		files[nm] = t
		names = append(names, nm)
	}
	must(os.Mkdir(filepath.Join(dir, "d"), 0755))
	var buf, cur string
	var sb strings.Builder
	say := func(cmd, ans string) {
		sb.WriteString(cmd + "\n")
		want = append(want, edAns{text: ans, fail: ans == "?", cmd: cmd})
	}
	edit := func() {
		cur = names[r.IntN(3)]
		buf = files[cur]
		say("e "+cur, "")
		c.Count("edit_files", 1)
	}
	edit()
	for k := 0; k < n; k++ {
		switch r.IntN(8) {
		case 0, 1, 2:
			edit()
		case 3:
			say(pick(r, "e nosuch", "e d", "e d/x/y", "e f0/x"), "?")
			c.Count("failures", 1)
		case 4:
			say("w", "")
			files[cur] = buf
			c.Count("saves", 1)
		case 5:
			nm := names[r.IntN(3)]
			say("w "+nm, "")
			files[nm] = buf
			c.Count("saves", 1)
		case 6:
			say(pick(r, "w d", "w d/x/y", "w f0/x", "99999p", "zz"), "?")
			c.Count("failures", 1)
		case 7:
			t := sprintf("more %d", r.IntN(100))
			say("$a\n"+t+"\n.", "")
			buf += t + "\n"
		}
	}
	return sb.String(), want, files
}

func (c *Ctx) limited(dir, util string, args []string, stdin []byte) Res {
	a := append([]string{"-helper", "nofile", "12", filepath.Join(c.Bin, util)}, args...)
	return c.Run(Cmd{Bin: c.Self, Name: c.Self, Args: a, Dir: dir, Stdin: stdin})
}

func runLeak(c *Ctx) {
	switch {
	case c.Idx%12 < 3:
		leakOperands(c, []string{"cat", "cksum", "head"}[c.Idx%3])
	case c.Idx%12 == 3:
		leakEdCommand(c)
	default:
		leakLibrary(c)
	}
}

func leakOperands(c *Ctx, util string) {
	r := c.R
	dir := c.Dir()
	var names []string
	data := map[string]string{}
	for k := 0; k < 1+r.IntN(5); k++ {
		nm := "f" + strconv.Itoa(k)
		d := strings.Repeat("x", r.IntN(20)) + "\n"
		switch r.IntN(8) {
		case 0, 1:
			d = ""
		case 2:
			d = strings.Repeat("line of text\n", pick(r, 2, 10, 11, 300, 3000))
		case 3:
			d = "a\nb\nno newline"
			if util == "head" {
				d = "a\nb\n"
			}
		}
		c.write(nm, []byte(d))
		names = append(names, nm)
		data[nm] = d
	}
	switch r.IntN(6) {
	case 0:
		must(os.Symlink("f0", filepath.Join(dir, "link")))
		names, data["link"] = append(names, "link"), data["f0"]
	case 1:
		names, data["-"] = append(names, "-"), ""
		if util == "head" { // its heading is not judged here
			names = names[:len(names)-1]
		}
	case 2:
		names, data["/dev/null"] = append(names, "/dev/null"), ""
	}
	n := 20 + r.IntN(50)
	if oneIn(r, 5) {
		n = 100 + r.IntN(200)
	}
	var args []string
	var want strings.Builder
	for k := 0; k < n; k++ {
		nm := names[r.IntN(len(names))]
		args = append(args, nm)
		switch util {
		case "cat":
			want.WriteString(data[nm])
		case "head":
			if k > 0 {
				want.WriteString("\n")
			}
			d := data[nm]
			if l := strings.SplitAfter(d, "\n"); len(l) > 10 {
				d = strings.Join(l[:10], "")
			}
			want.WriteString("==> " + nm + " <==\n" + d)
		}
	}
	c.Desc("%s of %d operands, 12 files may be open", util, n)
	c.Key(util, args, sprintf("%v", data))
	res := c.limited(dir, util, args, nil)
	if res.Hung {
		return
	}
	c.Count("operands", n)
	if res.Code != 0 {
		c.Fail("%s of %d operands with at most 12 open files: %s", util, n, res)
		return
	}
	if util == "cksum" {
		if got := bytes.Count(res.Out, []byte("\n")); got != n {
			c.Fail("cksum of %d operands with at most 12 open files: %d lines", n, got)
		}
		return
	}
	if string(res.Out) != want.String() {
		c.Fail("%s of %d operands with at most 12 open files: %s", util, n, show(res.Out, []byte(want.String())))
	}
}

func leakEdCommand(c *Ctx) {
	r := c.R
	dir := c.Dir()
	script, want, files := leakScript(r, c, dir, 20+r.IntN(280))
	c.Desc("ed, %d commands, 12 files may be open", len(want))
	c.Key(script)
	res := c.limited(dir, "ed", nil, []byte(script))
	if res.Hung {
		return
	}
	c.Count("sessions", 1)
	if res.Code != 0 {
		c.Fail("ed with at most 12 open files: exit %d, signal %d, script %s", res.Code, res.Sig, clip(sprintf("%q", script), 2000))
		return
	}
	if e := matchAnswers(string(res.Out), want); e != "" {
		c.Fail("ed with at most 12 open files: %s; script %s, output %s", e, clip(sprintf("%q", script), 1500), clip(sprintf("%q", res.Out), 1500))
		return
	}
	for n, w := range files {
		if b, _ := os.ReadFile(filepath.Join(dir, n)); string(b) != w {
			c.Fail("ed with at most 12 open files: %s holds %s", n, show(b, []byte(w)))
		}
	}
}

func leakLibrary(c *Ctx) {
	r := c.R
	dir := c.Dir()
	must(os.Chdir(dir))
	defer os.Chdir("/")
	// finalisers must not do the work
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	settled := func() int { return runtime.NumGoroutine() }
	type op struct {
		name string
		f    func()
	}
	var ops []op
	for k := 1 + r.IntN(4); k > 0; k-- {
		switch r.IntN(8) {
		case 0, 1, 2:
			sub := filepath.Join(dir, "s"+strconv.Itoa(k))
			must(os.Mkdir(sub, 0755))
			script, _, _ := leakScript(r, c, sub, 1+r.IntN(12))
			script = strings.NewReplacer("e ", "e "+sub+"/", "w ", "w "+sub+"/").Replace(script)
			if oneIn(r, 3) {
				script = strings.TrimSuffix(script, "\n")
			}
			if oneIn(r, 4) { // ends inside the text of a command
				script += "\n1a\nno period\n"
			}
			ops = append(ops, op{sprintf("editing session %q", clip(script, 600)), func() {
				e := ed.NewEditor(nil, nil)
				var b bytes.Buffer
				e.ProcessCommands(strings.NewReader(script), &b)
				c.Count("sessions", 1)
			}})
		case 3:
			nm := filepath.Join(dir, "t"+strconv.Itoa(k))
			d := blob(r, 1+r.IntN(100))
			must(os.WriteFile(nm, d, 0644))
			at, ins := r.IntN(len(d)), blob(r, r.IntN(9))
			ops = append(ops, op{"piece table over a file, closed", func() {
				f, err := os.Open(nm)
				must(err)
				pt := txt.NewPieceTable(f, len(d))
				pt.Insert(ins, at)
				pt.Delete(1, at)
				_ = pt.String()
				pt.Close()
				c.Count("tables", 1)
			}})
		case 4:
			a, b := lines(blob(r, r.IntN(200))), lines(blob(r, r.IntN(200)))
			ops = append(ops, op{"diff", func() { _ = diff.Format(diff.Diff(a, b)); c.Count("other", 1) }})
		case 5:
			n := 2 + r.IntN(6)
			g := genGraph(r, n)
			ops = append(ops, op{"sort", func() {
				var s tsort.Sorter
				for _, e := range g {
					s.Add([]string{strconv.Itoa(e[0]), strconv.Itoa(e[1])})
				}
				s.Order()
				c.Count("other", 1)
			}})
		case 6:
			pat := pick(r, "a*b", "[ab]c$", "^x.y", "a{2,3}", "")
			ops = append(ops, op{"options, expressions and eras", func() {
				var v bool
				p := flag.Parser{Input: []string{"-a", "x", "-b"}}
				p.BoolVar(&v, 'a')
				p.Parse()
				if b, err := regexes.ParseBre(pat); err == nil {
					b.Matches("xaab")
				}
				locale.NewEra("+:1:2000/01/01:+*:AD:%EC %Ey")
				locale.NewEra("bad")
				_ = locale.FromEnv().String()
				c.Count("other", 1)
			}})
		case 7:
			src, _ := genDef(r).render(r, oneIn(r, 2))
			ops = append(ops, op{"tokenising", func() {
				l := locale.NewLexer(src)
				for {
					if _, done := l.NextToken(); done {
						break
					}
				}
				c.Count("other", 1)
			}})
		}
	}
	var what []string
	for _, o := range ops {
		what = append(what, o.name)
	}
	c.Desc("%s", clip(strings.Join(what, "; "), 1200))
	c.Key(what)
	fds := openFds()
	gs := settled()
	for k := 1 + r.IntN(4); k > 0; k-- {
		for _, i := range r.Perm(len(ops)) {
			p, st := Catch(ops[i].f)
			if p != nil {
				c.Fail("%s panics: %v\n%s", ops[i].name, p, clip(st, 1500))
				return
			}
		}
	}
	var leak string
	for end := time.Now().Add(10 * time.Second); ; time.Sleep(time.Millisecond) {
		leak = ""
		for n, l := range openFds() {
			if _, ok := fds[n]; !ok {
				leak += sprintf("descriptor %s (%s) still open; ", n, l)
			}
		}
		if g := runtime.NumGoroutine(); g > gs {
			leak += sprintf("%d goroutines more than before; ", g-gs)
		}
		if leak == "" || time.Now().After(end) {
			break
		}
	}
	c.Count("descriptors", len(fds))
	c.Count("goroutines", gs)
	if leak != "" {
		b := make([]byte, 1<<16)
		b = b[:runtime.Stack(b, true)]
		c.Fail("%s after %s\n%s", leak, clip(strings.Join(what, "; "), 1500), clip(string(b), 2500))
	}
}

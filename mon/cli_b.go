//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Prop{ID: "C07", Level: "exploration", Quick: 40000, Thorough: 400000,
		Rule:      "0-4 arguments drawn from operators, look-alikes, integers and the names of 16 fixtures (regular, empty, directory, links good and dangling, fifo, socket, setuid, setgid, device, missing); oracle: the POSIX argument-count algorithm over lstat/stat; non-trivial: at least one argument",
		MinEvents: []string{"true", "false", "error", "files", "ints"},
		Setup:     setupTest, Run: runTest})
	register(&Prop{ID: "C21", Level: "fault_enumeration", Quick: 8160, Thorough: 80000,
		Rule:      "utility x kind of unreadable input (missing, directory, no permission, dangling link, link loop, not a directory, name too long, read error at once, read error of several kinds at the first to the fortieth read by system-call injection, including the one that would report the end; standard input a directory or not open for reading) x position among good operands; and the same with only good operands; non-trivial: every case",
		MinEvents: []string{"missing", "directory", "loop", "dangling", "eio", "good", "injected", "stdin", "stdin_dir", "stdin_wo"},
		Run:       runBadInput})
	register(&Prop{ID: "C22", Level: "fault_enumeration", Quick: 4200, Thorough: 60000,
		Rule:      "utility x output failure (device full, file-size limit at a drawn offset, reader gone, reader gone part way) x workload with non-empty output; non-trivial: the failure was reached",
		MinEvents: []string{"full", "limit", "closed", "partway", "reached"},
		Run:       runBadOutput})
	register(&Prop{ID: "C23", Level: "exploration", Quick: 12000, Thorough: 100000,
		Rule:      "the eight read-only utilities with random argument lists over a tree of files, links and directories, snapshot of names, types, modes, sizes, contents and modification times before and after, and system-call traces of a sample; non-trivial: the run read a file or failed",
		MinEvents: []string{"entries", "traced", "long_input"},
		Run:       runReadOnly})
}

// ---- C07 test

var testNames []string

func setupTest(w *W) {
	d := filepath.Join(w.Scratch, "fix")
	must(os.Mkdir(d, 0755))
	must(os.WriteFile(filepath.Join(d, "reg"), []byte("x"), 0644))
	must(os.WriteFile(filepath.Join(d, "empty"), nil, 0644))
	must(os.WriteFile(filepath.Join(d, "noperm"), []byte("x"), 0000))
	must(os.Mkdir(filepath.Join(d, "dir"), 0755))
	must(os.Symlink("reg", filepath.Join(d, "lreg")))
	must(os.Symlink("dir", filepath.Join(d, "ldir")))
	must(os.Symlink("empty", filepath.Join(d, "lempty")))
	must(os.Symlink("nowhere", filepath.Join(d, "dangling")))
	must(os.Symlink("selfloop", filepath.Join(d, "selfloop")))
	must(os.Symlink("lreg", filepath.Join(d, "llreg")))
	must(syscall.Mkfifo(filepath.Join(d, "fifo"), 0644))
	fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
	must(err)
	cwd, _ := os.Getwd()
	must(os.Chdir(d))
	must(syscall.Bind(fd, &syscall.SockaddrUnix{Name: "sock"}))
	must(os.Chdir(cwd))
	for n, m := range map[string]os.FileMode{"suid": 0755 | os.ModeSetuid, "sgid": 0755 | os.ModeSetgid, "sugid": 0755 | os.ModeSetuid | os.ModeSetgid, "sticky": 0755 | os.ModeSticky} {
		must(os.WriteFile(filepath.Join(d, n), []byte("y"), 0755))
		must(os.Chmod(filepath.Join(d, n), m))
	}
	must(os.Mkdir(filepath.Join(d, "sgdir"), 0755))
	must(os.Chmod(filepath.Join(d, "sgdir"), 0755|os.ModeSetgid))
	must(os.WriteFile(filepath.Join(d, "-f"), []byte("y"), 0644))
	must(os.WriteFile(filepath.Join(d, "!"), nil, 0644))
	must(os.WriteFile(filepath.Join(d, "="), []byte("zz"), 0644))
	testNames = []string{"reg", "empty", "noperm", "dir", "lreg", "ldir", "lempty", "dangling", "selfloop", "llreg", "fifo", "sock", "suid", "sgid", "sugid", "sticky", "sgdir", "missing", "/dev/null", "/dev/zero", "reg/x", "dir/", "dir/.", ".", "", "/", "-f", "!", "="}
}

const (
	tFalse = iota
	tTrue
	tErr
	tUnknown
)

func b2t(b bool) int {
	if b {
		return tTrue
	}
	return tFalse
}

func not(t int) int {
	switch t {
	case tFalse:
		return tTrue
	case tTrue:
		return tFalse
	}
	return t
}

var plainInt = regexp.MustCompile(`^[-+]?[0-9]{1,18}$`)
var surelyNotInt = regexp.MustCompile(`^$|[^-+0-9 \t\n\v\f\r_]|^[-+]*$|.[-+]`)

func testUnary(c *Ctx, dir, op, s string) int {
	switch op {
	case "-n":
		return b2t(s != "")
	case "-z":
		return b2t(s == "")
	}
	p := s
	if s != "" && s[0] != '/' {
		p = dir + "/" + s
	}
	var st, lst syscall.Stat_t
	e1, e2 := syscall.Stat(p, &st), syscall.Lstat(p, &lst)
	if s == "" {
		e1, e2 = syscall.ENOENT, syscall.ENOENT
	}
	typ := func(m uint32) int { return b2t(e1 == nil && st.Mode&syscall.S_IFMT == m) }
	switch op {
	case "-c":
		return typ(syscall.S_IFCHR)
	case "-d":
		return typ(syscall.S_IFDIR)
	case "-f":
		return typ(syscall.S_IFREG)
	case "-p":
		return typ(syscall.S_IFIFO)
	case "-S":
		return typ(syscall.S_IFSOCK)
	case "-e":
		return b2t(e1 == nil)
	case "-g":
		return b2t(e1 == nil && st.Mode&syscall.S_ISGID != 0)
	case "-u":
		return b2t(e1 == nil && st.Mode&syscall.S_ISUID != 0)
	case "-s":
		return b2t(e1 == nil && st.Size > 0)
	case "-h", "-L":
		return b2t(e2 == nil && lst.Mode&syscall.S_IFMT == syscall.S_IFLNK)
	}
	return -1
}

func testBinary(a, op, b string) int {
	switch op {
	case "=":
		return b2t(a == b)
	case "!=":
		return b2t(a != b)
	case "-eq", "-ne", "-gt", "-ge", "-lt", "-le":
	default:
		return -1
	}
	for _, s := range []string{a, b} {
		if surelyNotInt.MatchString(s) {
			return tErr
		}
		if !plainInt.MatchString(s) {
			return tUnknown
		}
	}
	x, _ := strconv.ParseInt(a, 10, 64)
	y, _ := strconv.ParseInt(b, 10, 64)
	switch op {
	case "-eq":
		return b2t(x == y)
	case "-ne":
		return b2t(x != y)
	case "-gt":
		return b2t(x > y)
	case "-ge":
		return b2t(x >= y)
	case "-lt":
		return b2t(x < y)
	}
	return b2t(x <= y)
}

// unspecified operators: not implemented here, or left open by POSIX
var looseUnary = map[string]bool{"-a": true, "-b": true, "-r": true, "-w": true, "-x": true, "-t": true, "(": true}

func testModel(c *Ctx, dir string, a []string) int {
	switch len(a) {
	case 0:
		return tFalse
	case 1:
		return b2t(a[0] != "")
	case 2:
		if a[0] == "!" {
			return not(testModel(c, dir, a[1:]))
		}
		if looseUnary[a[0]] {
			return tUnknown
		}
		if t := testUnary(c, dir, a[0], a[1]); t >= 0 {
			return t
		}
		return tErr
	case 3:
		if a[1] == "-a" || a[1] == "-o" || a[1] == "<" || a[1] == ">" || a[1] == "-nt" || a[1] == "-ot" || a[1] == "-ef" {
			return tUnknown
		}
		if t := testBinary(a[0], a[1], a[2]); t >= 0 {
			return t
		}
		if a[0] == "!" {
			return not(testModel(c, dir, a[1:]))
		}
		if a[0] == "(" {
			return tUnknown
		}
		return tErr
	case 4:
		if a[0] == "!" {
			return not(testModel(c, dir, a[1:]))
		}
		if a[0] == "(" || a[1] == "-a" || a[1] == "-o" || a[2] == "-a" || a[2] == "-o" {
			return tUnknown
		}
		return tErr
	}
	return tUnknown
}

// testKnown tells how the recorded defects (known_findings.jsonl) show on these
// arguments: the defect's key, and the wrong result it has.
func testKnown(c *Ctx, dir string, a []string) (key string, res int) {
	if len(a) < 2 {
		return "", testModel(c, dir, a)
	}
	switch {
	case a[0] == "!":
		key, res = testKnown(c, dir, a[1:])
		if len(a) == 3 && testBinary("1", a[1], "1") >= 0 {
			key = "bang-operand"
		}
		return key, not(res)
	case a[0] == "":
		return "empty-first-operand", tFalse
	case len(a[0]) == 2 && a[0][0] == '-':
		if t := testUnary(c, dir, a[0], a[1]); t >= 0 {
			return "unary-operator-first", t
		}
		switch a[0][1] {
		case 'r', 't', 'w', 'x':
			return "unary-operator-first", tErr
		case 'a':
			return "unary-operator-first", tUnknown
		}
	}
	return "", testModel(c, dir, a)
}

func runTest(c *Ctx) {
	r := c.R
	dir := filepath.Join(c.Scratch, "fix")
	unary := []string{"-c", "-d", "-e", "-f", "-g", "-h", "-L", "-n", "-p", "-S", "-s", "-u", "-z"}
	binary := []string{"=", "!=", "-eq", "-ne", "-gt", "-ge", "-lt", "-le"}
	ints := []string{"0", "1", "-1", "+1", "007", "-0", "10", "9", "2147483648", "-2147483649", "4294967296", "999999999999999999", "-999999999999999999"}
	notInts := []string{"", "a", "1x", "x1", "1.0", "1-", "--1", "0x1", "1e3", "+", "-", "+-1"}
	strs := []string{"", "a", "b", "aa", "A", " ", "\n", "!", "=", "!=", "-f", "-n", "-z", "-eq", "--", "-", "é", "\xff", "-ff", "-e", "-qq", "-Z", "==", "a b", "\\", "*"}
	word := func() string {
		switch r.IntN(6) {
		case 0:
			return unary[r.IntN(len(unary))]
		case 1:
			return binary[r.IntN(len(binary))]
		case 2:
			if oneIn(r, 2) {
				return strconv.Itoa(r.IntN(21) - 10)
			}
			return ints[r.IntN(len(ints))]
		case 3:
			return testNames[r.IntN(len(testNames))]
		case 4:
			if oneIn(r, 3) {
				return notInts[r.IntN(len(notInts))]
			}
			return "!"
		}
		return strs[r.IntN(len(strs))]
	}
	intOp := func() string {
		if oneIn(r, 8) {
			return notInts[r.IntN(len(notInts))]
		}
		if oneIn(r, 2) {
			return strconv.Itoa(r.IntN(7) - 3)
		}
		return ints[r.IntN(len(ints))]
	}
	var args []string
	// exhaustive part: every unary operator on every fixture
	if k := c.Idx; k < len(unary)*len(testNames) {
		args = []string{unary[k%len(unary)], testNames[k/len(unary)]}
	} else {
		switch r.IntN(8) {
		case 0:
			args = []string{unary[r.IntN(len(unary))], testNames[r.IntN(len(testNames))]}
		case 1:
			args = []string{intOp(), binary[2+r.IntN(6)], intOp()}
		case 2:
			a := word()
			b := word()
			if oneIn(r, 2) {
				b = a
			}
			args = []string{a, binary[r.IntN(2)], b}
		default:
			for n := r.IntN(5); n > 0; n-- {
				args = append(args, word())
			}
		}
		for oneIn(r, 3) && len(args) < 4 {
			args = append([]string{"!"}, args...)
		}
	}
	want := testModel(c, dir, args)
	c.Desc("test %q, expect %d", args, want)
	c.Key(args)
	if want == tUnknown {
		c.Count("unspecified", 1)
		c.Trivial()
		return
	}
	if len(args) == 0 {
		c.Trivial()
	}
	c.Count([]string{"false", "true", "error"}[want], 1)
	for _, a := range args {
		if len(a) == 2 && a[0] == '-' && strings.Contains("cdefghLpSsu", a[1:]) {
			c.Count("files", 1)
		}
		if len(a) == 3 && a[0] == '-' {
			c.Count("ints", 1)
		}
	}
	res := c.Run(Cmd{Name: "test", Args: args, Dir: dir})
	if res.Hung {
		return
	}
	code := []int{1, 0, 2}[want]
	if res.Code != code {
		if key, w := testKnown(c, dir, args); key != "" && (w == tUnknown || res.Code == []int{1, 0, 2}[w]) {
			c.Count("known_"+key, 1)
			c.FailKey(key, "test %q: exit status %d, want %d", args, res.Code, code)
			return
		}
		c.Fail("test %q: exit status %d, want %d (%s)", args, res.Code, code, res)
	}
	if len(res.Out) != 0 {
		c.Fail("test %q writes on standard output: %q", args, res.Out)
	}
	if want != tErr && len(res.Err) != 0 {
		c.Fail("test %q writes on standard error: %q", args, res.Err)
	}
}

// ---- C21 unreadable inputs

var straceOK = func() bool {
	_, err := os.Stat("/usr/bin/strace")
	return err == nil
}()

func runBadInput(c *Ctx) {
	r := c.R
	dir := c.Dir()
	util := []string{"cat", "cksum", "cmp", "diff", "head", "tsort"}[c.Idx%6]
	good := func(i int) string {
		n := fmt.Sprintf("good%d", i)
		b := []byte(strings.Repeat("w1 w2\nw2 w3\n", 1+r.IntN(3)))
		if util != "tsort" && oneIn(r, 2) {
			b = blob(r, size(r, 20000))
		}
		c.write(n, b)
		return n
	}
	kinds := []string{"missing", "directory", "injected", "noperm", "dangling", "loop", "injected", "notdir", "toolong", "eio", "injected", "good", "stdin_dir", "injected", "good", "emptyname", "stdin_wo"}
	kind := kinds[(c.Idx/6)%len(kinds)]
	bad := "bad"
	inject, viaStdin := false, false
	p := filepath.Join(dir, "bad")
	switch kind {
	case "directory":
		must(os.Mkdir(p, 0755))
		if oneIn(r, 2) {
			for _, n := range []string{"x", "good0", "bad", "-"} { // names like those of the other operands
				must(os.WriteFile(filepath.Join(p, n), []byte("w1 w2\n"), 0644))
			}
		}
	case "noperm":
		if os.Getuid() == 0 {
			kind = "missing"
			break
		}
		must(os.WriteFile(p, []byte("secret stuff\n"), 0000))
	case "dangling":
		must(os.Symlink("nowhere", p))
	case "loop":
		must(os.Symlink("bad", p))
	case "notdir":
		must(os.WriteFile(p, []byte("x"), 0644))
		bad = "bad/x"
	case "toolong":
		bad = strings.Repeat("n", 300)
	case "eio":
		bad = "/proc/self/mem"
	case "emptyname":
		bad = ""
		if util == "cmp" || util == "diff" { // an empty operand is a usage error there
			bad = "/proc/self/nothing"
		}
	case "injected":
		if !straceOK {
			kind = "missing"
			break
		}
		inject = true
		n := pick(r, 1, 2, 100, 100, 1024, 3000, 8192, 20000, 40000)
		if util == "diff" {
			n = min(n, 8192)
		} else if oneIn(r, 12) {
			n = 200000
		}
		if n > 4 {
			n += r.IntN(n / 4)
		}
		var big []byte
		if util == "tsort" {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&sb, "a%d a%d\n", i%7, 7+i%900)
			}
			big = []byte(sb.String())
		} else {
			// short lines, so that head reads on to the end; some of a length
			// such that whole lines fill a buffer
			big = bytes.Repeat([]byte(pick(r, "some line of text that is long enough\n", "0123456789abcde\n", "0123456789abcdef0123456789abcde\n", "1234567\n", pick(r, "1234567\n", "\n"))), n)
			if util == "diff" && len(big) <= 2*n && n > 500 {
				big = bytes.Repeat([]byte("1234567\n"), n)
			}
			if util == "diff" { // it takes its time on repeated lines
				for i := 0; i < len(big); i++ {
					if big[i] == '\n' && i > 6 {
						copy(big[i-6:], sprintf("%06d", i/7))
					}
				}
			}
			if oneIn(r, 3) {
				big = append(big, "no newline"...)
			}
			if oneIn(r, 6) && util != "head" && util != "diff" {
				big = blob(r, len(big)+1)
			}
		}
		c.write("bad", big)
		viaStdin = oneIn(r, 4)
	case "stdin_dir":
		must(os.Mkdir(p, 0755))
		viaStdin = true
	case "stdin_wo":
		c.write("bad", []byte("w1 w2\nw2 w3\n"))
		viaStdin = true
	case "good":
		bad = good(99)
	}
	if viaStdin {
		bad = "-"
	}
	var args []string
	pos := 0
	switch util {
	case "cat", "cksum", "head":
		n := 1 + r.IntN(4)
		pos = r.IntN(n)
		for i := 0; i < n; i++ {
			if i == pos {
				args = append(args, bad)
			} else {
				args = append(args, good(i))
			}
		}
		if util == "head" {
			args = append([]string{"-n", "1000000"}, args...)
		}
	case "cmp", "diff":
		pos = r.IntN(2)
		args = []string{good(0), bad}
		if kind != "injected" && !viaStdin && oneIn(r, 4) { // the same name twice
			args[0] = bad
		}
		if kind == "injected" { // equal files, so that everything must be read
			b, _ := os.ReadFile(p)
			c.write("good0", b)
		}
		if pos == 0 {
			args = []string{bad, args[0]}
		}
		if util == "cmp" && oneIn(r, 3) {
			args = append([]string{pick(r, "-s", "-l")}, args...)
		}
	case "tsort":
		args = []string{bad}
	}
	if viaStdin && len(args) == 1 && oneIn(r, 2) { // none but standard input
		args = nil
	}
	c.Desc("%s %q: input %q is %s", util, args, bad, kind)
	c.Key(util, kind, pos, args)
	for i := 0; i < 4; i++ {
		b, _ := os.ReadFile(filepath.Join(dir, sprintf("good%d", i)))
		c.Key(b)
	}
	cmd := Cmd{Name: util, Args: args, Dir: dir}
	log := filepath.Join(dir, "strace.log")
	if inject {
		when := pick(r, 1, 2, 2, 3, 3, 4, 5, 1+r.IntN(10), 1+r.IntN(40))
		sargs := []string{"-f", "-qq", "-o", log, "-P", p, "-e", "trace=read,pread64,copy_file_range,sendfile,splice,mmap", "-e",
			sprintf("inject=read,pread64,copy_file_range,sendfile,splice:error=%s:when=%d+", pick(r, "EIO", "EIO", "ESTALE", "ETIMEDOUT", "ENOMEM", "EISDIR", "ENXIO", "EPERM", "EOVERFLOW"), when), filepath.Join(c.Bin, util)}
		cmd = Cmd{Name: "strace", Bin: "/usr/bin/strace", Args: append(sargs, args...), Dir: dir, Env: append([]string{"GOMAXPROCS=1"}, baseEnv[:1]...)}
	}
	if viaStdin {
		flag := os.O_RDONLY
		if kind == "stdin_wo" {
			flag = os.O_WRONLY
		}
		f, err := os.OpenFile(p, flag, 0)
		must(err)
		defer f.Close()
		cmd.StdinR = f
		c.Count("stdin", 1)
	}
	res := c.Run(cmd)
	if res.Hung {
		return
	}
	if inject {
		b, _ := os.ReadFile(log)
		// calls are counted per thread: after the first failure all must fail
		hit := false
		for _, l := range strings.Split(string(b), "\n") {
			x := reCall.FindStringSubmatch(l)
			switch {
			case x == nil || x[2] == "mmap":
			case strings.Contains(l, "INJECTED"):
				hit = true
			case hit:
				c.Count("injection_overcome", 1)
				return
			}
		}
		if !hit {
			c.Count("injection_not_reached", 1)
			return
		}
	}
	c.Count(kind, 1)
	if kind == "good" {
		limit := 0
		if util == "cmp" || util == "diff" {
			limit = 1
		}
		if util == "tsort" && res.Code != 0 { // blob content may be cyclic; good files of tsort never are
			c.Fail("tsort fails on a good input: %s", res)
		}
		if res.Code < 0 || res.Code > limit {
			c.Fail("all inputs are readable, but %s", res)
		}
		if len(res.Err) != 0 && !(util == "cmp" && strings.Contains(string(res.Err), "EOF on ")) {
			c.Fail("all inputs are readable, but stderr is %q", res.Err)
		}
		return
	}
	minCode := 1
	if util == "cmp" || util == "diff" {
		minCode = 2
	}
	if res.Code >= 0 && res.Code < minCode {
		c.Fail("input %q cannot be read (%s), but the exit status is %d: %s", bad, kind, res.Code, res)
	}
	if len(res.Err) == 0 {
		c.Fail("input %q cannot be read (%s), but nothing is written on standard error", bad, kind)
	}
	switch util {
	case "cmp":
		if len(res.Out) != 0 && kind != "injected" {
			c.Fail("a result is presented: %q", clip(string(res.Out), 300))
		}
	case "diff", "tsort":
		if len(res.Out) != 0 {
			c.Fail("a result is presented: %q", clip(string(res.Out), 300))
		}
	case "cksum":
		if len(args) == 0 && len(res.Out) != 0 {
			c.Fail("a result is presented: %q", clip(string(res.Out), 300))
		}
		for _, l := range strings.Split(string(res.Out), "\n") {
			if f := strings.SplitN(l, " ", 3); len(f) == 3 && f[2] == bad {
				c.Fail("a result is presented for the unreadable operand: %q", l)
			}
		}
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- C22 output failures

// smallFiles writes some files, the lengths of which differ, and returns
// their names and perhaps one for standard input.
func (c *Ctx) smallFiles() (names []string) {
	for i := 2 + c.R.IntN(20); i > 0; i-- {
		n := sprintf("f%d", i)
		c.write(n, []byte(strings.Repeat("some text\n", c.R.IntN(4))+pick(c.R, "", "end", "z\n")))
		names = append(names, n)
	}
	if oneIn(c.R, 3) {
		names[c.R.IntN(len(names))] = "-"
	}
	return names
}

func runBadOutput(c *Ctx) {
	r := c.R
	dir := c.Dir()
	util := []string{"cat", "cksum", "cmp", "diff", "head", "tsort", "locale"}[c.Idx%7]
	mode := []string{"full", "limit", "closed", "limit", "partway"}[(c.Idx/7)%5]
	big := mode == "partway" || oneIn(r, 8)
	lo := 1
	if big {
		lo = 4000
	}
	n := lo + r.IntN(lo*3)
	cmd := Cmd{Name: util, Dir: dir}
	var stdin []byte
	switch util {
	case "cat":
		c.write("a", bytes.Repeat([]byte(pick(r, "line of text\n", "\x00\xff\n", "abc")), n*4))
		c.write("b", blob(r, 1+r.IntN(3000)))
		cmd.Args = pick(r, []string{"a"}, []string{"a", "b"}, []string{"b", "a"}, []string{"-", "a"}, []string{"-"})
		stdin = bytes.Repeat([]byte("some input\n"), n*3)
		if oneIn(r, 4) {
			cmd.Args = c.smallFiles()
		}
	case "cksum":
		c.write("a", blob(r, size(r, 1000)))
		k := 1 + r.IntN(40)
		if big {
			k = 300
		}
		for i := 0; i < k; i++ {
			cmd.Args = append(cmd.Args, "a")
			if oneIn(r, 2) {
				cmd.Args[i] = sprintf("a%d", i)
				c.write(cmd.Args[i], blob(r, r.IntN(20)))
			}
		}
		if oneIn(r, 5) {
			cmd.Args = nil
			stdin = blob(r, 100)
		}
	case "cmp":
		a := make([]byte, n)
		b := make([]byte, n)
		for i := range a {
			a[i] = byte('a' + i%7)
			b[i] = byte('A' + i%5)
		}
		if mode == "partway" {
			a, b = bytes.Repeat(a, 4), bytes.Repeat(b, 4)
		}
		if oneIn(r, 2) {
			b = b[:len(b)-len(b)/8]
		}
		c.write("a", a)
		c.write("b", b)
		cmd.Args = []string{"-l", "a", "b"}
		if oneIn(r, 3) && mode != "partway" {
			cmd.Args = []string{"a", "b"}
		}
	case "diff":
		var x, y strings.Builder
		for i := 0; i < min(n, 1200); i++ {
			fmt.Fprintf(&x, "left %d %s\n", i, strings.Repeat("z", r.IntN(50)*(1+btoi(big)*4)))
			fmt.Fprintf(&y, "right %d %s\n", i, strings.Repeat("z", r.IntN(50)*(1+btoi(big)*4)))
			if i%9 == 0 {
				x.WriteString(sprintf("same %d\n", i))
				y.WriteString(sprintf("same %d\n", i))
			}
		}
		c.write("a", []byte(x.String()))
		c.write("b", []byte(y.String()))
		cmd.Args = []string{"a", "b"}
	case "head":
		c.write("a", bytes.Repeat([]byte("line of text for head\n"), n))
		c.write("b", []byte("x\ny"))
		cmd.Args = append([]string{"-n", "1000000"}, pick(r, []string{"a"}, []string{"a", "b"}, []string{"b", "a"}, []string{"b", "-"})...)
		stdin = bytes.Repeat([]byte("stdin line\n"), n*2)
		if oneIn(r, 4) {
			cmd.Args = c.smallFiles()
		}
	case "tsort":
		var x strings.Builder
		k := min(n, 700)
		pad := strings.Repeat("p", 400)
		if !big {
			pad = ""
		}
		for i := 0; i < k; i++ {
			fmt.Fprintf(&x, "a%d%s b%d%s\n", i, pad, i, pad)
		}
		stdin = []byte(x.String())
		if oneIn(r, 2) {
			c.write("a", stdin)
			cmd.Args = []string{"a"}
		}
	case "locale":
		cmd.Env = append([]string{"LANG=" + strings.Repeat("x", 1+r.IntN(200)), "LC_TIME=C"}, baseEnv...)
		if big {
			cmd.Env = append(cmd.Env, "LC_ALL="+strings.Repeat("y", 20000))
		}
	}
	cmd.Stdin = stdin
	ref := c.Run(cmd)
	if ref.Hung {
		return
	}
	okCode := 0
	if util == "cmp" || util == "diff" {
		okCode = 1
	}
	if ref.Code != okCode || len(ref.Out) == 0 {
		// another property's business; without output there is nothing to lose here
		if (util == "tsort" || util == "cmp" || util == "diff") && len(ref.Out) > 0 {
			c.Trivial()
			return
		}
		c.Trivial()
		c.Count("no_reference", 1)
		return
	}
	if mode == "partway" && len(ref.Out) < 150000 {
		mode = "closed"
	}
	var got []byte
	var res Res
	limit := 0
	switch mode {
	case "full":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		cmd.Stdout = f
		res = c.Run(cmd)
		f.Close()
	case "limit":
		limit = 1 + r.IntN(len(ref.Out))
		if limit == len(ref.Out) {
			limit = len(ref.Out) - 1
		}
		if oneIn(r, 4) {
			limit = len(ref.Out) - 1
		}
		if limit < 1 {
			limit = 1
		}
		f, err := os.Create(filepath.Join(c.Scratch, "out"))
		must(err)
		cmd.Stdout = f
		cmd.Fsize = int64(limit)
		res = c.Run(cmd)
		f.Close()
		got, err = os.ReadFile(filepath.Join(c.Scratch, "out"))
		must(err)
		os.Remove(filepath.Join(c.Scratch, "out"))
	case "closed":
		pr, pw, err := os.Pipe()
		must(err)
		pr.Close()
		cmd.Stdout = pw
		res = c.Run(cmd)
		pw.Close()
	case "partway":
		pr, pw, err := os.Pipe()
		must(err)
		cmd.Stdout = pw
		limit = r.IntN(60000)
		done := make(chan []byte)
		go func() {
			b := make([]byte, limit)
			n := 0
			for n < limit {
				k, err := pr.Read(b[n:])
				n += k
				if err != nil {
					break
				}
			}
			pr.Close()
			done <- b[:n]
		}()
		res = c.Run(cmd)
		pw.Close()
		got = <-done
	}
	if res.Hung {
		return
	}
	c.Count(mode, 1)
	c.Count("reached", 1)
	c.Desc("%s %q, output of %d bytes, %s (limit %d): exit=%d signal=%d", util, clip(sprintf("%q", cmd.Args), 100), len(ref.Out), mode, limit, res.Code, res.Sig)
	c.Key(util, mode, limit, len(ref.Out), cmd.Args)
	if util == "tsort" {
		// any valid order is a correct output: compare as a set of whole words
		if limit > 0 && mode == "limit" && len(got) > limit {
			c.Fail("wrote beyond the limit?")
		}
	} else if !bytes.HasPrefix(ref.Out, got) {
		c.Fail("what was written is not a prefix of the correct output: %s", show(got, ref.Out))
	}
	minCode := 1
	if util == "cmp" || util == "diff" {
		minCode = 2
	}
	if res.Sig == 0 && res.Code < minCode {
		c.Fail("standard output failed (%s), but the exit status is %d; stderr=%q", mode, res.Code, clip(string(res.Err), 300))
	}
}

// ---- C23 read-only utilities

type snap map[string]string

func snapshot(dir string) snap {
	s := snap{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			s[p] = "error " + err.Error()
			return nil
		}
		var st syscall.Stat_t
		if err := syscall.Lstat(p, &st); err != nil {
			s[p] = "vanished"
			return nil
		}
		x := sprintf("ino=%d mode=%o uid=%d gid=%d nlink=%d size=%d mtime=%d.%09d ctime=%d.%09d", st.Ino, st.Mode, st.Uid, st.Gid, st.Nlink, st.Size, st.Mtim.Sec, st.Mtim.Nsec, st.Ctim.Sec, st.Ctim.Nsec)
		switch st.Mode & syscall.S_IFMT {
		case syscall.S_IFREG:
			b, err := os.ReadFile(p)
			x += sprintf(" %v %d %x", err, len(b), fnvHash(b))
		case syscall.S_IFLNK:
			l, _ := os.Readlink(p)
			x += " -> " + l
		}
		s[p] = x
		return nil
	})
	return s
}

func fnvHash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func (a snap) diff(b snap) string {
	var out []string
	for p, x := range a {
		if y, ok := b[p]; !ok {
			out = append(out, "removed "+p)
		} else if x != y {
			out = append(out, sprintf("changed %s: %s => %s", p, x, y))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, "created "+p)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

var mutatingCall = regexp.MustCompile(`(?:^|[ \]])(openat|open|creat|unlink|unlinkat|rename|renameat|renameat2|mkdir|mkdirat|rmdir|chmod|fchmod|fchmodat|chown|fchown|fchownat|lchown|truncate|ftruncate|link|linkat|symlink|symlinkat|utimensat|utime|utimes|futimesat|mknod|mknodat|setxattr|lsetxattr|fsetxattr|removexattr)\((.*)`)

func runReadOnly(c *Ctx) {
	r := c.R
	dir := c.Dir()
	tree := filepath.Join(dir, "t")
	must(os.Mkdir(tree, 0755))
	var names []string
	for i := 0; i < 2+r.IntN(5); i++ {
		n := name(r) + strconv.Itoa(i)
		b := blob(r, size(r, 70000))
		if oneIn(r, 3) {
			b = []byte(strings.Repeat("a b\nb c\n", 1+r.IntN(5)))
		} else if oneIn(r, 4) {
			b = nil
		}
		must(os.WriteFile(filepath.Join(tree, n), b, pick(r, os.FileMode(0644), 0644, 0444, 0600, 0755, 0644, 0000, 0200, 0111)))
		names = append(names, n)
	}
	for k := r.IntN(3); k > 0; k-- { // names that belong together
		n := names[r.IntN(len(names))]
		n = pick(r, n+"~", n+".bak", n+".orig", n+".swp", n+".tmp", n+".new", n+".old", "."+n, n+".lock", "#"+n+"#")
		if _, err := os.Lstat(filepath.Join(tree, n)); err != nil {
			must(os.WriteFile(filepath.Join(tree, n), []byte("a b\n"), pick(r, os.FileMode(0644), 0600)))
			names = append(names, n)
		}
	}
	must(os.Mkdir(filepath.Join(tree, "sub"), 0755))
	must(os.WriteFile(filepath.Join(tree, "sub", "inner"), []byte("inner\n"), 0644))
	must(os.Symlink("sub/inner", filepath.Join(tree, "link")))
	must(os.Symlink("nowhere", filepath.Join(tree, "dangling")))
	names = append(names, "sub", "sub/inner", "link", "dangling", "absent", "-")
	// old times, so that a change within one tick of the clock shows
	old := time.Unix(1_000_000_000, 0)
	for _, n := range append(names[:len(names)-6:len(names)-6], "sub/inner", "sub", ".") {
		must(os.Chtimes(filepath.Join(tree, n), old, old))
	}
	util := []string{"cat", "cksum", "cmp", "diff", "head", "test", "tsort", "locale"}[c.Idx%8]
	opts := []string{"-n", "3", "-u", "-l", "-s", "-f", "-e", "-d", "!", "=", "-b", "-c", "-C", "-U", "-r", "--", "-z", "-o", "-w", "-a", ">", "-i", "--output", "-0"}
	var args []string
	k := r.IntN(5)
	if util == "cmp" || util == "diff" {
		k = 2 + r.IntN(2)
	}
	for i := 0; i < k; i++ {
		if oneIn(r, 4) {
			args = append(args, opts[r.IntN(len(opts))])
		} else {
			args = append(args, names[r.IntN(len(names))])
		}
	}
	if n := len(args); n >= 2 && oneIn(r, 3) { // two names that belong together
		for _, x := range names {
			for _, y := range names {
				if x != y && strings.Contains(y, x) && x != "-" && oneIn(r, 2) {
					args[n-2], args[n-1] = x, y
					if oneIn(r, 2) {
						args[n-2], args[n-1] = y, x
					}
				}
			}
		}
	}
	stdin := []byte(pick(r, "x y\ny z\n", "", "a\x00b\n", "x y\n"))
	if oneIn(r, 40) {
		stdin = bytes.Repeat([]byte("word other\n"), pick(r, 20000, 120000, 400000))
		c.Count("long_input", 1)
		if util != "locale" && util != "test" {
			args = pick(r, nil, []string{"-"}, []string{"-", names[0]})
			if util == "cmp" || util == "diff" {
				args = []string{"-", names[0]}
			}
		}
	}
	before := snapshot(tree)
	cmd := Cmd{Name: util, Args: args, Dir: tree, Stdin: stdin, Env: append([]string{"LANG=C", "TMPDIR=" + tree, "HOME=" + tree, "PWD=" + tree}, baseEnv...)}
	trace := straceOK && c.Idx%40 < 8
	log := filepath.Join(dir, "strace.log")
	if trace {
		cmd.Bin = "/usr/bin/strace"
		cmd.Args = append([]string{"-f", "-qq", "-o", log, "-e", "trace=%file,%desc", filepath.Join(c.Bin, util)}, args...)
	}
	if oneIn(r, 5) && !trace { // with a failing output as well
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		cmd.Stdout = f
	}
	res := c.Run(cmd)
	if res.Hung {
		return
	}
	after := snapshot(tree)
	c.Desc("%s %q in a tree of %d entries: exit=%d", util, args, len(before), res.Code)
	c.Key(util, args, len(before))
	if res.Code == 0 && len(res.Out) == 0 && len(args) == 0 {
		c.Trivial()
	}
	c.Count("entries", len(before))
	if d := before.diff(after); d != "" {
		c.Fail("the file system changed: %s", d)
	}
	if trace {
		b, _ := os.ReadFile(log)
		if len(b) > 0 {
			c.Count("traced", 1)
		}
		for _, l := range strings.Split(string(b), "\n") {
			m := mutatingCall.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			if strings.Contains(m[2], ") = -1 ") {
				continue
			}
			// opening for writing alone changes nothing, and what a file
			// created without O_EXCL is, the snapshots tell
			if strings.HasPrefix(m[1], "open") && !strings.Contains(m[2], "O_TRUNC") && !strings.Contains(m[2], "O_EXCL") {
				continue
			}
			if strings.Contains(m[2], "\"/dev/") || strings.Contains(m[2], "\"/proc/") {
				continue
			}
			c.Fail("a system call that changes files: %s", l)
		}
	}
}

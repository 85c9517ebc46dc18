//go:build go1.22

package main

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Prop{ID: "C30", Level: "exploration", Quick: 40000, Thorough: 600000,
		Rule:      "cat, cksum, cmp, cut, diff, ed, head, locale, test and tsort with 0-10 (some with thousands of) arguments drawn from every option, number, operator and odd string and from files of every kind (empty, text, binary, long lines, directories, devices, links that dangle or loop), standard input of every kind (data, pieces, none, a directory, a file, closed) and standard output and error that may be closed, in any environment; judged: how the process ends and what it writes on standard error; non-trivial: at least one argument or some input",
		MinEvents: []string{"cat", "cksum", "cmp", "cut", "diff", "ed", "head", "locale", "test", "tsort", "closed_fds", "status_0", "status_other", "many_args"},
		Run:       runRobust})
	helpers["closed"] = func(args []string) {
		for _, ch := range args[0] {
			syscall.Close(int(ch - '0'))
		}
		syscall.Exec(args[1], append([]string{filepath.Base(args[1])}, args[2:]...), os.Environ())
		os.Exit(99)
	}
}

// What the Go runtime and library write when a program does something that is
// always an error, as opposed to a program that ends itself with a message.
var reFault = regexp.MustCompile(`(?m)^(panic: |fatal error: |	panic: )?.*(runtime error: |fatal error: |unexpected fault address|all goroutines are asleep|stack overflow|out of memory|assignment to entry in nil map|interface conversion: |(close of|send on) closed channel|close of nil channel|makeslice: |negative Repeat count|negative shift|concurrent map|negative WaitGroup|unlock of unlocked|reflect: |SIGSEGV|SIGBUS)`)

func (r Res) fault() string {
	e := string(r.Err)
	if i := strings.Index(e, "goroutine "); i >= 0 && (i == 0 || e[i-1] == '\n') {
		if m := reFault.FindString(e[:i]); m != "" {
			return m
		}
	}
	return ""
}

func runRobust(c *Ctx) {
	r := c.R
	dir := c.Dir()
	utils := []string{"cat", "cksum", "cmp", "cut", "diff", "ed", "head", "locale", "test", "tsort"}
	util := utils[c.Idx%len(utils)]
	if c.Idx%len(utils) == 3 && oneIn(r, 2) { // cut does little
		util = "ed"
	}
	c.Count(util, 1)
	var names []string
	for i := r.IntN(4); i > 0; i-- {
		n := name(r) + strconv.Itoa(i)
		p := filepath.Join(dir, n)
		switch r.IntN(9) {
		case 0:
			must(os.Mkdir(p, 0755))
		case 1:
			must(os.Symlink(pick(r, "nosuch", n, ".", "/dev/null"), p))
		case 2:
			must(os.WriteFile(p, nil, 0644))
		default:
			sz := size(r, 3000)
			if oneIn(r, 60) {
				sz = 60000 + r.IntN(10000)
			}
			must(os.WriteFile(p, blob(r, sz), os.FileMode(pick(r, 0644, 0644, 0644, 0, 0200, 0444))))
		}
		names = append(names, n)
	}
	number := func() string {
		return pick(r, "0", "1", "2", "3", "7", "10", "-1", "-0", "+5", "007", "99999", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1e9", "0x10", "1.5", " 4", "", "٣", "99999999999999999999999999")
	}
	file := func() string {
		if len(names) > 0 && !oneIn(r, 5) {
			n := names[r.IntN(len(names))]
			if oneIn(r, 10) {
				n = pick(r, "./"+n, filepath.Join(dir, n), n+"/", n+"/x", "../"+filepath.Base(dir)+"/"+n)
			}
			return n
		}
		return pick(r, "nosuch", ".", "..", "/", "/dev/null", "-", "", "/proc/self/mem", "/proc/self/cmdline", "/nonexistent/x", strings.Repeat("n", 300), strings.Repeat("d/", 3000))
	}
	arg := func() string {
		switch r.IntN(10) {
		case 0:
			return number()
		case 1:
			return "-" + string(rune(33+r.IntN(94)))
		case 2:
			return pick(r, "-", "--", "---", "", "!", "(", ")", "-a", "-o", "=", "!=", "-eq", "-ne", "-gt", "-ge", "-lt", "-le", "-t", "-ef", "-nt", "<", ">", "-n", "-z", "-é", "-\xff", "\xff\xfe", "-lu", "-n5", "-n=5", "--help", "--version", "-h", "-?", "%s%n", "\n", "*", "a=b", "-s", "-p", "prompt", "LC_ALL", "charmap")
		case 3:
			var o []string
			switch util {
			case "cat":
				o = []string{"-u", "-uu"}
			case "cmp":
				o = []string{"-l", "-s", "-ls"}
			case "cut":
				o = []string{"-b", "-c", "-f", "-d", "-n", "-s", "-f1", "-f=1", "-d,"}
			case "diff":
				o = []string{"-b", "-c", "-e", "-f", "-r", "-u", "-C", "-U", "-C1"}
			case "head":
				o = []string{"-n", "-n3", "-3"}
			case "ed":
				o = []string{"-p", "-s"}
			case "locale":
				o = []string{"-a", "-m", "-c", "-k"}
			case "test":
				o = []string{"!", "=", "-f", "-e", "-d", "-s", "-eq", "-h", "-u", "-g", "-p", "-S", "-c", "-b", "-r", "-w", "-x", "-L"}
			default:
				o = []string{"-"}
			}
			return o[r.IntN(len(o))]
		}
		return file()
	}
	var args []string
	n := pick(r, 0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 7, 10)
	if oneIn(r, 200) {
		n = pick(r, 50, 300, 2000)
		c.Count("many_args", 1)
	}
	for len(args) < n {
		a := arg()
		if strings.IndexByte(a, 0) < 0 {
			args = append(args, a)
		}
	}
	if n > 0 && oneIn(r, 60) { // one very long argument
		args[r.IntN(n)] = strings.Repeat(pick(r, "x", "-", "9", "!", "é", "a "), pick(r, 5000, 60000))
	}
	var in []byte
	if !oneIn(r, 4) {
		in = blob(r, size(r, 3000))
		if util == "ed" && !oneIn(r, 3) {
			var sb strings.Builder
			for k := r.IntN(12); k > 0; k-- {
				if oneIn(r, 2) { // any address, any command
					addr := func() string {
						a := pick(r, "", "", ".", "$", "0", "1", "2", "3", "9", "'"+string(rune('a'+r.IntN(26))), "'A", "'", "/x/", "/", "//", "?x?", "?", "/\\", "/[/", "/x", "/(/", "/a{1001}/", "/\xff/", "99999999999999999999", "-", "+", "^", "%")
						if oneIn(r, 3) {
							a += pick(r, "+", "-", "+1", "-1", "++", "--", "+-", "+99999999999999999999", "-9223372036854775808", " 1", " +1", "'a", "/x/")
						}
						return a
					}
					l := addr()
					for oneIn(r, 2) {
						l += pick(r, ",", ";", " , ", ",,") + addr()
					}
					l += pick(r, "", " ") + pick(r, "a", "c", "d", "e", "E", "f", "g", "G", "h", "H", "i", "j", "k", "l", "m", "n", "p", "P", "q", "Q", "r", "s", "t", "u", "v", "V", "w", "W", "x", "=", "!", "z", "#", "", "é", "\xff", "pp", "pn")
					l += pick(r, "", "", "", " ", "p", "n", " x", "a", "1", "/x/y/", "/x/p", " 0", " $", "!true", " !true", " out", " .", "\r")
					if strings.ContainsAny(l, "!") {
						l = strings.ReplaceAll(l, "!true", "!:")
					}
					sb.WriteString(l + "\n")
					continue
				}
				sb.WriteString(pick(r, "a\nx\n.\n", "1p\n", "$d\n", "=\n", "n\n", "e\n", "e nosuch\n", "w\n", "w out\n", "q\n", ",p\n", "1;2n\n", "/x/\n", "\n", ".\n", "i\n", "0a\ny\n", "c\n.\n", "/[/p\n", "1,\n", "'ap\n", "E\n", "f\n", "1m2\n", "s/x/y/\n", "g/x/p\n", "99999999999999999999p\n", ".+++p\n", "-5p\n", "e "+file()+"\n"))
			}
			in = []byte(sb.String())
		} else if util == "tsort" && !oneIn(r, 3) {
			var sb strings.Builder
			for k := r.IntN(30); k > 0; k-- {
				sb.WriteString(pick(r, "a", "b", "c", "d", "e", "ab", "é", "\xff", strings.Repeat("long", 30)) + pick(r, " ", "\n", "\t", "  "))
			}
			in = []byte(sb.String())
		}
	}
	if len(args) == 0 && len(in) == 0 {
		c.Trivial()
	}
	env := c.someEnv()
	if util == "locale" {
		for _, v := range []string{"LANG", "LC_ALL", "LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME"} {
			if oneIn(r, 3) {
				s := strings.ReplaceAll(string(blob(r, size(r, 400))), "\x00", "0")
				env = append(env[:len(env):len(env)], v+"="+s)
			}
		}
	}
	closed := ""
	if oneIn(r, 10) {
		closed = pick(r, "0", "1", "2", "01", "12", "012")
		c.Count("closed_fds", 1)
	}
	kind := r.IntN(8)
	run := func(secs int) (Res, error) {
		path := filepath.Join(c.Bin, util)
		all := args
		if closed != "" {
			all = append([]string{"-helper", "closed", closed, path}, args...)
			path = c.Self
		}
		cmd := exec.Command(path, all...)
		cmd.Dir = dir
		cmd.Env = env
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		var out, er bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &er
		switch kind {
		case 0: // nothing
		case 1:
			f, err := os.Open(dir)
			must(err)
			defer f.Close()
			cmd.Stdin = f
		case 2:
			f, err := os.OpenFile(filepath.Join(dir, ".in"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
			must(err)
			defer f.Close()
			f.Write(in)
			f.Seek(int64(r.IntN(len(in)+1)), 0)
			cmd.Stdin = f
		case 3:
			cmd.Stdin = c.chunked(in)
		default:
			cmd.Stdin = bytes.NewReader(in)
		}
		c.Count("processes", 1)
		if err := cmd.Start(); err != nil {
			return Res{}, err // too long for the system
		}
		t := time.AfterFunc(time.Duration(secs)*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		cmd.WaitDelay = 5 * time.Second
		cmd.Wait()
		res := Res{Out: out.Bytes(), Err: er.Bytes(), Hung: !t.Stop()}
		if ws := cmd.ProcessState.Sys().(syscall.WaitStatus); ws.Signaled() {
			res.Sig, res.Code = int(ws.Signal()), -1
		} else {
			res.Code = ws.ExitStatus()
		}
		return res, nil
	}
	what := sprintf("%s %s, input kind %d %s, closed %q", util, clip(sprintf("%q", args), 1500), kind, clip(sprintf("%q", in), 600), closed)
	c.Key(util, sprintf("%q", args), string(in), closed, kind)
	c.Desc("%s", what)
	res, err := run(30)
	if err != nil {
		c.Count("refused_by_system", 1)
		return
	}
	if res.Hung {
		if res, _ = run(60); res.Hung {
			c.Fail("%s does not end", what)
			return
		}
	}
	if res.Code == 0 {
		c.Count("status_0", 1)
	} else {
		c.Count("status_other", 1)
	}
	if f := res.fault(); f != "" {
		c.Fail("%s fails with %q: %s", what, clip(f, 200), res)
		return
	}
	if res.Sig != 0 && !(res.Sig == int(syscall.SIGPIPE)) {
		c.Fail("%s is ended by a signal: %s", what, res)
	}
}

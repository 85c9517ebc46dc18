//go:build go1.22

package main

import (
	"bytes"
	"context"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	register(&Prop{ID: "C29", Level: "exploration", Quick: 9000, Thorough: 150000,
		Rule:      "cat, cksum, cmp, diff, head, tsort and ed, each run once on plain files and a plain pipe and then one to three times with the same arguments and bytes delivered otherwise: operands that are symbolic links, chains of them, hard links, files without write permission, named pipes fed in pieces; standard input a pipe fed in pieces with pauses, a file at any position, a file opened for writing too, a socket, a named pipe; standard output a file at any position, one opened for appending, a socket; other environments, other argv[0], closed and odd further descriptors; output, status and whether there is a diagnostic must be the same; non-trivial: at least one byte of input",
		MinEvents: []string{"cat", "cksum", "cmp", "diff", "head", "tsort", "ed", "in_links", "in_hard_links", "in_fifos", "in_read_only", "stdin_pieces", "stdin_file", "stdin_position", "stdin_rdwr", "stdin_socket", "stdin_fifo", "out_file", "out_position", "out_append", "out_socket", "environments", "compared"},
		Run:       runDeliver})
}

// feeder writes to a pipe or socket, in pieces, and closes it.
func feeder(w io.WriteCloser, b []byte, n []int, pause time.Duration) {
	defer w.Close()
	for i := 0; len(b) > 0; i++ {
		k := min(len(b), n[i%len(n)])
		if _, err := w.Write(b[:k]); err != nil {
			return
		}
		b = b[k:]
		if pause > 0 && i < 20 {
			time.Sleep(pause)
		}
	}
}

func socketPair() (a, b *os.File) {
	fd, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	must(err)
	return os.NewFile(uintptr(fd[0]), "socket"), os.NewFile(uintptr(fd[1]), "socket")
}

func runDeliver(c *Ctx) {
	r := c.R
	base := c.Dir()
	util := pick(r, "cat", "cksum", "cmp", "diff", "head", "tsort", "ed")
	c.Count(util, 1)
	var names []string
	var data [][]byte
	var args []string
	var stdin []byte
	uses := map[string]int{}
	useStdin := false
	content := func() []byte { return blob(r, size(r, pick(r, 300, 5000, 200000))) }
	file := func(b []byte) string {
		n := name(r) + strconv.Itoa(len(names))
		if oneIn(r, 4) {
			n = pick(r, "sub/", "sub/deep er/") + n
		}
		names = append(names, n)
		data = append(data, b)
		return n
	}
	operand := func(s string) {
		args = append(args, s)
		uses[s]++
	}
	switch util {
	case "cat", "cksum", "head":
		if util == "head" && oneIn(r, 2) {
			args = append(args, "-n", strconv.Itoa(pick(r, 0, 1, 2, 3, 9, 11, 100, 100000)))
		}
		n := pick(r, 0, 0, 1, 1, 2, 3, 5)
		for i := 0; i < n; i++ {
			switch {
			case oneIn(r, 4) && !useStdin:
				useStdin = true
				operand("-")
			case len(names) > 0 && oneIn(r, 6):
				operand(names[r.IntN(len(names))])
			default:
				operand(file(content()))
			}
		}
		if n == 0 {
			useStdin = true
		}
		if useStdin {
			stdin = content()
		}
	case "cmp", "diff":
		a := content()
		if util == "diff" { // long ones over few lines take long
			var sb strings.Builder
			for i := r.IntN(pick(r, 3, 30, 300)); i > 0; i-- {
				sb.WriteString(sprintf("%d%s\n", r.IntN(1000), pick(r, "", "\r", " x", strings.Repeat("long", r.IntN(3000)))))
			}
			a = []byte(sb.String() + pick(r, "", "end"))
		}
		b := a
		if !oneIn(r, 4) {
			b = mutate(r, a)
		}
		if util == "cmp" && oneIn(r, 2) {
			args = append(args, pick(r, "-l", "-s"))
			if len(a) > 20000 {
				args = nil
			}
		}
		first, second := file(a), file(b)
		if util == "cmp" && oneIn(r, 2) {
			useStdin = true
			if oneIn(r, 2) {
				first, stdin = "-", a
			} else {
				second, stdin = "-", b
			}
		}
		operand(first)
		operand(second)
	case "tsort":
		n := 1 + r.IntN(pick(r, 5, 50, 400))
		var pairs []string
		for i := 0; i+1 < n; i++ {
			pairs = append(pairs, sprintf("n%d%sn%d", i, pick(r, " ", "\t", "\n", "  "), i+1))
			if oneIn(r, 3) {
				j := i + 1 + r.IntN(n-i-1)
				pairs = append(pairs, sprintf("n%d n%d", i, j))
			}
		}
		if n > 1 && oneIn(r, 6) {
			pairs = append(pairs, sprintf("n%d n0", n-1))
		}
		if n == 1 {
			pairs = append(pairs, "one one")
		}
		if oneIn(r, 8) {
			pairs = append(pairs, "odd")
		}
		r.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
		b := []byte(strings.Join(pairs, pick(r, "\n", " ", "\n\n")) + pick(r, "\n", ""))
		switch r.IntN(3) {
		case 0:
			operand(file(b))
		case 1:
			operand("-")
			fallthrough
		default:
			stdin, useStdin = b, true
		}
	case "ed":
		useStdin = true
		var sb strings.Builder
		for i := r.IntN(12); i > 0; i-- {
			sb.WriteString(sprintf("line %d %s\n", i, strings.Repeat("x", r.IntN(pick(r, 10, 3000)))))
		}
		f := file([]byte(sb.String()))
		script := ""
		if oneIn(r, 2) {
			operand(f)
		} else {
			script = "e " + f + "\n"
			uses[f]++
		}
		for i := r.IntN(20); i > 0; i-- {
			script += pick(r, "1p\n", "$p\n", "1,$p\n", "1,$n\n", "=\n", "1d\n", "$a\nnew\nmore\n.\n", "0i\nfirst\n.\n", "/line/p\n", "99p\n", "bad command\n", "\n", ".=\n", "1,2c\nchanged "+strings.Repeat("y", r.IntN(5000))+"\n.\n", "q\n1p\n")
		}
		stdin = []byte(script + "1,$p\n")
	}
	total := len(stdin)
	for _, b := range data {
		total += len(b)
	}
	if total == 0 {
		c.Trivial()
	}
	c.Key(util, args, data, stdin)
	c.Desc("%s %q, %d bytes of input", util, args, total)

	dirA := filepath.Join(base, "a")
	must(os.MkdirAll(filepath.Join(dirA, "sub", "deep er"), 0755))
	for i, n := range names {
		must(os.WriteFile(filepath.Join(dirA, n), data[i], 0644))
	}
	want := c.Run(Cmd{Name: util, Args: args, Stdin: stdin, Dir: dirA, Env: baseEnv})
	if want.Hung {
		return
	}
	for k := 1 + r.IntN(3); k > 0; k-- {
		seed := r.Uint64()
		tag := strconv.Itoa(k)
		hung := c.redeliver(seed, base, tag, util, args, names, data, uses, useStdin, stdin, want)
		if hung != "" { // once may be the machine's doing
			c.Count("repeated", 1)
			if hung = c.redeliver(seed, base, tag+"again", util, args, names, data, uses, useStdin, stdin, want); hung != "" {
				c.Fail("%s %q does not end, twice; %s", util, args, hung)
			}
		}
	}
}

// redeliver runs the utility with its inputs delivered in another way, and
// tells which way that was if it does not end.
func (c *Ctx) redeliver(seed uint64, base, tag, util string, args, names []string, data [][]byte, uses map[string]int, useStdin bool, stdin []byte, want Res) (hung string) {
	r := rand.New(rand.NewPCG(seed, 29))
	dir := filepath.Join(base, "b"+tag)
	other := filepath.Join(base, "o"+tag)
	if oneIn(r, 4) {
		other += strings.Repeat(pick(r, "long", "é "), r.IntN(60))
	}
	must(os.MkdirAll(filepath.Join(dir, "sub", "deep er"), 0755))
	must(os.Mkdir(other, 0755))
	var what []string
	note := func(ev, f string, a ...any) {
		c.Count(ev, 1)
		what = append(what, sprintf(f, a...))
	}
	n := []int{1 + r.IntN(5), 1 + r.IntN(200), 1 + r.IntN(70000)}
	if len(stdin) > 3000 || oneIn(r, 2) {
		n = []int{1 + r.IntN(9000), 1 + r.IntN(200), 4096, 65536}
	}
	pause := time.Duration(pick(r, 0, 0, 0, 100, 1000)) * time.Microsecond
	var wg sync.WaitGroup
	stop := make(chan struct{})
	fifo := func(p string, b []byte) {
		must(syscall.Mkfifo(p, 0644))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				fd, err := syscall.Open(p, syscall.O_WRONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
				if err == nil {
					syscall.SetNonblock(fd, false)
					feeder(os.NewFile(uintptr(fd), p), b, n, pause)
					return
				}
				select {
				case <-stop:
					return
				case <-time.After(300 * time.Microsecond):
				}
			}
		}()
	}
	for i, f := range names {
		p := filepath.Join(dir, f)
		q := filepath.Join(other, "real"+strconv.Itoa(i))
		switch kind := r.IntN(6); {
		case kind == 0:
			must(os.WriteFile(q, data[i], 0644))
			if oneIn(r, 3) { // a chain
				must(os.Symlink(q, q+".1"))
				must(os.Symlink("real"+strconv.Itoa(i)+".1", q+".2"))
				q += ".2"
			}
			if oneIn(r, 2) {
				q = filepath.Join(strings.Repeat("../", 1+strings.Count(f, "/")), filepath.Base(other), filepath.Base(q))
			}
			must(os.Symlink(q, p))
			note("in_links", "%q is a symbolic link", f)
		case kind == 1:
			must(os.WriteFile(q, data[i], 0644))
			must(os.Link(q, p))
			note("in_hard_links", "%q is a hard link", f)
		case kind == 2:
			must(os.WriteFile(p, data[i], 0400))
			note("in_read_only", "%q is read-only", f)
		case kind <= 4 && uses[f] == 1:
			fifo(p, data[i])
			note("in_fifos", "%q is a named pipe", f)
		default:
			must(os.WriteFile(p, data[i], 0644))
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(c.Bin, util), args...)
	cmd.Dir = dir
	cmd.Args[0] = pick(r, util, util, "x", "/usr/bin/"+util, "", "-"+util, util+".exe")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = 5 * time.Second
	env := baseEnv
	if oneIn(r, 2) {
		note("environments", "other environment")
		env = append([]string{}, pick(r, "GOMAXPROCS=1", "GOMAXPROCS=8", "GODEBUG=asyncpreemptoff=1", "GOGC=1"))
		for i := r.IntN(6); i > 0; i-- {
			env = append(env, pick(r, "LC_ALL=tr_TR", "LANG=C", "LANG=de_DE.UTF-8", "LC_CTYPE=POSIX", "HOME="+dir, "TMPDIR="+dir, "TMPDIR=/nonexistent", "PATH=", "POSIXLY_CORRECT=", "TZ=Asia/Kathmandu", "PWD=/", "TERM=dumb", "COLUMNS=1", "IFS=x", "LINES=1", "DEBUG=1", "EDITOR=ed", strings.ToUpper(util)+"_OPTIONS=-x", "_=x", "LC_COLLATE="+strings.Repeat("x", 5000)))
		}
	}
	cmd.Env = env
	var closers []io.Closer
	done := func() {
		for _, x := range closers {
			x.Close()
		}
		closers = nil
	}
	defer done()
	switch kind := r.IntN(7); {
	case !useStdin && oneIn(r, 2): // nothing there, or something that is not to be read
		if oneIn(r, 2) {
			cmd.Stdin = nil
		} else {
			cmd.Stdin = bytes.NewReader([]byte("not to be read\n"))
		}
	case kind == 0:
		cmd.Stdin = bytes.NewReader(stdin)
	case kind == 1:
		pr, pw, err := os.Pipe()
		must(err)
		cmd.Stdin = pr
		closers = append(closers, pr)
		wg.Add(1)
		go func() { defer wg.Done(); feeder(pw, stdin, n, pause) }()
		note("stdin_pieces", "standard input comes in pieces of %v with pauses of %v", n, pause)
	case kind <= 3: // a file, perhaps not at its start
		skip := 0
		if kind == 3 {
			skip = 1 + size(r, 9000)
			note("stdin_position", "standard input is a file at position %d", skip)
		} else {
			note("stdin_file", "standard input is a file")
		}
		p := filepath.Join(other, "in")
		must(os.WriteFile(p, append(bytes.Repeat([]byte("J"), skip), stdin...), 0644))
		flag := os.O_RDONLY
		if oneIn(r, 3) {
			flag = os.O_RDWR
			note("stdin_rdwr", "opened for writing too")
		}
		f, err := os.OpenFile(p, flag, 0)
		must(err)
		_, err = f.Seek(int64(skip), 0)
		must(err)
		cmd.Stdin = f
		closers = append(closers, f)
	case kind == 4:
		a, b := socketPair()
		cmd.Stdin = a
		closers = append(closers, a)
		wg.Add(1)
		go func() { defer wg.Done(); feeder(b, stdin, n, pause) }()
		note("stdin_socket", "standard input is a socket")
	default:
		p := filepath.Join(other, "infifo")
		must(syscall.Mkfifo(p, 0644))
		fd, err := syscall.Open(p, syscall.O_RDONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
		must(err)
		w, err := os.OpenFile(p, os.O_WRONLY, 0)
		must(err)
		syscall.SetNonblock(fd, false)
		f := os.NewFile(uintptr(fd), p)
		cmd.Stdin = f
		closers = append(closers, f)
		wg.Add(1)
		go func() { defer wg.Done(); feeder(w, stdin, n, pause) }()
		note("stdin_fifo", "standard input is a named pipe")
	}
	var out bytes.Buffer
	outPath, before := "", []byte(nil)
	switch r.IntN(5) {
	case 0, 1:
		cmd.Stdout = &out
	case 2, 3:
		outPath = filepath.Join(other, "out")
		flag := os.O_WRONLY | os.O_CREATE
		at := 0
		switch r.IntN(3) {
		case 0:
			before = blob(r, 1+size(r, 5000))
			flag |= os.O_APPEND
			note("out_append", "standard output is appended to a file of %d bytes", len(before))
		case 1:
			before = blob(r, 1+size(r, 5000))
			at = len(before)
			note("out_position", "standard output is a file at position %d", at)
		default:
			note("out_file", "standard output is a file")
		}
		must(os.WriteFile(outPath, before, 0644))
		f, err := os.OpenFile(outPath, flag, 0644)
		must(err)
		_, err = f.Seek(int64(at), 0)
		must(err)
		cmd.Stdout = f
		closers = append(closers, f)
	default:
		a, b := socketPair()
		cmd.Stdout = a
		closers = append(closers, a)
		wg.Add(1)
		go func() {
			defer wg.Done()
			io.Copy(&out, b)
			b.Close()
		}()
		note("out_socket", "standard output is a socket")
	}
	var errb bytes.Buffer
	cmd.Stderr = &errb
	c.Count("processes", 1)
	err := cmd.Run()
	if cmd.ProcessState == nil {
		panic(harnessError{err})
	}
	done()
	close(stop)
	wg.Wait()
	how := strings.Join(what, "; ")
	if ctx.Err() != nil {
		return how + "; "
	}
	got := out.Bytes()
	if outPath != "" {
		b, err := os.ReadFile(outPath)
		must(err)
		if !bytes.HasPrefix(b, before) {
			c.Fail("%s %q changed what was in the output file before: %s; %s", util, args, show(b, before), how)
			return
		}
		got = b[len(before):]
	}
	c.Count("compared", 1)
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	code, sig := ws.ExitStatus(), 0
	if ws.Signaled() {
		code, sig = -1, int(ws.Signal())
	}
	if !bytes.Equal(got, want.Out) {
		c.Fail("%s %q: the output is another: %s; %s", util, args, show(got, want.Out), how)
		return ""
	}
	if code != want.Code || sig != want.Sig {
		c.Fail("%s %q: exit status %d (signal %d), was %d (%d); %s; stderr %q, was %q", util, args, code, sig, want.Code, want.Sig, how, clip(errb.String(), 500), clip(string(want.Err), 500))
		return ""
	}
	if (errb.Len() > 0) != (len(want.Err) > 0) && util != "ed" {
		c.Fail("%s %q: standard error %q, was %q; %s", util, args, clip(errb.String(), 500), clip(string(want.Err), 500), how)
	}
	return ""
}

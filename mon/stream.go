//go:build go1.22

package main

import (
	"bytes"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	register(&Prop{ID: "C25", Level: "exploration", Quick: 4000, Thorough: 60000,
		Rule:      "utilities on inputs that are being produced (pipes and named pipes that stay open): after every piece of input to cat its output so far, head's end after its last line, cmp's end after the first difference and ed's answer to each command are awaited before anything more is sent or closed; in a part of the cases some hundred megabytes flow first, and the peak memory of the waiting process is read; non-trivial: every case",
		MinEvents: []string{"cat_pieces", "head_ends", "cmp_ends", "ed_answers", "volume", "fifos"},
		Run:       runStream})
}

const patience = 25 * time.Second

// live is a running utility whose standard input is fed by the case.
type live struct {
	c    *Ctx
	cmd  *exec.Cmd
	in   *os.File
	mu   sync.Mutex
	cond *sync.Cond
	out  []byte
	n    int64 // bytes of output, also when they are not kept
	keep bool
	eof  bool
	err  bytes.Buffer
	done chan struct{}
	code int
	sig  int
}

func (c *Ctx) start(dir, util string, args []string, keep bool) *live {
	l := &live{c: c, keep: keep, done: make(chan struct{})}
	l.cond = sync.NewCond(&l.mu)
	ir, iw, err := os.Pipe()
	must(err)
	or, ow, err := os.Pipe()
	must(err)
	l.in = iw
	l.cmd = exec.Command(filepath.Join(c.Bin, util), args...)
	l.cmd.Dir = dir
	l.cmd.Env = baseEnv
	l.cmd.Stdin = ir
	l.cmd.Stdout = ow
	l.cmd.Stderr = &l.err
	l.cmd.WaitDelay = 5 * time.Second
	l.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	c.Count("processes", 1)
	must(l.cmd.Start())
	ir.Close()
	ow.Close()
	outDone := make(chan struct{})
	go func() {
		b := make([]byte, 1<<16)
		for {
			n, err := or.Read(b)
			l.mu.Lock()
			if l.keep {
				l.out = append(l.out, b[:n]...)
			}
			l.n += int64(n)
			if err != nil {
				l.eof = true
			}
			l.cond.Broadcast()
			l.mu.Unlock()
			if err != nil {
				break
			}
		}
		or.Close()
		close(outDone)
	}()
	go func() {
		l.cmd.Wait()
		<-outDone
		ws := l.cmd.ProcessState.Sys().(syscall.WaitStatus)
		l.code = ws.ExitStatus()
		if ws.Signaled() {
			l.code, l.sig = -1, int(ws.Signal())
		}
		close(l.done)
	}()
	return l
}

// await waits for n bytes of output in all.
func (l *live) await(n int64) bool {
	t := time.AfterFunc(patience, func() { l.mu.Lock(); l.cond.Broadcast(); l.mu.Unlock() })
	defer t.Stop()
	end := time.Now().Add(patience)
	l.mu.Lock()
	defer l.mu.Unlock()
	for l.n < n && !l.eof && time.Now().Before(end) {
		l.cond.Wait()
	}
	return l.n >= n
}

// ended waits for the end of the process.
func (l *live) ended() bool {
	select {
	case <-l.done:
		return true
	case <-time.After(patience):
		return false
	}
}

func (l *live) output() []byte {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.out
}

// kill ends the process in any case.
func (l *live) kill() {
	syscall.Kill(-l.cmd.Process.Pid, syscall.SIGKILL)
	l.in.Close()
	<-l.done
}

// send writes to the process's input; it may have ended already.
func send(f *os.File, b []byte) { f.Write(b) }

// peak is the most memory the process has had resident, in bytes.
func (l *live) peak() int64 {
	b, _ := os.ReadFile(sprintf("/proc/%d/status", l.cmd.Process.Pid))
	for _, x := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(x, "VmHWM:") {
			n, _ := strconv.ParseInt(strings.Fields(x)[1], 10, 64)
			return n << 10
		}
	}
	return 0
}

const (
	volumeBytes = 160 << 20
	memoryBound = 96 << 20
)

func (l *live) checkPeak(what string) {
	p := l.peak()
	if p == 0 {
		return
	}
	l.c.Count("volume", 1)
	if p > memoryBound {
		l.c.Fail("%s: %d MiB of memory after %d MiB of input", what, p>>20, volumeBytes>>20)
	}
}

// fifo makes a named pipe; opener opens it for writing when a reader comes.
func (c *Ctx) fifo(name string) string {
	p := filepath.Join(c.Dir(), name)
	must(syscall.Mkfifo(p, 0644))
	c.Count("fifos", 1)
	return p
}

// openFifo waits for a reader of the pipe.
func openFifo(p string) *os.File {
	end := time.Now().Add(patience)
	for time.Now().Before(end) {
		fd, err := syscall.Open(p, syscall.O_WRONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
		if err == nil {
			syscall.SetNonblock(fd, false)
			return os.NewFile(uintptr(fd), p)
		}
		if err != syscall.ENXIO && err != syscall.EINTR {
			must(err)
		}
		time.Sleep(500 * time.Microsecond)
	}
	return nil
}

// pieces cuts data into 1 to k pieces, none empty.
func pieces(r *rand.Rand, b []byte, k int) [][]byte {
	var out [][]byte
	for ; len(b) > 0 && k > 1; k-- {
		n := 1 + r.IntN(len(b))
		if oneIn(r, 3) {
			n = 1
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	if len(b) > 0 {
		out = append(out, b)
	}
	return out
}

// pour writes volumeBytes to every file at the same pace.
func pour(block []byte, fs ...*os.File) {
	for n := 0; n < volumeBytes; n += len(block) {
		for _, f := range fs {
			if _, err := f.Write(block); err != nil {
				return
			}
		}
	}
}

func runStream(c *Ctx) {
	volume := c.Idx%100 >= 97
	switch c.Idx % 4 {
	case 0:
		streamCat(c, volume || c.Idx%200 == 96)
	case 1:
		streamHead(c, volume)
	case 2:
		if c.Idx%400 == 98 {
			streamCmpList(c)
			return
		}
		streamCmp(c, volume)
	case 3:
		streamEd(c)
	}
}

func streamCat(c *Ctx, volume bool) {
	r := c.R
	dir := c.Dir()
	type src struct {
		data  []byte
		f     string // named pipe
		stdin bool
		live  bool
	}
	var srcs []src
	var args []string
	usedStdin := false
	for k := 1 + r.IntN(4); k > 0; k-- {
		d := blob(r, 1+size(r, 30000))
		switch x := r.IntN(4); {
		case x == 0 && !usedStdin:
			usedStdin = true
			srcs = append(srcs, src{data: d, stdin: true, live: true})
			args = append(args, "-")
		case x == 1:
			p := c.fifo("p" + strconv.Itoa(k))
			srcs = append(srcs, src{data: d, f: p, live: true})
			args = append(args, p)
		default:
			n := "f" + strconv.Itoa(k)
			c.write(n, d)
			srcs = append(srcs, src{data: d})
			args = append(args, n)
		}
	}
	if volume && oneIn(r, 2) {
		n := filepath.Join(dir, "big")
		f, err := os.Create(n)
		must(err)
		must(f.Truncate(volumeBytes))
		f.Close()
		srcs = append([]src{{data: nil, f: "big"}}, srcs...)
		args = append([]string{"big"}, args...)
	}
	if !usedStdin { // end on something that stays open
		srcs = append(srcs, src{data: blob(r, 1+size(r, 30000)), stdin: true, live: true})
		args = append(args, "-")
		if len(args) == 1 && oneIn(r, 2) {
			args = nil
		}
	}
	if oneIn(r, 3) {
		at := r.IntN(len(args) + 1)
		args = append(args[:at:at], append([]string{"-u"}, args[at:]...)...)
	}
	c.Desc("cat %q", args)
	c.Key("cat", args, len(srcs), volume)
	l := c.start(dir, "cat", args, !volume)
	defer l.kill()
	var want []byte
	var wantN int64
	for _, s := range srcs {
		if !s.live {
			if s.f == "big" {
				wantN += volumeBytes
			}
			want = append(want, s.data...)
			wantN += int64(len(s.data))
			continue
		}
		f := l.in
		if s.f != "" {
			if f = openFifo(s.f); f == nil {
				c.Fail("cat %q does not come to read %s", args, s.f)
				return
			}
		}
		if volume && oneIn(r, 2) {
			pour(bytes.Repeat([]byte("0123456789abcde\n"), 4096), f)
			wantN += volumeBytes
		}
		for _, b := range pieces(r, s.data, 1+r.IntN(6)) {
			send(f, b)
			want = append(want, b...)
			wantN += int64(len(b))
			if !l.await(wantN) {
				c.Fail("cat %q has written %d of %d bytes while it waits for more input", args, l.n, wantN)
				f.Close()
				return
			}
			c.Count("cat_pieces", 1)
		}
		if volume {
			l.checkPeak(sprintf("cat %q", args))
		}
		f.Close()
	}
	if !l.ended() {
		c.Fail("cat %q does not end at the end of its input", args)
		return
	}
	if l.code != 0 || (!volume && !bytes.Equal(l.output(), want)) || l.n != wantN {
		c.Fail("cat %q: exit %d, %d bytes; %s", args, l.code, l.n, show(l.output(), want))
	}
}

func streamHead(c *Ctx, volume bool) {
	r := c.R
	n := pick(r, 0, 1, 1, 2, 3, 10, 10, 40)
	var args []string
	if n != 10 || oneIn(r, 2) {
		args = append(args, "-n", strconv.Itoa(n))
	}
	if volume {
		n = volumeBytes >> 10
		args = []string{"-n", strconv.Itoa(n)}
	}
	var text []string
	if !volume {
		for k := 0; k < n; k++ {
			text = append(text, strings.ReplaceAll(string(blob(r, size(r, 300))), "\n", "~")+"\n")
		}
	}
	want := strings.Join(text, "")
	body := want
	if !volume && oneIn(r, 3) { // more than it needs is there at once
		body += string(blob(r, 1+size(r, 20000)))
	}
	var src string
	k := r.IntN(4)
	if n == 0 {
		k = 1 + 2*r.IntN(2)
	}
	switch k {
	case 0:
		src = c.fifo("p")
		args = append(args, "p")
	case 1:
		args = append(args, "-")
	case 2: // among others
		c.write("before", []byte("b\n"))
		c.write("after", []byte("a\n"))
		args = append(args, "before", "-", "after")
		want = "==> before <==\nb\n\n==> - <==\n" + want + "\n==> after <==\na\n"
	}
	c.Desc("head %q: %d lines", args, n)
	c.Key("head", args, body)
	l := c.start(c.Dir(), "head", args, !volume)
	defer l.kill()
	f := l.in
	if src != "" {
		if f = openFifo(src); f == nil {
			c.Fail("head %q does not come to read", args)
			return
		}
		defer f.Close()
	}
	if volume {
		// all lines but the last, which is awaited
		line := bytes.Repeat([]byte("x"), 1023)
		line = append(line, '\n')
		block := bytes.Repeat(line, 64)
		for k := 0; k+64 < n; k += 64 {
			if _, err := f.Write(block); err != nil {
				break
			}
		}
		f.Write(bytes.Repeat(line, 63))
		time.Sleep(50 * time.Millisecond)
		l.checkPeak(sprintf("head %q", args))
		f.Write(line)
	} else {
		for _, b := range pieces(r, []byte(body), 1+r.IntN(4)) {
			if _, err := f.Write(b); err != nil {
				break // it has what it needs
			}
			if oneIn(r, 3) {
				time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
			}
		}
	}
	if !l.ended() {
		c.Fail("head %q does not end after its %d lines while the input stays open", args, n)
		return
	}
	c.Count("head_ends", 1)
	if volume {
		if l.code != 0 {
			c.Fail("head %q: exit %d after %d bytes", args, l.code, l.n)
		}
		return
	}
	if l.code != 0 || string(l.output()) != want {
		c.Fail("head %q: exit %d; %s", args, l.code, show(l.output(), []byte(want)))
	}
}

func streamCmp(c *Ctx, volume bool) {
	r := c.R
	same := blob(r, size(r, 60000))
	a, b := byte(r.IntN(256)), byte(r.IntN(255))
	if b >= a {
		b++
	}
	restA, restB := blob(r, size(r, 3000)), blob(r, size(r, 3000))
	silent := oneIn(r, 3)
	first := append(append(append([]byte(nil), same...), a), restA...)
	second := append(append(append([]byte(nil), same...), b), restB...)
	block := bytes.Repeat([]byte("0123456789abcde\n"), 4096)
	off, line := len(same)+1, 1+bytes.Count(same, []byte("\n"))
	if volume {
		off += volumeBytes
		line += volumeBytes / 16
	}
	// one side or both are alive
	kind := r.IntN(3)
	n1, n2 := "-", "p"
	if volume {
		kind = 2
	}
	if oneIn(r, 2) {
		n1, n2 = n2, n1
	}
	switch kind {
	case 0: // standard input and a file
		c.write("p", pickSide(n1 == "p", first, second))
	case 1: // a pipe and a file
		n1, n2 = "p", "f"
		if oneIn(r, 2) {
			n1, n2 = n2, n1
		}
		c.write("f", pickSide(n1 == "f", first, second))
		c.fifo("p")
	case 2:
		c.fifo("p")
	}
	args := []string{n1, n2}
	if silent {
		args = append([]string{"-s"}, args...)
	}
	c.Desc("cmp %q: first difference at %d", args, off)
	c.Key("cmp", args, off, a, b)
	l := c.start(c.Dir(), "cmp", args, true)
	defer l.kill()
	feed := func(f *os.File, data []byte, wg *sync.WaitGroup) {
		defer wg.Done()
		f.Write(data)
	}
	var pipe *os.File
	if kind != 0 {
		if pipe = openFifo(filepath.Join(c.Dir(), "p")); pipe == nil {
			c.Fail("cmp %q does not come to read", args)
			return
		}
		defer pipe.Close()
	}
	if volume {
		pour(block, l.in, pipe)
		time.Sleep(50 * time.Millisecond)
		l.checkPeak(sprintf("cmp %q", args))
	}
	var wg sync.WaitGroup
	if kind != 1 {
		wg.Add(1)
		go feed(l.in, pickSide(n1 == "-", first, second), &wg)
	}
	if pipe != nil {
		wg.Add(1)
		go feed(pipe, pickSide(n1 == "p", first, second), &wg)
	}
	ok := l.ended()
	if !ok {
		syscall.Kill(-l.cmd.Process.Pid, syscall.SIGKILL)
	}
	wg.Wait()
	if !ok {
		c.Fail("cmp %q does not end after the first difference (byte %d) while its input stays open", args, off)
		return
	}
	c.Count("cmp_ends", 1)
	want := ""
	if !silent {
		want = sprintf("%s %s differ: char %d, line %d\n", n1, n2, off, line)
	}
	if l.code != 1 || string(l.output()) != want {
		c.Fail("cmp %q: exit %d, output %q, want exit 1 and %q", args, l.code, clip(string(l.output()), 300), want)
	}
}

// streamCmpList lists a great many differences.
func streamCmpList(c *Ctx) {
	r := c.R
	n := 5<<19 + r.IntN(1<<18)
	p := filepath.Join(c.Dir(), "f")
	f, err := os.Create(p)
	must(err)
	must(f.Truncate(int64(n) + 1<<20))
	f.Close()
	args := []string{"-l", "-", "f"}
	if oneIn(r, 2) {
		args = []string{"-l", "f", "-"}
	}
	c.Desc("cmp %q: %d differences", args, n)
	c.Key("cmp", args, n)
	l := c.start(c.Dir(), "cmp", args, false)
	defer l.kill()
	block := bytes.Repeat([]byte("0123456789abcde\n"), 4096)
	for k := 0; k < n; k += len(block) {
		if _, err := l.in.Write(block[:min(len(block), n-k)]); err != nil {
			break
		}
	}
	time.Sleep(50 * time.Millisecond)
	if m := l.peak(); m > 0 {
		c.Count("volume", 1)
		c.Count("listed", n)
		if m > memoryBound {
			c.Fail("cmp %q: %d MiB of memory after %d differences", args, m>>20, n)
		}
	}
}

func pickSide(first bool, a, b []byte) []byte {
	if first {
		return a
	}
	return b
}

// streamEd holds a dialogue with ed: every answer before the next command.
func streamEd(c *Ctx) {
	r := c.R
	var ls []string
	for k := 1 + r.IntN(8); k > 0; k-- {
		ls = append(ls, sprintf("line %d %s", k, strings.Repeat("x", r.IntN(20))))
	}
	c.write("f", []byte(strings.Join(ls, "\n")+"\n"))
	args := []string{}
	l := (*live)(nil)
	var log []string
	total := int64(0)
	say := func(cmd, ans string) bool {
		log = append(log, cmd)
		for _, b := range pieces(r, []byte(cmd+"\n"), 1+r.IntN(2)) {
			send(l.in, b)
		}
		want := ans + "\n"
		if !l.await(total + int64(len(want))) {
			c.Fail("ed has not answered %q; dialogue %q, output %q", cmd, log, clip(string(l.output()), 500))
			return false
		}
		got := string(l.output()[total:])
		total += int64(len(want))
		if got != want {
			c.Fail("ed answers %q to %q, want %q; dialogue %q", got, cmd, want, log)
			return false
		}
		c.Count("ed_answers", 1)
		return true
	}
	named := oneIn(r, 2)
	if named {
		args = []string{"f"}
	}
	c.Desc("ed %q, dialogue over %d lines", args, len(ls))
	l = c.start(c.Dir(), "ed", args, true)
	defer l.kill()
	if named {
		if !l.await(1) || string(l.output()) != "\n" {
			c.Fail("ed f: first answer %q", l.output())
			return
		}
		total = 1
	} else if !say("e f", "") {
		return
	}
	for k := 2 + r.IntN(10); k > 0; k-- {
		i := 1 + r.IntN(max(1, len(ls)))
		ok := true
		switch x := r.IntN(6); {
		case x == 0:
			t := sprintf("new %d", r.IntN(1000))
			ok = say(sprintf("%da\n%s\n.", i, t), "")
			ls = append(ls[:i:i], append([]string{t}, ls[i:]...)...)
		case x == 1 && len(ls) > 1:
			ok = say(sprintf("%dd", i), "")
			ls = append(ls[:i-1:i-1], ls[i:]...)
		case x == 2:
			ok = say("$=", strconv.Itoa(len(ls)))
		case x == 3:
			ok = say(sprintf("%d,$p", i), strings.Join(ls[i-1:], "\n"))
		default:
			ok = say(sprintf("%dp", i), ls[i-1])
		}
		if !ok {
			return
		}
	}
	if oneIn(r, 2) && !say("w", "") {
		return
	} else if b, _ := os.ReadFile(filepath.Join(c.Dir(), "f")); log[len(log)-1] == "w" && string(b) != strings.Join(ls, "\n")+"\n" {
		c.Fail("after the answer to w the file holds %q, want %q", clip(string(b), 400), clip(strings.Join(ls, "\n"), 400))
		return
	}
	c.Key("ed", log)
	if oneIn(r, 2) {
		io.WriteString(l.in, "q\n") // ends although the input stays open
	} else {
		l.in.Close()
	}
	if !l.ended() {
		c.Fail("ed does not end; dialogue %q", log)
		return
	}
	if l.code != 0 || l.n != total {
		c.Fail("ed: exit %d, further output %q; dialogue %q", l.code, clip(string(l.output()[min(total, l.n):]), 300), log)
	}
}

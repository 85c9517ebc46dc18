//go:build go1.22

package main

import (
	"bytes"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Cases with inputs of more than 2^32 bytes. They are made of holes or generated
// on the fly, and nothing of them is written to disk or kept in memory here.

const hugeSecs = 420

// marks are the places of a huge file that are not zero.
func (c *Ctx) hugeFile(name string, n int64) (path string, marks map[int64]byte) {
	path = filepath.Join(c.Dir(), name)
	f, err := os.Create(path)
	must(err)
	defer f.Close()
	must(f.Truncate(n))
	marks = map[int64]byte{}
	for _, at := range []int64{0, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, n - 1, c.R.Int64N(n), c.R.Int64N(n)} {
		if at < n {
			b := byte(1 + c.R.IntN(255))
			marks[at] = b
			_, err := f.WriteAt([]byte{b}, at)
			must(err)
		}
	}
	return path, marks
}

// start runs a command with what it needs of pipes; end waits for it.
func (c *Ctx) startHuge(name string, args []string, in io.Reader) (cmd *exec.Cmd, out io.ReadCloser, errb *bytes.Buffer) {
	cmd = exec.Command(filepath.Join(c.Bin, name), args...)
	cmd.Args[0] = name
	cmd.Dir = c.Dir()
	cmd.Env = baseEnv
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	errb = &bytes.Buffer{}
	cmd.Stderr = errb
	cmd.Stdin = in
	cmd.WaitDelay = 5 * time.Second
	pr, pw, err := os.Pipe()
	must(err)
	cmd.Stdout = pw
	c.Count("processes", 1)
	must(cmd.Start())
	pw.Close()
	return cmd, pr, errb
}

func status(cmd *exec.Cmd) (code, sig int) {
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		return -1, int(ws.Signal())
	}
	return ws.ExitStatus(), 0
}

// hugeCat: cat copies a file of more than 2^32 bytes.
func hugeCat(c *Ctx) {
	n := int64(1<<32 + 1 + c.R.IntN(100000))
	path, _ := c.hugeFile("huge", n)
	tail := []byte("the operand after it\n")
	c.write("tail", tail)
	stdin := c.R.IntN(2) == 0
	args := []string{"huge", "tail"}
	var in io.Reader
	if stdin {
		args[0] = "-"
		f, err := os.Open(path)
		must(err)
		defer f.Close()
		in = f
	}
	c.Desc("cat %q, %d bytes", args, n)
	c.Key(args, n)
	cmd, out, errb := c.startHuge("cat", args, in)
	timer := time.AfterFunc(hugeSecs*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	want := io.MultiReader(f, bytes.NewReader(tail))
	a, b := make([]byte, 1<<20), make([]byte, 1<<20)
	var at int64
	bad := ""
	for {
		k, err := io.ReadFull(out, a)
		l, _ := io.ReadFull(want, b)
		if !bytes.Equal(a[:k], b[:l]) {
			bad = sprintf("after %d bytes: %s", at, show(a[:k], b[:l]))
			break
		}
		at += int64(k)
		if err != nil {
			break
		}
	}
	out.Close()
	if bad != "" {
		cmd.Process.Kill()
	}
	cmd.Wait()
	if !timer.Stop() {
		c.Count("too_slow", 1)
		return
	}
	c.Count("huge", 1)
	c.Count("bytes", int(at))
	if bad != "" {
		c.Fail("wrong output %s", bad)
		return
	}
	if code, sig := status(cmd); code != 0 {
		c.Fail("exit=%d signal=%d stderr=%q", code, sig, clip(errb.String(), 500))
	}
}

// gfMul multiplies modulo the polynomial of cksum.
func gfMul(a, b uint32) uint32 {
	var p uint32
	for i := 31; i >= 0; i-- {
		top := p >> 31
		p <<= 1
		if top == 1 {
			p ^= 0x04c11db7
		}
		if b>>uint(i)&1 == 1 {
			p ^= a
		}
	}
	return p
}

// gfPow is x^n.
func gfPow(n uint64) uint32 {
	r, base := uint32(1), uint32(2)
	for ; n > 0; n >>= 1 {
		if n&1 == 1 {
			r = gfMul(r, base)
		}
		base = gfMul(base, base)
	}
	return r
}

// sparseCksum is the CRC of n bytes that are zero but for the marks: the sum of
// the contributions of each of them.
func sparseCksum(n int64, marks map[int64]byte) uint32 {
	var length []byte
	for k := n; k > 0; k >>= 8 {
		length = append(length, byte(k))
	}
	total := uint64(n) + uint64(len(length))
	var crc uint32
	add := func(at int64, b byte) {
		// b at position at of total, followed by four zero bytes
		crc ^= gfMul(uint32(b), gfPow(8*(total-uint64(at)-1)+32))
	}
	for at, b := range marks {
		add(at, b)
	}
	for i, b := range length {
		add(n+int64(i), b)
	}
	return ^crc
}

func memAvailable() int64 {
	b, _ := os.ReadFile("/proc/meminfo")
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == "MemAvailable:" {
			n, _ := strconv.ParseInt(f[1], 10, 64)
			return n << 10
		}
	}
	return 0
}

// hugeCksum: a file whose length takes more octets than 32 bits have. cksum may
// read it into memory, so the case needs some, and says nothing where it fails
// for want of it.
func hugeCksum(c *Ctx, n int64) {
	c.Desc("cksum of %d bytes", n)
	c.Key(n)
	if memAvailable() < 4*n {
		c.Count("no_memory", 1)
		c.Trivial()
		return
	}
	_, marks := c.hugeFile("huge", n)
	res := c.Exec(Cmd{Name: "cksum", Args: []string{"huge"}, Dir: c.Dir(), Secs: hugeSecs})
	if res.Hung || res.Sig == int(syscall.SIGKILL) || strings.Contains(string(res.Err), "out of memory") || strings.Contains(string(res.Err), "cannot allocate") {
		c.Count("no_memory", 1)
		return
	}
	c.Count("huge", 1)
	want := sprintf("%d %d huge\n", sparseCksum(n, marks), n)
	if string(res.Out) != want || res.Code != 0 {
		c.Fail("got %s, want %q", res, want)
	}
}

// repeat delivers n copies of b, then the rest.
type repeat struct {
	block []byte
	n     int64
	rest  []byte
}

func (p *repeat) WriteTo(w io.Writer) (total int64, err error) {
	for p.n > 0 {
		b := p.block
		if int64(len(b)) > p.n {
			b = b[:p.n]
		}
		k, err := w.Write(b)
		p.n -= int64(k)
		total += int64(k)
		if err != nil {
			return total, err
		}
	}
	k, err := w.Write(p.rest)
	return total + int64(k), err
}

func (p *repeat) Read(b []byte) (int, error) { panic("not used") }

// hugeCmp: the first difference lies more than n bytes and lines into the inputs.
func hugeCmp(c *Ctx, n int64) {
	n += int64(c.R.IntN(100000))
	fifo := filepath.Join(c.Dir(), "fifo")
	must(syscall.Mkfifo(fifo, 0644))
	block := bytes.Repeat([]byte{'\n'}, 1<<16)
	a, b := []byte("abc\n"), []byte("abd\n")
	line, char := n+1, n+3
	what := "differ"
	opt := ""
	if c.Idx > 0 {
		if oneIn(c.R, 3) {
			a, b = []byte("abc\n"), []byte("abc")
			what = "prefix"
		}
		opt = pick(c.R, "", "-l")
	}
	args := []string{"fifo", "-"}
	if opt != "" {
		args = []string{opt, "fifo", "-"}
	}
	c.Desc("cmp %q, first difference (%s) at byte %d, line %d", args, what, char, line)
	c.Key(args, n, what)
	pr, pw, err := os.Pipe()
	must(err)
	syscall.Syscall(syscall.SYS_FCNTL, pw.Fd(), 1031 /* F_SETPIPE_SZ */, 1<<20)
	cmd, out, errb := c.startHuge("cmp", args, pr)
	pr.Close()
	timer := time.AfterFunc(hugeSecs*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	ended := make(chan bool)
	feed := func(open func() (*os.File, error), rest []byte) {
		w, err := open()
		if err == nil {
			(&repeat{block: block, n: n, rest: rest}).WriteTo(w)
			w.Close()
		}
		ended <- true
	}
	go feed(func() (*os.File, error) { return pw, nil }, b)
	go feed(func() (*os.File, error) {
		f, err := os.OpenFile(fifo, os.O_RDWR, 0) // so that no open waits
		if err != nil {
			return nil, err
		}
		defer f.Close()
		w, err := os.OpenFile(fifo, os.O_WRONLY, 0)
		if err == nil {
			syscall.Syscall(syscall.SYS_FCNTL, w.Fd(), 1031, 1<<20)
			// wait until the utility has opened its end
			for k := 0; k < 3000; k++ {
				if fd, err := os.ReadDir(sprintf("/proc/%d/fd", cmd.Process.Pid)); err == nil {
					there := false
					for _, e := range fd {
						l, _ := os.Readlink(sprintf("/proc/%d/fd/%s", cmd.Process.Pid, e.Name()))
						there = there || l == fifo
					}
					if there {
						break
					}
				}
				time.Sleep(10 * time.Millisecond)
			}
		}
		return w, err
	}, a)
	got, _ := io.ReadAll(out)
	cmd.Wait()
	out.Close()
	slow := !timer.Stop()
	// let a feeder that still waits go
	if f, err := os.OpenFile(fifo, os.O_RDWR|syscall.O_NONBLOCK, 0); err == nil {
		f.Close()
	}
	<-ended
	<-ended
	if slow {
		c.Count("too_slow", 1)
		return
	}
	c.Count("huge", 1)
	code, sig := status(cmd)
	want := ""
	wantErr := ""
	switch {
	case what == "prefix":
		wantErr = "EOF on -"
	case opt == "-l":
		want = sprintf("%d 143 144\n", char)
	default:
		want = sprintf("fifo - differ: char %d, line %d\n", char, line)
	}
	if code != 1 || string(got) != want || !strings.Contains(errb.String(), wantErr) {
		c.Fail("exit=%d signal=%d stdout=%q stderr=%q; want exit 1, stdout %q, stderr with %q", code, sig, clip(string(got), 500), clip(errb.String(), 500), want, wantErr)
	}
}

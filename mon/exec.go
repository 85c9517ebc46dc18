//go:build go1.22

package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// reCall splits a line of a system call log.
var reCall = regexp.MustCompile(`^(\d+)\s+(\w+)\(`)

func sprintf(f string, a ...any) string { return fmt.Sprintf(f, a...) }

// Res is what was observed of a process.
type Res struct {
	Out, Err []byte
	Code     int // exit status, or -1
	Sig      int // signal that ended it, or 0
	Hung     bool
}

func (r Res) String() string {
	return sprintf("exit=%d signal=%d stdout=%q stderr=%q", r.Code, r.Sig, clip(string(r.Out), 400), clip(string(r.Err), 400))
}

// Cmd describes a process to run.
type Cmd struct {
	Name   string
	Args   []string
	Stdin  []byte
	StdinR io.Reader // instead of Stdin; *os.File is passed as is
	Stdout *os.File  // instead of capturing
	Env    []string
	Dir    string
	Fsize  int64 // RLIMIT_FSIZE if > 0
	Uid    int
	Bin    string // instead of Name in the directory of the utilities
	Secs   int
}

var baseEnv = []string{"PATH=/usr/bin:/bin", "GOMAXPROCS=2", "GOTRACEBACK=single"}

// someEnv draws an environment: nothing in it may matter to the utilities.
func (c *Ctx) someEnv() []string {
	h := mix(mix(c.Seed) ^ uint64(c.Idx))
	if h%2 == 0 {
		return baseEnv
	}
	env := baseEnv[:len(baseEnv):len(baseEnv)]
	for i, s := range []string{"LC_ALL=C", "LC_ALL=en_US.UTF-8", "LC_ALL=tr_TR.ISO-8859-9", "LANG=de_DE", "LC_CTYPE=C.UTF-8", "LC_MESSAGES=fr_FR", "LC_COLLATE=POSIX",
		"POSIXLY_CORRECT=1", "COLUMNS=20", "LINES=5", "TERM=xterm", "TERM=dumb", "NO_COLOR=1", "HOME=/nonexistent", "SHELL=/bin/false", "PAGER=cat", "EDITOR=vi",
		"TZ=Asia/Tokyo", "USER=nobody", "DEBUG=1", "VERBOSE=1", "CI=true", "PWD=/", "OLDPWD=/tmp", "BLOCKSIZE=512", "_POSIX2_VERSION=199209", "CKSUM=1", "ED=x", "HEAD=3", "DIFF_OPTIONS=-u"} {
		if h>>(8+uint(i))&3 == 0 {
			env = append(env, s)
		}
	}
	return env
}

// Exec runs a utility built from /repo and observes it.
func (c *Ctx) Exec(x Cmd) Res {
	path := x.Bin
	if path == "" {
		path = filepath.Join(c.Bin, x.Name)
	}
	args := x.Args
	if x.Fsize > 0 {
		args = append([]string{"-helper", "limit", strconv.FormatInt(x.Fsize, 10), path}, args...)
		path = c.Self
	}
	secs := x.Secs
	if secs == 0 {
		secs = 60
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, path, args...)
	if x.Fsize == 0 {
		cmd.Args[0] = x.Name
	}
	cmd.Dir = x.Dir
	cmd.Env = c.someEnv()
	if x.Env != nil {
		cmd.Env = x.Env
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if x.Uid > 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(x.Uid), Gid: uint32(x.Uid)}
	}
	if x.StdinR != nil {
		cmd.Stdin = x.StdinR
	} else {
		cmd.Stdin = bytes.NewReader(x.Stdin)
	}
	var out, errb bytes.Buffer
	if x.Stdout != nil {
		cmd.Stdout = x.Stdout
	} else {
		cmd.Stdout = &out
	}
	cmd.Stderr = &errb
	cmd.WaitDelay = 5 * time.Second
	c.Count("processes", 1)
	err := cmd.Run()
	res := Res{Out: out.Bytes(), Err: errb.Bytes()}
	if ctx.Err() != nil {
		res.Hung = true
		res.Code = -1
		return res
	}
	if cmd.ProcessState == nil {
		panic(harnessError{err})
	}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		res.Sig, res.Code = int(ws.Signal()), -1
	} else {
		res.Code = ws.ExitStatus()
	}
	return res
}

// crashed tells whether a utility died of a Go runtime failure rather than
// reporting an error.
func (r Res) runtimeFailure() bool {
	e := string(r.Err)
	return strings.Contains(e, "\ngoroutine ") && (strings.Contains(e, "runtime error") || strings.Contains(e, "fatal error"))
}

func init() {
	helpers["limit"] = func(args []string) {
		n, _ := strconv.ParseUint(args[0], 10, 64)
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}))
		must(syscall.Exec(args[1], append([]string{filepath.Base(args[1])}, args[2:]...), os.Environ()))
	}
}

// write creates a file of the case.
func (c *Ctx) write(name string, data []byte) string {
	p := filepath.Join(c.Dir(), name)
	must(os.WriteFile(p, data, 0644))
	return p
}

// Run is Exec for commands that must end.
func (c *Ctx) Run(x Cmd) Res {
	r := c.Exec(x)
	if r.Hung {
		c.Fail("%s %q did not end", x.Name, x.Args)
	}
	return r
}

// chunks is a reader that delivers data in pieces.
type chunks struct {
	data []byte
	n    []int
	i    int
}

func (k *chunks) Read(p []byte) (int, error) {
	if len(k.data) == 0 {
		return 0, io.EOF
	}
	n := k.n[k.i%len(k.n)]
	k.i++
	if n > len(p) {
		n = len(p)
	}
	if n > len(k.data) {
		n = len(k.data)
	}
	copy(p, k.data[:n])
	k.data = k.data[n:]
	return n, nil
}

func (c *Ctx) chunked(data []byte) io.Reader {
	lo := 1 + len(data)/100
	return &chunks{data: data, n: []int{lo + c.R.IntN(50), lo + c.R.IntN(5000), lo + c.R.IntN(200)}}
}

// given delivers data as a utility's standard input: through a pipe in pieces,
// or as a file of which somebody may have read a part.
func (c *Ctx) given(data []byte) io.Reader {
	if !oneIn(c.R, 3) {
		return c.chunked(data)
	}
	if len(data) == 0 && oneIn(c.R, 3) {
		return c.fileAt("/dev/null", 0)
	}
	skip := []byte(nil)
	if oneIn(c.R, 2) {
		skip = blob(c.R, size(c.R, 5000))
	}
	p := filepath.Join(c.Scratch, "stdin")
	must(os.WriteFile(p, append(skip[:len(skip):len(skip)], data...), 0644))
	return c.fileAt(p, len(skip))
}

// fileAt opens a file, for the rest of the case, and goes to a place in it.
func (c *Ctx) fileAt(p string, at int) *os.File {
	f, err := os.Open(p)
	must(err)
	c.closers = append(c.closers, f)
	_, err = f.Seek(int64(at), 0)
	must(err)
	return f
}

// procFile is a file whose size is not known beforehand.
func procFile(r *rand.Rand) (name string, data []byte) {
	name = pick(r, "/proc/version", "/proc/filesystems")
	data, err := os.ReadFile(name)
	if err != nil {
		return "/dev/null", nil
	}
	return name, data
}

var straceThere = func() bool { _, err := os.Stat("/usr/bin/strace"); return err == nil }()

// longSize is the length of a very long line for the first few cases of a run,
// on both sides of limits that a reader of lines may have.
func (c *Ctx) longSize(cases ...int) (n int) {
	for i, idx := range cases {
		if c.Idx == idx {
			n = []int{1<<24 + 1, 1<<25 + 1, 1<<22 + 1, 1<<20 + 1}[i]
		}
	}
	if n > 0 {
		n += c.R.IntN(100000)
		c.Count("very_long", 1)
	}
	return n
}

func longText(c *Ctx, n int) string {
	s := pick(c.R, "x", "long text,", "é", "0123456789abcdef")
	b := []byte(strings.Repeat(s, n/len(s)+1))
	for k := c.R.IntN(5); k > 0; k-- {
		b[c.R.IntN(len(b)/2)*len(s)%len(b)] = '!'
	}
	return strings.ToValidUTF8(string(b), "?")
}

//go:build go1.22

package main

import (
	"bufio"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// targetPy is a process that records every signal it gets: it blocks all of
// them and takes them one at a time. Signal 64 is the observer's mark.
const targetPy = `
import os, signal, sys
every = set(signal.valid_signals()) - {signal.SIGKILL, signal.SIGSTOP}
signal.pthread_sigmask(signal.SIG_BLOCK, every)
parent = os.getppid()
os.write(1, b"ready\n")
while True:
    s = signal.sigtimedwait(every, 1)
    if s is None:
        if os.getppid() != parent:
            sys.exit(0)
        continue
    os.write(1, b"%d %d\n" % (s.si_signo, s.si_pid))
`

func init() {
	register(&Prop{ID: "C06", Level: "exploration", Quick: 12000, Thorough: 120000, Root: true,
		Rule:      "a real process of an unprivileged user sends a signal chosen by every spelling (default, -s NAME in any case, -NUMBER 1-31 and real-time) to any subset, in any order, of processes that record every signal they get (five, or a crowd of seventy), with bystanders, processes that are gone and processes of another user among or beside the operands, and malformed signals and operands at every place; what each process received is compared with what was asked, and every 16th run is also traced, counting the sending system calls; non-trivial: every case",
		MinEvents: []string{"delivered", "bystanders_quiet", "killed", "rejected", "gone", "forbidden", "traced", "signal0", "crowd"},
		Setup:     setupKill, Run: runKill})
}

type target struct {
	cmd *exec.Cmd
	out *bufio.Reader
	pid int
}

type killState struct {
	uid     int
	targets []*target
	crowd   []*target // started when first used
	foreign *target
}

func startTarget(uid int) *target { return startTargets(1, uid)[0] }

// startTargets starts processes as fast as it can, so that the numbers of some
// of them are next to each other.
func startTargets(n, uid int) (ts []*target) {
	for len(ts) < n {
		cmd := exec.Command("/usr/bin/python3", "-S", "-E", "-c", targetPy)
		cmd.Env = []string{"PATH=/usr/bin:/bin"}
		cmd.Dir = "/"
		cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Credential: &syscall.Credential{Uid: uint32(uid), Gid: uint32(uid)}}
		p, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		ts = append(ts, &target{cmd: cmd, out: bufio.NewReader(p), pid: cmd.Process.Pid})
	}
	for _, t := range ts {
		l, err := t.out.ReadString('\n')
		must(err)
		if l != "ready\n" {
			panic(harnessError{os.ErrInvalid})
		}
	}
	return ts
}

func setupKill(w *W) {
	s := &killState{uid: 54400 + w.Index}
	s.targets = startTargets(5, s.uid)
	s.foreign = startTarget(54500 + w.Index)
	w.State = s
}

// received returns the signals that arrived since the last call, and whether
// the process was ended and by which signal.
func (t *target) received() (got []int, dead bool, sig int) {
	err := syscall.Kill(t.pid, syscall.Signal(64))
	if err != nil && err != syscall.ESRCH {
		panic(harnessError{err})
	}
	for {
		l, err := t.out.ReadString('\n')
		if err != nil {
			break
		}
		n, err := strconv.Atoi(strings.Fields(l)[0])
		must(err)
		if n == 64 {
			return got, false, 0
		}
		got = append(got, n)
	}
	t.cmd.Wait()
	ws := t.cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		return got, true, int(ws.Signal())
	}
	return got, true, -1
}

// wrapped is a number that the system's type for process IDs cannot hold.
func wrapped(pid string) string {
	n, err := strconv.ParseInt(pid, 10, 64)
	must(err)
	return strconv.FormatInt(n+1<<32, 10)
}

var killNames = []string{"0", "HUP", "INT", "QUIT", "ABRT", "KILL", "ALRM", "TERM"}
var killNums = []int{0, 1, 2, 3, 6, 9, 14, 15}

func runKill(c *Ctx) {
	r := c.R
	s := c.State.(*killState)
	sig := 15
	var args []string
	switch r.IntN(5) {
	case 0:
	case 1, 2:
		k := r.IntN(len(killNames))
		sig = killNums[k]
		name := killNames[k]
		switch r.IntN(3) {
		case 0:
			name = strings.ToLower(name)
		case 1:
			b := []byte(name)
			for i := range b {
				if oneIn(r, 2) {
					b[i] = strings.ToLower(string(b[i]))[0]
				}
			}
			name = string(b)
		}
		args = []string{"-s", name}
	default:
		for {
			sig = r.IntN(32)
			if oneIn(r, 8) {
				sig = 34 + r.IntN(30)
			}
			if sig == 19 || sig == 9 && !oneIn(r, 3) {
				continue // stopping is not observable by the stopped
			}
			break
		}
		args = []string{"-" + pick(r, "", "", "", "", "", "0", "00") + strconv.Itoa(sig)}
	}
	// operands
	targets := s.targets
	crowd := c.Idx%48 < 8 && c.Index < 4 && sig != 9
	if crowd {
		if s.crowd == nil {
			s.crowd = startTargets(70, s.uid)
		}
		for i, t := range s.crowd {
			for _, o := range s.crowd[:i] {
				if t.pid/10 == o.pid/10 {
					c.Count("close_numbers", 1)
				}
			}
		}
		targets = s.crowd
		c.Count("crowd", 1)
	}
	named := map[int]bool{}
	var ops []string
	for _, i := range r.Perm(len(targets))[:1+r.IntN(len(targets))] {
		if len(ops) > 0 && oneIn(r, 4) && !crowd {
			break
		}
		named[i] = true
		ops = append(ops, pick(r, "", "", "", "", "", "", "", "0", "00")+strconv.Itoa(targets[i].pid))
	}
	insert := func(x string) {
		k := r.IntN(len(ops) + 1)
		ops = append(ops[:k], append([]string{x}, ops[k:]...)...)
	}
	wantOK, invalid := true, false
	switch r.IntN(10) {
	case 0: // a process that is gone
		wantOK = false
		insert(pick(r, "99999999", "2147483647", "88888888"))
		c.Count("gone", 1)
	case 1: // somebody else's
		wantOK = false
		insert(strconv.Itoa(s.foreign.pid))
		c.Count("forbidden", 1)
	case 2: // not a process ID
		wantOK, invalid = false, true
		first := ops[0]
		insert(pick(r, "", "", "abc", first+"x", first+".0", "x"+first, first+" ", " "+first, "0x"+first, first+","+first, "99999999999999999999999", wrapped(first), wrapped(first), "%1", "1e3", "٣", first+"\n"))
	case 3: // not a signal
		wantOK, invalid = false, true
		switch r.IntN(3) {
		case 0:
			args = []string{"-s", pick(r, "FOO", "", "SIGTERM", "SIGKILL", "sighup", "SIG0", "USR1", "CHLD", "STOP", "9", "15", "1", "00", "+0", "K1LL", "TERM,HUP", "TERM\n", "TER", "TERMX", "T", " TERM", "TERM ", "USR", "-1", "1.0", "SIGNAL", "KILLALL", "HU", "99", "١")}
		case 1:
			args = []string{"-" + pick(r, "999", "65", "1000000", "99999999999999999999", "x", "TERMx", "15x", "1.5", "-5", "1 ", "0x9", "2147483662", "4294967311", "4294967297", "18446744073709551631")}
		case 2:
			args = []string{}
			ops = append(ops, "-s") // no name
		}
	case 4: // nobody
		if oneIn(r, 3) {
			wantOK, invalid = false, true
			ops = nil
			if oneIn(r, 3) {
				args = []string{pick(r, "", "-", "--", "-s")}
			}
		}
	}
	if invalid {
		named = map[int]bool{}
	}
	if sig == 0 {
		c.Count("signal0", 1)
	}
	all := append(append([]string(nil), args...), ops...)
	if !invalid && len(args) > 0 && oneIn(r, 5) { // the option among or after the operands
		k := r.IntN(len(ops) + 1)
		all = append(append(append([]string(nil), ops[:k]...), args...), ops[k:]...)
		c.Count("option_later", 1)
	}
	cmd := Cmd{Name: "kill", Args: all, Dir: "/", Uid: s.uid}
	trace := straceThere && c.Idx%16 < 1
	log := ""
	if trace {
		d := c.Dir()
		must(os.Chmod(d, 0777))
		log = filepath.Join(d, "log")
		cmd.Bin = "/usr/bin/strace"
		cmd.Args = append([]string{"-f", "-qq", "-o", log, "-e", "trace=kill,tkill,tgkill,rt_sigqueueinfo,rt_tgsigqueueinfo,pidfd_send_signal,pidfd_open,execve", filepath.Join(c.Bin, "kill")}, all...)
		c.Count("traced", 1)
	}
	c.Key(args, len(ops), named, wantOK, invalid, sprintf("%d", c.Idx))
	c.Desc("kill %q", all)
	res := c.Run(cmd)
	if res.Hung {
		return
	}
	what := sprintf("kill %q (%s)", all, res)
	if wantOK != (res.Code == 0) {
		c.Fail("%s: wrong exit status", what)
	}
	if res.runtimeFailure() || res.Sig != 0 {
		c.Fail("%s: it crashed", what)
	}
	if res.Code != 0 && len(res.Err) == 0 {
		c.Fail("%s: no diagnostic", what)
	}
	// what did everybody get?
	for i, t := range targets {
		got, dead, by := t.received()
		want := named[i] && sig != 0
		switch {
		case dead:
			if want && sig == 9 && by == 9 && len(got) == 0 {
				c.Count("killed", 1)
			} else {
				c.Fail("%s: process %d was ended by signal %d after signals %v; it is named: %v", what, t.pid, by, got, named[i])
			}
			targets[i] = startTarget(s.uid)
		case want && sig != 9 && len(got) == 1 && got[0] == sig:
			c.Count("delivered", 1)
		case !want && len(got) == 0:
			if !named[i] {
				c.Count("bystanders_quiet", 1)
			}
		default:
			c.Fail("%s: process %d got signals %v; it is named: %v", what, t.pid, got, named[i])
		}
	}
	if got, dead, by := s.foreign.received(); dead || len(got) > 0 {
		c.Fail("%s: another user's process got signals %v, ended %v by %d", what, got, dead, by)
		if dead {
			s.foreign = startTarget(54500 + c.Index)
		}
	}
	if invalid {
		c.Count("rejected", 1)
	}
	if trace {
		c.checkKillTrace(log, what, ops, sig, invalid)
	}
}

var (
	reKill   = regexp.MustCompile(`^(\d+)\s+(kill|tkill|rt_sigqueueinfo)\((-?\d+), (\w+)`)
	reTgkill = regexp.MustCompile(`^(\d+)\s+(tgkill|rt_tgsigqueueinfo)\((\d+), (\d+), (\w+)`)
	reOpen   = regexp.MustCompile(`^(\d+)\s+pidfd_open\((\d+), [^)]*\)\s*=\s*(\d+)`)
	reSend   = regexp.MustCompile(`^(\d+)\s+pidfd_send_signal\((\d+)(?:<[^>]*>)?, (\w+)`)
	reExec   = regexp.MustCompile(`^(\d+)\s+execve\(.* = 0`)
)

// checkKillTrace counts the signals sent, by the system calls that sent them.
func (c *Ctx) checkKillTrace(log, what string, ops []string, sig int, invalid bool) {
	deadline := time.Now().Add(2 * time.Second)
	b, err := os.ReadFile(log)
	for err != nil && time.Now().Before(deadline) {
		b, err = os.ReadFile(log)
	}
	must(err)
	self := ""
	fds := map[string]string{}
	sent := map[string]int{}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, " = -1 ") || strings.Contains(l, "<unfinished") && invalid {
			continue
		}
		if x := reExec.FindStringSubmatch(l); x != nil {
			self = x[1]
		} else if x := reOpen.FindStringSubmatch(l); x != nil {
			fds[x[3]] = x[2]
		} else if x := reSend.FindStringSubmatch(l); x != nil {
			if x[3] != "0" {
				sent[fds[x[2]]]++
			}
		} else if x := reKill.FindStringSubmatch(l); x != nil {
			if x[4] != "0" {
				sent[x[3]]++
			}
		} else if x := reTgkill.FindStringSubmatch(l); x != nil {
			if x[5] != "0" {
				sent[x[3]]++
			}
		}
	}
	delete(sent, self) // the runtime's own
	delete(sent, "")   // through a descriptor opened elsewhere
	if invalid || sig == 0 {
		if len(sent) > 0 {
			c.Fail("%s: signals were sent: %v", what, sent)
		}
		return
	}
	for _, op := range ops {
		op = strings.TrimLeft(op, "0")
		if sent[op] > 1 {
			c.Fail("%s: %d signals were sent to %s", what, sent[op], op)
		}
		delete(sent, op)
	}
	if len(sent) > 0 {
		c.Fail("%s: signals were sent to others: %v", what, sent)
	}
}

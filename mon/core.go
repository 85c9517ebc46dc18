//go:build go1.22

// Package main is the runtime monitor: a master that splits a fixed,
// seed-determined list of cases over worker processes, and workers that run the
// code of /repo on each case while an oracle watches. See DESIGN.md.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one property's monitor.
type Prop struct {
	ID       string
	Level    string // exploration or fault_enumeration
	Rule     string
	Quick    int // number of cases
	Thorough int
	Root     bool // workers stay root (they drop privileges for what they start)
	Workers  int  // 0: one per core
	Stall    int  // seconds after which a case counts as stuck, 0: 90
	// Setup runs once in every worker.
	Setup func(w *W)
	// Run runs and judges case c.
	Run func(c *Ctx)
	// MinEvents are counters that must not be zero at the end of a run.
	MinEvents []string
	Assume    []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// W is the state of a worker.
type W struct {
	Prop    *Prop
	Seed    uint64
	Tier    string
	Bin     string // directory with the utilities built from /repo
	Scratch string // this worker's scratch directory
	Self    string
	Index   int
	State   any
}

// Ctx is one case.
type Ctx struct {
	*W
	Idx         int
	R           *rand.Rand
	dir         string
	hash        uint64
	trivial     bool
	failed      bool
	logs        []string
	out         *msgWriter
	counts      map[string]int64
	desc        string
	closers     []io.Closer
	began       time.Time
	again, late bool
}

// message types from worker to master
type msg struct {
	T      string           `json:"t"` // v: violation, s: statistics, d: done
	Idx    int              `json:"idx"`
	Text   string           `json:"text,omitempty"`
	Key    string           `json:"key,omitempty"`
	Counts map[string]int64 `json:"counts,omitempty"`
	Hashes []uint64         `json:"hashes,omitempty"`
	Evals  int              `json:"evals,omitempty"`
	Desc   string           `json:"desc,omitempty"`
}

type msgWriter struct {
	mu sync.Mutex
	w  *bufio.Writer
}

func (m *msgWriter) send(x msg) {
	m.mu.Lock()
	defer m.mu.Unlock()
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	m.w.Write(b)
	m.w.WriteByte('\n')
	m.w.Flush()
}

// Count counts monitored events.
func (c *Ctx) Count(name string, n int) { c.counts[name] += int64(n) }

// Key identifies the case, for counting distinct ones.
func (c *Ctx) Key(parts ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d", c.hash)
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case []byte:
			h.Write(v)
		default:
			fmt.Fprintf(h, "%#v", v)
		}
		h.Write([]byte{0, 1})
	}
	c.hash = h.Sum64()
}

// Trivial marks the case as one that exercises nothing.
func (c *Ctx) Trivial() { c.trivial = true }

// Desc describes the case for samples and reports.
func (c *Ctx) Desc(format string, args ...any) { c.desc = clip(fmt.Sprintf(format, args...), 1500) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + fmt.Sprintf(" …[%d bytes]… ", len(s)-n) + s[len(s)-n/2:]
	}
	return s
}

// Fail records a violation of the property by this case.
func (c *Ctx) Fail(format string, args ...any) {
	c.FailKey("", format, args...)
}

// FailKey records a violation that has a stable name of its own.
func (c *Ctx) FailKey(key, format string, args ...any) {
	if c.failed && key == "" {
		return
	}
	c.failed = true
	m := msg{T: "v", Idx: c.Idx, Key: key, Text: clip(fmt.Sprintf(format, args...), 6000), Desc: c.desc}
	if !c.again && !reran && time.Since(c.began) > lateAfter {
		c.late = true
		return
	}
	c.out.send(m)
}

// A case that fails only after a long time may have met a machine that stood
// still. The first such case of a worker is run again from its start, and the
// second run decides; a second one is believed at once.
const lateAfter = 20 * time.Second

var reran bool

// secondRun marks the number of a case that is being run again.
const secondRun = 1 << 62

// Dir returns the case's own empty directory.
func (c *Ctx) Dir() string {
	if c.dir == "" {
		c.dir = filepath.Join(c.Scratch, "case")
		if err := os.Mkdir(c.dir, 0755); err != nil {
			panic(harnessError{err})
		}
	}
	return c.dir
}

type harnessError struct{ err error }

func (h harnessError) Error() string { return "harness: " + h.err.Error() }

func must(err error) {
	if err != nil {
		panic(harnessError{err})
	}
}

// Catch runs f and returns the panic it ended with, if any.
func Catch(f func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			p = r
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func newRand(seed uint64, prop string, idx int) *rand.Rand {
	h := fnv.New64a()
	io.WriteString(h, prop)
	a := mix(seed ^ h.Sum64())
	return rand.New(rand.NewPCG(a, mix(a^uint64(idx))))
}

// removeAll removes a scratch directory even if a case made parts of it
// unreadable.
func removeAll(dir string) {
	if os.RemoveAll(dir) == nil {
		return
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if fi != nil && fi.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(dir)
}

func workerMain(p *Prop, w *W, from, to, step int, cur string) {
	syscall.Umask(022)
	syscall.CloseOnExec(3)
	curF, err := os.OpenFile(cur, os.O_RDWR|os.O_CREATE, 0644)
	must(err)
	out := &msgWriter{w: bufio.NewWriterSize(os.NewFile(3, "msgs"), 1<<16)}
	var b [8]byte
	if p.Setup != nil {
		p.Setup(w)
	}
	seen := map[uint64]bool{}
	counts := map[string]int64{}
	evals := 0
	flush := func() {
		m := msg{T: "s", Counts: counts, Evals: evals}
		for h := range seen {
			m.Hashes = append(m.Hashes, h)
		}
		out.send(m)
		seen, counts, evals = map[uint64]bool{}, map[string]int64{}, 0
	}
	for i := from; i < to; i += step {
		binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
		curF.WriteAt(b[:], 0)
		run := func(again bool) *Ctx {
			c := &Ctx{W: w, Idx: i, R: newRand(w.Seed, p.ID, i), out: out, counts: counts, hash: 14695981039346656037, began: time.Now(), again: again}
			p.Run(c)
			if d := time.Since(c.began); d > slowCase {
				slowCase = d
				out.send(msg{T: "slow", Idx: i, Text: d.String()})
			}
			for _, f := range c.closers {
				f.Close()
			}
			c.closers = nil
			if c.dir != "" {
				removeAll(c.dir)
				c.dir = ""
			}
			return c
		}
		c := run(false)
		if c.late {
			reran = true
			binary.LittleEndian.PutUint64(b[:], uint64(i)+1|secondRun)
			curF.WriteAt(b[:], 0)
			counts["run_again"]++
			c = run(true)
		}
		evals++
		if !c.trivial {
			seen[c.hash] = true
		}
		if c.desc != "" && (i < 3 || i%997 == 1) {
			out.send(msg{T: "sample", Idx: i, Desc: c.desc})
		}
		if evals >= 500 {
			flush()
		}
	}
	flush()
	out.send(msg{T: "d"})
}

var slowCase = 2 * time.Second

type violation struct {
	Property string `json:"property"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Case     int    `json:"case"`
	Key      string `json:"key,omitempty"`
	What     string `json:"what"`
	Desc     string `json:"case_description"`
	Replay   string `json:"replay"`
}

type known struct {
	Status   string `json:"status"`
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

var repoFrame = regexp.MustCompile(`github\.com/fwip/posix-utils/(pkg|cmd)/|/repo/(pkg|cmd)/`)

type master struct {
	p        *Prop
	w        *W
	mu       sync.Mutex
	viol     []violation
	seen     map[uint64]bool
	counts   map[string]int64
	evals    int
	samples  []string
	incon    []string
	hardErr  []string
	slow     []string
	stop     int32
	uid      int
	tmp      string
	oneCase  bool
	stallFor time.Duration
}

func (m *master) violate(v violation) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.viol = append(m.viol, v)
	n := 0
	for _, x := range m.viol {
		if x.Key == "" {
			n++
		}
	}
	if n >= 8 {
		atomic.StoreInt32(&m.stop, 1)
	}
}

type tailBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if len(t.head) < 1<<16 {
		k := (1 << 16) - len(t.head)
		if k > len(p) {
			k = len(p)
		}
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > 1<<17 {
		t.tail = append([]byte(nil), t.tail[len(t.tail)-(1<<16):]...)
	}
	return n, nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.tail)
}

// run one worker over from, from+step, ... until it ends; returns the case it
// was at if it did not finish, or -1.
func (m *master) worker(slot, from, to, step int) (at int, how string, stderr string) {
	scratch := filepath.Join(m.tmp, fmt.Sprintf("w%d", slot))
	removeAll(scratch)
	must(os.Mkdir(scratch, 0755))
	if m.uid > 0 {
		must(os.Chown(scratch, m.uid, m.uid))
	}
	cur := filepath.Join(m.tmp, fmt.Sprintf("cur%d", slot))
	os.Remove(cur)
	f, err := os.Create(cur)
	must(err)
	f.Chmod(0666)
	f.Close()
	cmd := exec.Command(m.w.Self, "-worker", "-prop", m.p.ID, "-tier", m.w.Tier, "-seed", strconv.FormatUint(m.w.Seed, 10),
		"-bin", m.w.Bin, "-scratch", scratch, "-from", strconv.Itoa(from), "-to", strconv.Itoa(to), "-step", strconv.Itoa(step), "-cur", cur, "-slot", strconv.Itoa(slot))
	cmd.Dir = scratch
	pr, pw, err := os.Pipe()
	must(err)
	cmd.ExtraFiles = []*os.File{pw}
	var tb tailBuf
	cmd.Stderr = &tb
	cmd.WaitDelay = 10 * time.Second
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C", "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "TMPDIR=" + scratch, "GOMEMLIMIT=2500MiB"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if m.uid > 0 && !m.p.Root {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(m.uid), Gid: uint32(m.uid), NoSetGroups: false}
	}
	must(cmd.Start())
	pw.Close()
	done := make(chan bool)
	finished := false
	go func() {
		r := bufio.NewReaderSize(pr, 1<<20)
		for {
			line, err := r.ReadBytes('\n')
			if len(line) > 0 && line[len(line)-1] == '\n' {
				var x msg
				if json.Unmarshal(line, &x) == nil {
					switch x.T {
					case "v":
						m.violate(violation{Property: m.p.ID, Seed: m.w.Seed, Tier: m.w.Tier, Case: x.Idx, Key: x.Key, What: x.Text, Desc: x.Desc})
					case "s":
						m.mu.Lock()
						m.evals += x.Evals
						for k, v := range x.Counts {
							m.counts[k] += v
						}
						for _, h := range x.Hashes {
							m.seen[h] = true
						}
						m.mu.Unlock()
					case "sample":
						m.mu.Lock()
						if len(m.samples) < 8 {
							m.samples = append(m.samples, fmt.Sprintf("case %d: %s", x.Idx, x.Desc))
						}
						m.mu.Unlock()
					case "slow":
						m.mu.Lock()
						m.slow = append(m.slow, fmt.Sprintf("%d:%s", x.Idx, x.Text))
						m.mu.Unlock()
					case "d":
						finished = true
					}
				}
			}
			if err != nil {
				break
			}
		}
		close(done)
	}()
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	again := false
	readCur := func() int {
		b, _ := os.ReadFile(cur)
		if len(b) < 8 {
			return -1
		}
		n := binary.LittleEndian.Uint64(b)
		again = n&secondRun != 0
		return int(n&^secondRun) - 1
	}
	last, lastChange := -2, time.Now()
	lastAgain := false
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	hung, stopped, fat := false, false, false
	var werr error
loop:
	for {
		select {
		case werr = <-exited:
			break loop
		case <-tick.C:
			if atomic.LoadInt32(&m.stop) == 1 && !stopped {
				stopped = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			}
			if c := readCur(); c != last || again != lastAgain {
				last, lastAgain, lastChange = c, again, time.Now()
			} else if time.Since(lastChange) > m.stallFor && !hung {
				hung = true
				syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
				time.AfterFunc(5*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
			}
			if rss(cmd.Process.Pid) > 6<<30 && !fat {
				fat = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	select {
	case <-done:
	case <-time.After(10 * time.Second): // somebody still holds the pipe
	}
	pr.Close()
	<-done
	at = readCur()
	if stopped {
		return -1, "", ""
	}
	if finished && werr == nil {
		return -1, "", ""
	}
	how = fmt.Sprint(werr)
	if hung {
		how = "hang"
	}
	if fat {
		how = "memory"
	}
	return at, how, tb.String()
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

func goroutineOfPanic(stderr string) string {
	// the first goroutine block after the panic or fatal error line
	i := strings.Index(stderr, "\ngoroutine ")
	if i < 0 {
		return stderr
	}
	rest := stderr[i+1:]
	if j := strings.Index(rest, "\n\n"); j >= 0 {
		return stderr[:i] + "\n" + rest[:j]
	}
	return stderr
}

// judge decides what a worker's abnormal end means.
func (m *master) judge(slot, at int, how, stderr string) {
	v := violation{Property: m.p.ID, Seed: m.w.Seed, Tier: m.w.Tier, Case: at, Desc: "(the worker did not survive the case)"}
	race := strings.Contains(stderr, "WARNING: DATA RACE")
	crash := strings.Contains(stderr, "\npanic: ") || strings.HasPrefix(stderr, "panic: ") || strings.Contains(stderr, "fatal error: ") || strings.Contains(stderr, "runtime: goroutine stack exceeds")
	switch {
	case strings.Contains(stderr, "main.harnessError") || strings.Contains(stderr, "harness: "):
		m.hard("harness error in case %d: %s", at, clip(stderr, 3000))
	case race:
		i := strings.Index(stderr, "WARNING: DATA RACE")
		if repoFrame.MatchString(stderr[i:]) {
			v.What = "data race:\n" + clip(stderr[i:], 4000)
			m.violate(v)
		} else {
			m.hard("race in the harness in case %d: %s", at, clip(stderr, 3000))
		}
	case how == "hang" || how == "memory":
		// run the case alone to confirm
		at2, how2, err2 := m.worker(slot, at, at+1, 1)
		if at2 >= 0 && (how2 == "hang" || how2 == "memory") && repoFrame.MatchString(err2+stderr) {
			v.What = fmt.Sprintf("case does not end (%s, twice):\n%s", how, clip(stderr, 4000))
			m.violate(v)
		} else if at2 >= 0 && how2 != "hang" && how2 != "memory" {
			m.judge(slot, at2, how2, err2)
		} else {
			m.mu.Lock()
			m.incon = append(m.incon, fmt.Sprintf("case %d: %s, not confirmed when run alone", at, how))
			m.mu.Unlock()
		}
	case crash:
		if repoFrame.MatchString(goroutineOfPanic(stderr)) || strings.Contains(stderr, "all goroutines are asleep") || strings.Contains(stderr, "concurrent map") {
			v.What = "crash:\n" + clip(stderr, 4000)
			m.violate(v)
		} else {
			m.hard("crash in the harness in case %d: %s", at, clip(stderr, 3000))
		}
	default:
		// killed, or ended without a word: confirm
		at2, how2, err2 := m.worker(slot, at, at+1, 1)
		if at2 >= 0 {
			if strings.TrimSpace(err2) != "" && err2 != stderr {
				m.judgeOnce(slot, at2, how2, err2)
				return
			}
			v.What = fmt.Sprintf("the process ended abnormally, twice (%s, %s): %s", how, how2, clip(err2, 3000))
			m.violate(v)
		} else {
			m.mu.Lock()
			m.incon = append(m.incon, fmt.Sprintf("case %d: worker ended (%s), not confirmed when run alone", at, how))
			m.mu.Unlock()
		}
	}
}

func (m *master) judgeOnce(slot, at int, how, stderr string) {
	if strings.Contains(stderr, "DATA RACE") || strings.Contains(stderr, "panic: ") || strings.Contains(stderr, "fatal error: ") {
		m.judge(slot, at, how, stderr)
		return
	}
	m.hard("worker ended in case %d (%s): %s", at, how, clip(stderr, 2000))
}

func (m *master) hard(format string, args ...any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.hardErr = append(m.hardErr, fmt.Sprintf(format, args...))
	atomic.StoreInt32(&m.stop, 1)
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-helper" {
		helperMain(os.Args[2:])
		return
	}
	var (
		isWorker = flag.Bool("worker", false, "")
		propID   = flag.String("prop", "", "")
		tier     = flag.String("tier", "quick", "")
		seed     = flag.Uint64("seed", 1, "")
		bin      = flag.String("bin", "", "")
		scratch  = flag.String("scratch", "", "")
		from     = flag.Int("from", 0, "")
		to       = flag.Int("to", 0, "")
		step     = flag.Int("step", 1, "")
		cur      = flag.String("cur", "", "")
		slot     = flag.Int("slot", 0, "")
		only     = flag.Int("case", -1, "")
		cases    = flag.Int("cases", 0, "")
		evid     = flag.String("evidence", "", "")
		knownF   = flag.String("known", "", "")
		replayC  = flag.String("replaycmd", "", "")
	)
	flag.Parse()
	p := props[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property in this build:", *propID)
		os.Exit(3)
	}
	self, err := os.Executable()
	must(err)
	w := &W{Prop: p, Seed: *seed, Tier: *tier, Bin: *bin, Scratch: *scratch, Self: self, Index: *slot}
	if *isWorker {
		workerMain(p, w, *from, *to, *step, *cur)
		return
	}
	// what a killed worker leaves running becomes a child of this process
	syscall.Syscall(syscall.SYS_PRCTL, 36 /* PR_SET_CHILD_SUBREAPER */, 1, 0)
	start := time.Now()
	n := p.Quick
	if *tier == "thorough" {
		n = p.Thorough
	}
	if *cases > 0 {
		n = *cases
	}
	m := &master{p: p, w: w, seen: map[uint64]bool{}, counts: map[string]int64{}, tmp: *scratch, stallFor: 90 * time.Second}
	if os.Getuid() == 0 {
		m.uid = 54321
		// make sure that dropping privileges works here
		t := exec.Command("/bin/true")
		t.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(m.uid), Gid: uint32(m.uid)}}
		if t.Run() != nil {
			m.uid = 0
		}
	}
	if p.Stall > 0 {
		m.stallFor = time.Duration(p.Stall) * time.Second
	}
	nw := 8
	if p.Workers > 0 {
		nw = p.Workers
	}
	if *only >= 0 {
		at, how, stderr := m.worker(0, *only, *only+1, 1)
		if at >= 0 {
			m.judge(0, at, how, stderr)
		}
	} else {
		var wg sync.WaitGroup
		for k := 0; k < nw; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				from := k
				restarts := 0
				for from < n && atomic.LoadInt32(&m.stop) == 0 {
					at, how, stderr := m.worker(k, from, n, nw)
					if at < 0 && how == "" {
						return
					}
					if at < 0 {
						m.hard("worker did not start: %s %s", how, clip(stderr, 2000))
						return
					}
					m.judge(k, at, how, stderr)
					from = at + nw
					if restarts++; restarts > 20 {
						m.hard("too many worker restarts")
						return
					}
				}
			}(k)
		}
		wg.Wait()
	}
	killChildren()

	var kf []known
	if *knownF != "" {
		b, _ := os.ReadFile(*knownF)
		for _, line := range bytes.Split(b, []byte("\n")) {
			var k known
			if json.Unmarshal(line, &k) == nil && k.Status == "open" && k.Property == p.ID {
				kf = append(kf, k)
			}
		}
	}
	sort.Slice(m.viol, func(i, j int) bool { return m.viol[i].Case < m.viol[j].Case })
	nviol := 0
	reported := map[string]bool{}
	for _, v := range m.viol {
		isKnown := false
		for _, k := range kf {
			if v.Key != "" && k.Key == v.Key {
				isKnown = true
				if !reported[k.Key] {
					reported[k.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
				}
			}
		}
		if isKnown {
			continue
		}
		nviol++
		if nviol > 5 {
			continue
		}
		v.Replay = *replayC + " --case " + strconv.Itoa(v.Case)
		path := "-"
		if *evid != "" {
			dir := filepath.Join(filepath.Dir(*evid), "replay")
			os.MkdirAll(dir, 0755)
			path = filepath.Join(dir, fmt.Sprintf("%s-%d.json", p.ID, v.Case))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, append(b, '\n'), 0644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  case %d: %s\n  %s\n", v.Case, clip(v.Desc, 600), clip(v.What, 1500))
	}
	cov := map[string]any{
		"evaluations":         m.evals,
		"distinct_nontrivial": len(m.seen),
		"rule":                p.Rule,
		"samples":             m.samples,
		"events":              m.counts,
		"workers":             nw,
		"inconclusive":        m.incon,
	}
	if m.samples == nil {
		cov["samples"] = []string{}
	}
	var missing []string
	if *only < 0 && nviol == 0 && *cases == 0 {
		for _, e := range p.MinEvents {
			if m.counts[e] == 0 {
				missing = append(missing, e)
			}
		}
	}
	if len(missing) > 0 {
		cov["not_observed"] = missing
	}
	if *evid != "" {
		ev := map[string]any{"property": p.ID, "tier": *tier, "seed": *seed, "level": p.Level, "coverage": cov,
			"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": nviol}
		if p.Assume == nil {
			delete(ev, "assumptions")
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		must(os.WriteFile(*evid, append(b, '\n'), 0644))
	}
	var keys []string
	for k := range m.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %d violations, %.1fs\n ", p.ID, m.evals, len(m.seen), nviol, time.Since(start).Seconds())
	for _, k := range keys {
		fmt.Printf(" %s=%d", k, m.counts[k])
	}
	fmt.Println()
	if len(m.slow) > 0 {
		fmt.Println("  slow cases:", strings.Join(m.slow, " "))
	}
	for _, s := range m.incon {
		fmt.Println("inconclusive:", s)
	}
	if nviol > 0 {
		os.Exit(1)
	}
	if len(m.hardErr) > 0 {
		for _, e := range m.hardErr {
			fmt.Println("ERROR:", e)
		}
		os.Exit(3)
	}
	if len(missing) > 0 {
		fmt.Println("ERROR: events never observed:", missing)
		os.Exit(3)
	}
}

// killChildren ends what is left of the processes started.
func killChildren() {
	for k := 0; k < 20; k++ {
		found := false
		list, _ := filepath.Glob("/proc/[0-9]*/stat")
		for _, f := range list {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			s := string(b)
			x := strings.Fields(s[strings.LastIndex(s, ")")+1:])
			if len(x) < 2 || x[1] != strconv.Itoa(os.Getpid()) {
				continue
			}
			pid, _ := strconv.Atoi(filepath.Base(filepath.Dir(f)))
			found = true
			syscall.Kill(pid, syscall.SIGKILL)
			var ws syscall.WaitStatus
			syscall.Wait4(pid, &ws, 0, nil)
		}
		if !found {
			return
		}
	}
}

// helpers that the monitor runs as separate processes
var helpers = map[string]func(args []string){}

func helperMain(args []string) {
	h := helpers[args[0]]
	if h == nil {
		os.Exit(99)
	}
	h(args[1:])
}

//go:build go1.22

package main

import (
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwip/posix-utils/pkg/ed"
)

func init() {
	register(&Prop{ID: "C12", Level: "exploration", Quick: 14000, Thorough: 250000,
		Rule:      "under the race detector, scripts of valid and failing commands with saves, with or without q and commands after it, through readers that deliver byte by byte, in random pieces, command by command as answers come, with pauses, with the end of file alone or with the last data, or that never end after q, and through writers that are slow, yield or keep the bytes, one case in 40 with single reads or writes that take 15 ms to 2.3 s; some scripts with hundreds of short commands; with 1-8 processors; monitored: overlapping writes, writes after the return, the answers against a model, files saved, files and state after the return when the rest of the input arrives; and the command built with the race detector; non-trivial: at least three commands",
		MinEvents: []string{"answers", "quits", "after_quit", "endless", "gated", "invalid", "saves", "pauses", "commands", "second_runs", "late_input", "bursts", "long_pauses", "stalled_writes"},
		Setup:     setupEd, Run: runEdRace})
}

// hostileReader delivers the input in pieces, with pauses.
type hostileReader struct {
	r       *rand.Rand
	mode    int
	data    []byte
	breaks  []int // offsets at which commands end
	off     int
	out     *watchedWriter
	endless chan bool // what is beyond stop is delivered after this is closed
	stop    int
	seen    int64
	eofData bool
	pauses  int64
	gates   int64
	late    int64
	stall   time.Duration // one read takes that long
	stallAt int
}

func (h *hostileReader) pause() {
	switch h.r.IntN(12) {
	case 0:
		time.Sleep(time.Duration(h.r.IntN(60)) * time.Microsecond)
		atomic.AddInt64(&h.pauses, 1)
	case 1, 2, 3:
		for k := h.r.IntN(5); k >= 0; k-- {
			runtime.Gosched()
		}
		atomic.AddInt64(&h.pauses, 1)
	}
}

func (h *hostileReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	h.pause()
	if h.stall > 0 && h.off >= h.stallAt {
		time.Sleep(h.stall)
		h.stall = 0
	}
	if h.off >= h.stop && h.endless != nil {
		<-h.endless
		h.endless = nil
		h.stop = len(h.data)
		atomic.AddInt64(&h.late, 1)
	}
	if h.off == len(h.data) {
		return 0, io.EOF
	}
	limit := h.stop
	if h.endless == nil {
		limit = len(h.data)
	}
	n := limit - h.off
	switch h.mode {
	case 0: // all
	case 1:
		n = 1
	case 2:
		n = 1 + h.r.IntN(min(n, 40))
	case 3, 4: // command by command, mostly after the answer
		for _, b := range h.breaks {
			if b > h.off {
				n = min(n, b-h.off)
				break
			}
		}
		if h.mode == 4 && h.off > 0 {
			for k := 0; k < 150 && atomic.LoadInt64(&h.out.bytes) == h.seen; k++ {
				if k < 100 {
					runtime.Gosched()
				} else {
					time.Sleep(10 * time.Microsecond)
				}
			}
			if atomic.LoadInt64(&h.out.bytes) != h.seen {
				atomic.AddInt64(&h.gates, 1)
			}
			h.seen = atomic.LoadInt64(&h.out.bytes)
		}
	}
	n = min(n, len(p))
	copy(p, h.data[h.off:h.off+n])
	h.off += n
	if h.off == len(h.data) && h.eofData {
		return n, io.EOF
	}
	return n, nil
}

// watchedWriter records the output and how it is used.
type watchedWriter struct {
	r       *rand.Rand
	mu      sync.Mutex
	buf     []byte
	bytes   int64
	in      int32
	over    int32 // overlapping writes
	closed  int32 // the caller was told that all is done
	late    int32 // writes after that
	slow    int
	stalls  []time.Duration // some writes take as long as a busy terminal or pipe
	keep    [][]byte
	keepSum []string
}

func (w *watchedWriter) Write(p []byte) (int, error) {
	if atomic.AddInt32(&w.in, 1) != 1 {
		atomic.AddInt32(&w.over, 1)
	}
	if atomic.LoadInt32(&w.closed) == 1 {
		atomic.AddInt32(&w.late, 1)
	}
	switch {
	case w.slow == 1:
		runtime.Gosched()
	case w.slow == 2:
		time.Sleep(time.Duration(5+len(p)%40) * time.Microsecond)
	}
	if len(w.stalls) > 0 {
		if w.stalls[0] > 0 {
			time.Sleep(w.stalls[0])
		}
		w.stalls = w.stalls[1:]
	}
	w.mu.Lock()
	w.buf = append(w.buf, p...)
	w.mu.Unlock()
	atomic.AddInt64(&w.bytes, int64(len(p)))
	if w.slow == 1 {
		runtime.Gosched()
	}
	atomic.AddInt32(&w.in, -1)
	return len(p), nil
}

func (w *watchedWriter) String() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return string(w.buf)
}

func runEdRace(c *Ctx) {
	r := c.R
	m := newEdModel(c, oneIn(r, 3))
	m.long = 10 // no long lines
	runtime.GOMAXPROCS(pick(r, 1, 2, 3, 4, 8))
	saved := map[string]string{}
	save := func(name string) {
		if len(m.lines) == 0 {
			m.send("", "0a", "x", ".")
			m.lines, m.cur = []string{"x"}, 1
		}
		m.send("", "1,$w "+name)
		saved[name] = m.String()
		c.Count("saves", 1)
	}
	if oneIn(r, 2) {
		m.step("e", true)
	}
	draw := func(n int) {
		for k := 0; k < n; k++ {
			switch r.IntN(8) {
			case 0:
				save(sprintf("save%d", r.IntN(3)))
			case 1, 2:
				m.badCommand()
			default:
				m.step(pick(r, "a", "i", "d", "p", "n", "=", "null", "c", "p", "="), !oneIn(r, 6))
			}
		}
	}
	draw(2 + r.IntN(10))
	if oneIn(r, 12) { // many at once that are answered at once
		c.Count("bursts", 1)
		for k := 50 + r.IntN(400); k > 0; k-- {
			switch r.IntN(8) {
			case 0:
				m.badCommand()
			case 1:
				m.step("p", true)
			default:
				m.send(sprintf("%d", len(m.lines)), "=")
			}
		}
	}
	m.send(sprintf("%d", len(m.lines)), "=")
	if len(m.want) < 3 {
		c.Trivial()
	}
	if c.Idx%20 == 7 {
		m.raceCommand(saved)
		return
	}
	e := ed.NewEditor(nil, nil)
	if oneIn(r, 2) {
		e = &ed.Itor{}
	}
	runs := 1
	if oneIn(r, 4) {
		runs = 2
	}
	for k := 0; k < runs && !c.failed; k++ {
		if k > 0 {
			c.Count("second_runs", 1)
			m.script, m.want = nil, nil
			if len(m.lines) > 0 {
				m.cur = len(m.lines)
				m.send(m.lines[m.cur-1], "$p")
			} else {
				m.send("0", "=")
			}
			draw(1 + r.IntN(5))
		}
		m.raceRun(e, saved)
	}
}

func (m *edModel) raceRun(e *ed.Itor, saved map[string]string) {
	r, c := m.r, m.c
	data := []byte(strings.Join(m.script, "\n") + "\n")
	h := &hostileReader{r: rand.New(rand.NewPCG(r.Uint64(), 1)), mode: r.IntN(5), eofData: oneIn(r, 3)}
	quit := oneIn(r, 2)
	afterQ := 0
	if quit {
		data = append(data, "q\n"...)
		h.stop = len(data)
		afterQ = r.IntN(4)
		for k := 0; k < afterQ; k++ {
			data = append(data, pick(r, "1,$p\n", "$a\nafter\n.\n", "1d\n", "w afterq\n", "1,$w afterq\n", "q\n", "zz\n", "=\n", "e .\n", "0a\nx\n.\n1,$w afterq\n")...)
		}
		if oneIn(r, 3) {
			h.endless = make(chan bool)
			c.Count("endless", 1)
		}
		if afterQ > 0 {
			c.Count("after_quit", 1)
		}
		c.Count("quits", 1)
	}
	if h.endless == nil {
		h.stop = len(data)
	}
	h.data = data
	k, end := 0, 0
	for _, a := range m.want {
		for j := 0; j < a.lines; j++ {
			end += len(m.script[k]) + 1
			k++
		}
		h.breaks = append(h.breaks, end)
	}
	w := &watchedWriter{slow: r.IntN(3)}
	h.out = w
	if oneIn(r, 40) {
		long := time.Duration(pick(r, 15, 60, 120)) * time.Millisecond
		if oneIn(r, 25) {
			long = time.Duration(pick(r, 600, 1200, 2300)) * time.Millisecond
		}
		if oneIn(r, 3) {
			h.stall, h.stallAt = long, r.IntN(len(data))
			if h.mode == 0 {
				h.mode = 3
			}
			c.Count("long_pauses", 1)
		} else {
			w.stalls = make([]time.Duration, 1+r.IntN(2*len(m.want)))
			for k := pick(r, 1, 1, 2, 3); k > 0; k-- {
				w.stalls[r.IntN(len(w.stalls))] = long
			}
			c.Count("stalled_writes", 1)
		}
	}
	c.Key(string(data), h.mode, w.slow, h.endless == nil)
	c.Desc("reader mode %d, writer mode %d, input %s", h.mode, w.slow, clip(sprintf("%q", data), 1200))
	done := make(chan string, 1)
	go func() {
		p, st := Catch(func() { e.ProcessCommands(h, w) })
		atomic.StoreInt32(&w.closed, 1)
		if p != nil {
			done <- sprintf("panic: %v\n%s", p, clip(st, 2000))
		} else {
			done <- ""
		}
	}()
	where := func() string {
		return sprintf("reader mode %d, writer mode %d, input %s", h.mode, w.slow, clip(sprintf("%q", data), 2500))
	}
	select {
	case p := <-done:
		if p != "" {
			c.Fail("%s; %s", p, where())
			return
		}
	case <-time.After(40 * time.Second):
		c.Fail("ed does not return; output so far %q; %s", clip(w.String(), 500), where())
		panic("stop") // the editor is still in use
	}
	out := w.String()
	buf := e.String()
	// the rest of the input arrives, if anybody still reads it
	if h.endless != nil {
		close(h.endless)
		c.Count("late_input", 1)
	}
	if quit {
		time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
	}
	if oneIn(r, 60) { // something may be left over that acts later
		time.Sleep(time.Duration(pick(r, 10, 30, 110, 260)) * time.Millisecond)
		c.Count("waits", 1)
	}
	runtime.Gosched()
	c.Count("answers", len(m.want))
	c.Count("pauses", int(atomic.LoadInt64(&h.pauses)))
	c.Count("gated", int(atomic.LoadInt64(&h.gates)))
	if msg := matchAnswers(out, m.want); msg != "" {
		c.Fail("%s; %s", msg, where())
		return
	}
	if n := atomic.LoadInt32(&w.over); n > 0 {
		c.Fail("%d overlapping writes; %s", n, where())
	}
	if n := atomic.LoadInt32(&w.late); n > 0 {
		c.Fail("%d writes after the return: %q; %s", n, clip(w.String()[len(out):], 300), where())
	}
	if buf2 := e.String(); buf != m.String() || buf2 != buf {
		c.Fail("buffer at the return %q, then %q, want %q; %s", clip(buf, 500), clip(buf2, 500), clip(m.String(), 500), where())
	}
	m.checkSaved(saved, where())
}

func (m *edModel) checkSaved(saved map[string]string, where string) {
	for name, want := range saved {
		b, err := os.ReadFile(filepath.Join(m.dir, name))
		if err != nil || string(b) != want {
			m.c.Fail("file %s: %q (%v), want %q; %s", name, clip(string(b), 300), err, clip(want, 300), where)
		}
	}
	if _, err := os.Lstat(filepath.Join(m.dir, "afterq")); err == nil {
		m.c.Fail("a command after q was executed; %s", where)
	}
}

// raceCommand runs the script on the command, built with the race detector.
func (m *edModel) raceCommand(saved map[string]string) {
	r, c := m.r, m.c
	script := strings.Join(m.script, "\n") + "\n"
	if oneIn(r, 2) {
		script += "q\n" + pick(r, "", "1d\n1,$w afterq\n", "zz\n", "=\n1,$p\n")
	}
	c.Key(script)
	c.Desc("command, input %s", clip(sprintf("%q", script), 1200))
	c.Count("commands", 1)
	cmd := Cmd{Name: "ed.race", Dir: m.dir, Stdin: []byte(script), Env: []string{"GORACE=exitcode=66 halt_on_error=1 atexit_sleep_ms=0", "GOMAXPROCS=" + pick(r, "1", "2", "4")}}
	if oneIn(r, 2) {
		cmd.StdinR = c.chunked([]byte(script))
	}
	res := c.Run(cmd)
	where := clip(sprintf("%q", script), 2500)
	if res.Hung {
		return
	}
	if res.Code != 0 {
		c.Fail("ed ends with %s; input %s; stderr %s", res, where, clip(string(res.Err), 3000))
		return
	}
	if msg := matchAnswers(string(res.Out), m.want); msg != "" {
		c.Fail("%s; input %s", msg, where)
	}
	m.checkSaved(saved, where)
}

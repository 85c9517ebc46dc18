//go:build go1.22

package main

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"

	"github.com/fwip/posix-utils/pkg/ed"
)

func init() {
	register(&Prop{ID: "C10", Level: "exploration", Quick: 24000, Thorough: 400000,
		Rule:      "scripts of 1-40 a, i, c, d and e commands with valid addresses of every form and text of every kind, over files of every kind (one case in 400 has 32,760 to 140,000 lines), through the library and (one case in eight) the command, compared with a list-of-lines model: the whole buffer at the end and at random points by p; non-trivial: at least two edits",
		MinEvents: []string{"edits", "text_lines", "edit_files", "commands", "searches", "offsets", "ranges", "huge_files"},
		Setup:     setupEd, Run: func(c *Ctx) { runEd(c, "C10") }})
	register(&Prop{ID: "C11", Level: "exploration", Quick: 24000, Thorough: 400000,
		Rule:      "scripts of p, n, = and null commands with addresses of every form (numbers, ., $, searches that match ahead, behind, wrapping or nowhere, offsets, ranges, relative ranges, defaults), over files of up to 140,000 lines, mixed with edits that move the current line and a few failing commands, answers compared with a model, through the library and (one case in eight) the command; non-trivial: at least two answers",
		MinEvents: []string{"prints", "numbers", "searches", "wraps", "offsets", "ranges", "relative_ranges", "default_ranges", "commands", "invalid", "huge_files", "saves"},
		Setup:     setupEd, Run: func(c *Ctx) { runEd(c, "C11") }})
	register(&Prop{ID: "C14", Level: "exploration", Quick: 24000, Thorough: 400000,
		Rule:      "valid scripts interleaved with lines that are invalid, impossible or unsupported by construction, whose effect must be an error answer and nothing else; and lines of random characters and grammar fragments followed by a known tail whose answers and result are checked; over odd files; non-trivial: at least one invalid command or fuzz line",
		MinEvents: []string{"invalid", "fuzz_lines", "tails", "commands", "edits"},
		Setup:     setupEd, Run: runEdHostile})
}

func setupEd(w *W) {
	// the editor's debug messages
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	must(err)
	os.Stderr = null
}

func newEdModel(c *Ctx, odd bool) *edModel {
	m := &edModel{r: c.R, c: c, odd: odd, dir: c.Dir(), files: map[string]string{}}
	must(os.Chdir(m.dir))
	return m
}

// runScript runs a script on the library or the command and returns the output
// and, for the library, the final buffer.
func (m *edModel) runScript(cli bool, script string) (out, buf string, ok bool) {
	c := m.c
	if cli {
		c.Count("commands", 1)
		cmd := Cmd{Name: "ed", Dir: m.dir, Stdin: []byte(script)}
		// the file of a first e command can be named as an operand instead
		if first, rest, ok := strings.Cut(script, "\n"); ok && len(first) > 2 && first[:2] == "e " && oneIn(m.r, 2) {
			cmd.Args = []string{strings.TrimLeft(first[2:], " \t")}
			script = rest
			cmd.Stdin = []byte(script)
			c.Count("operands", 1)
		}
		if oneIn(m.r, 3) {
			cmd.StdinR = c.given([]byte(script))
		}
		res := c.Run(cmd)
		if res.Hung {
			return
		}
		if res.Code != 0 || res.runtimeFailure() {
			c.Fail("ed ends with %s; script %s", res, clip(sprintf("%q", script), 3000))
			return
		}
		return string(res.Out), "", true
	}
	var b bytes.Buffer
	e := ed.NewEditor(nil, nil)
	if oneIn(m.r, 3) {
		e = &ed.Itor{}
	}
	p, st := Catch(func() {
		e.ProcessCommands(strings.NewReader(script), &b)
		buf = e.String()
	})
	if p != nil {
		c.Fail("panic: %v; script %s\n%s", p, clip(sprintf("%q", script), 2000), clip(st, 2000))
		return
	}
	return b.String(), buf, true
}

func (m *edModel) check(cli bool) {
	c := m.c
	script := strings.Join(m.script, "\n") + "\n"
	quit := oneIn(m.r, 3)
	if quit {
		script += "q\n"
	} else if oneIn(m.r, 4) && m.script[len(m.script)-1] != "" {
		script = strings.TrimSuffix(script, "\n")
	}
	c.Key(script, sprintf("%q", m.files))
	c.Desc("files %s script %s", clip(sprintf("%q", m.files), 400), clip(sprintf("%q", m.script), 900))
	out, buf, ok := m.runScript(cli, script)
	if !ok {
		return
	}
	c.Count("answers", len(m.want))
	if e := matchAnswers(out, m.want); e != "" {
		c.Fail("%s; files %s, script %s", e, clip(sprintf("%q", m.files), 800), clip(sprintf("%q", m.script), 2500))
		return
	}
	if !cli && buf != m.String() {
		c.Fail("buffer: %s; files %s, script %s", show([]byte(buf), []byte(m.String())), clip(sprintf("%q", m.files), 800), clip(sprintf("%q", m.script), 2500))
	}
}

func runEd(c *Ctx, prop string) {
	r := c.R
	if n := c.longSize(8, 16, 24, 25); n > 0 && prop == "C10" {
		longEd(c, n, c.Idx%8 == 0)
		return
	}
	m := newEdModel(c, prop == "C10" || oneIn(r, 3))
	cli := c.Idx%8 == 0
	n := 1 + r.IntN(12)
	if oneIn(r, 8) {
		n = 10 + r.IntN(30)
	}
	if oneIn(r, 150) {
		n = 100 + r.IntN(250)
	}
	if oneIn(r, 400) {
		m.huge = true
		n = 6 + r.IntN(10)
	}
	if m.huge || !oneIn(r, 5) {
		m.step("e", true)
	}
	for k := 0; k < n; k++ {
		var kind string
		valid := true
		if prop == "C10" {
			kind = pick(r, "a", "i", "c", "d", "a", "i", "c", "d", "e", "p", "=")
			if kind == "e" && !oneIn(r, 3) {
				kind = "a"
			}
			if kind == "p" && len(m.lines) > 0 && oneIn(r, 2) {
				m.cur = len(m.lines)
				m.send(strings.Join(m.lines, "\n"), pick(r, ",p", "1,$p"))
				continue
			}
		} else {
			kind = pick(r, "p", "n", "=", "null", "p", "n", "=", "null", "a", "d", "i", "c", "e")
			if kind == "e" && !oneIn(r, 3) {
				kind = "="
			}
			valid = !oneIn(r, 8)
			if oneIn(r, 25) { // a save does not move it
				addr := ""
				if len(m.lines) > 0 && !oneIn(r, 3) {
					if t, _, _, ok := m.rng(1, true); ok {
						addr = t
					}
				}
				m.send("", addr+"w saved")
				if m.name == "" {
					m.name = "saved"
				}
				c.Count("saves", 1)
				m.send(sprintf("%d", m.cur), ".=")
			}
			if oneIn(r, 4) { // where is the current line?
				m.send(sprintf("%d", m.cur), ".=")
			}
		}
		m.step(kind, valid)
	}
	if len(m.script) == 0 {
		m.send("0", "=")
		c.Trivial()
	}
	if len(m.want) < 2 {
		c.Trivial()
	}
	if len(m.lines) > 0 {
		m.send(sprintf("%d", m.cur), ".=")
		m.cur = len(m.lines)
		m.send(strings.Join(m.lines, "\n"), ",p")
	}
	m.check(cli)
}

// badCommand makes a command that is invalid whatever the buffer is.
func (m *edModel) badCommand() {
	r := m.r
	last := len(m.lines)
	switch r.IntN(12) {
	case 0:
		m.sendBad(pick(r, "z", "x", "y", "@", "A", "pp", "dd", "2x", "=5", "p5", "qq", "q5", "W", "b", "1,2=x", "#", "~", "pq", "nd", "1p2", "e\x00"[:0]+"ee", "{", "}", "\"", "é", "é1p"))
	case 1:
		m.sendBad(pick(r, "s/a/b/", "g/a/p", "v/a/p", "1,2s/x/y/g", "G/x/", "s", "g"))
	case 2:
		m.sendBad(sprintf("%d", last+1+r.IntN(3)) + pick(r, "p", "d", "n", "=", "", ",$p"))
	case 3:
		m.sendBad(pick(r, "0p", "0d", "0n", "0,1p", "0,0d", "$+1p", "$+1", "$+1=", "$+5d", ".+9999p", "1-2p", "1-5d", "0-1=", "$-99999p"))
	case 4:
		if last >= 2 {
			m.sendBad(pick(r, "2,1p", "$,1p", "2,1d", "$;1n", "2;1p"))
		}
	case 5:
		m.sendBad("/no such line anywhere/" + pick(r, "p", "d", "=", "", ",$p", "+1p"))
	case 6:
		m.sendBad(pick(r, "'ap", "'z", "'a,'bp", "'x=", "'ad", "1,'ap"))
	case 7:
		m.sendBad(pick(r, "e missing-file", "e missing/dir/file", "e .", "e /nonexistent/x", "e "+strings.Repeat("n", 300)))
	case 8:
		if last > 0 && oneIn(r, 2) { // a good one if some bits are lost
			n := 1 + r.IntN(last)
			high := pick(r, 1<<16, 1<<31, 1<<32, 3<<32, 1<<48, 1<<62, 255<<32)
			cmd := pick(r, "p", "d", "n", "=", "", "w out", "p", "d")
			if n+high > last {
				m.sendBad(pick(r, sprintf("%d", n+high), sprintf("%d,%d", n, n+high), sprintf("%d+%d", n, high), sprintf("%d-%d", n, high), sprintf("$-%d", high), sprintf(".+%d", high), sprintf(".,.+%d", high), "1"+sprintf("%d", uint64(1<<64-1)/10-uint64(n))) + cmd)
			}
			return
		}
		m.sendBad(pick(r, "99999999999999999999p", "1,99999999999999999999d", "$+99999999999999999999p", "18446744073709551617p", ".-99999999999999999999=", "000000000000000000000000000009999999999p"))
	case 9:
		if last >= 1 {
			m.sendBad(pick(r, "/[/p", "/[a/d", "/[z-a]/p", "1,/[/p"))
		}
	case 10:
		m.sendBad(pick(r, "w missing-dir/file", "w .", "w /nonexistent/dir/x", "999999w out", "0,1w out"))
	case 11: // text commands at impossible places: the text goes away with them
		ls := []string{sprintf("%d", last+1+r.IntN(3)) + pick(r, "a", "i")}
		ls = append(ls, m.text()...)
		m.sendBad(append(ls, ".")...)
	}
}

func runEdHostile(c *Ctx) {
	r := c.R
	m := newEdModel(c, true)
	cli := c.Idx%8 == 0
	if c.Idx%3 == 0 {
		m.fuzz(cli)
		return
	}
	if !oneIn(r, 5) {
		m.step("e", true)
	}
	for k := 2 + r.IntN(10); k > 0; k-- {
		if oneIn(r, 2) {
			m.badCommand()
			if len(m.lines) > 0 && oneIn(r, 2) { // nothing changed
				m.send(sprintf("%d", m.cur), ".=")
				m.send(sprintf("%d", len(m.lines)), "=")
			}
		} else {
			m.step(pick(r, "a", "i", "d", "c", "p", "n", "=", "null"), oneIn(r, 2))
		}
	}
	m.send(sprintf("%d", len(m.lines)), "=")
	if len(m.lines) > 0 {
		m.send(sprintf("%d", m.cur), ".=")
		m.cur = len(m.lines)
		m.send(strings.Join(m.lines, "\n"), ",p")
	}
	m.check(cli)
	// a failing command has created nothing
	es, err := os.ReadDir(m.dir)
	must(err)
	for _, e := range es {
		if _, ok := m.files[e.Name()]; !ok {
			c.Fail("file %q was created; script %s", e.Name(), clip(sprintf("%q", m.script), 2500))
		}
	}
}

// fuzz sends random lines, and then a script whose result is known.
func (m *edModel) fuzz(cli bool) {
	r, c := m.r, m.c
	frag := []string{"1", "2", "0", "$", ".", ",", ";", "+", "-", "/", "?", "/a/", "?a?", "'", "'a", "p", "d", "a", "i", "c", "n", "=", "w", "e", "r", "m", "t", "k", "j", "l", "u", "h", "H", "P", "f", "E", "s", "g", "v", "G", "V", "!", "x", " ", "\t", "\\", "*", "[", "]", "(", "+1", "-1", "99", "\r", "é", "\x00", "\xff", "%", "\"", "file", "out", "{", "}"}
	var ls []string
	for k := 1 + r.IntN(15); k > 0; k-- {
		var sb strings.Builder
		switch r.IntN(5) {
		case 0:
			n := r.IntN(10)
			for i := 0; i < n; i++ {
				b := byte(r.IntN(256))
				if b == '\n' {
					b = 'x'
				}
				sb.WriteByte(b)
			}
		case 1:
			sb.WriteString(m.line())
		case 2:
			if oneIn(r, 3) {
				sb.WriteString(".")
			} else {
				sb.WriteString(pick(r, "a", "1i", "c", "$a", "0a", "a", "2c", "1,2c"))
			}
		default:
			for j := r.IntN(6); j > 0; j-- {
				sb.WriteString(frag[r.IntN(len(frag))])
			}
		}
		s := sb.String()
		if t := strings.Trim(s, " \t\r"); t == "q" || t == "Q" || strings.Contains(s, "/dev") || strings.Contains(s, "/proc") {
			continue
		}
		if oneIn(r, 200) {
			s = strings.Repeat(pick(r, "1,", "+", "-", "(", "a", "/", "\\"), 1000+r.IntN(4000))
		}
		ls = append(ls, s)
	}
	if oneIn(r, 2) {
		ls = append([]string{"e " + m.newFile(false)}, ls...)
	}
	c.Count("fuzz_lines", len(ls))
	fz := append([]string(nil), ls...)
	ls = append(ls, ".") // ends a text that is being read
	// the known tail
	m.script, m.want = nil, nil
	f := m.newFile(false)
	m.load(f)
	m.send("", "e "+f)
	for k := 1 + r.IntN(4); k > 0; k-- {
		m.step(pick(r, "a", "i", "d", "p", "="), true)
	}
	m.send(sprintf("%d", len(m.lines)), "=")
	mark := sprintf("mark %d", c.Idx)
	m.send("", "$a", mark, ".")
	m.lines = append(m.lines, mark)
	m.cur = len(m.lines)
	m.send(mark, "$p")
	script := strings.Join(append(ls, m.script...), "\n") + "\n"
	c.Key(script)
	c.Desc("fuzz %s", clip(sprintf("%q", fz), 900))
	out, buf, ok := m.runScript(cli, script)
	if !ok {
		return
	}
	var tail strings.Builder
	for _, w := range m.want {
		tail.WriteString(w.text + "\n")
	}
	c.Count("tails", 1)
	if !strings.HasSuffix(out, tail.String()) {
		c.Fail("after %s the commands %s are answered with …%q, want %q", clip(sprintf("%q", fz), 2000), clip(sprintf("%q", m.script), 800), clip(out[max(0, len(out)-600):], 600), clip(tail.String(), 600))
		return
	}
	if !cli && buf != m.String() {
		c.Fail("after %s the commands %s leave the buffer: %s", clip(sprintf("%q", fz), 2000), clip(sprintf("%q", m.script), 800), show([]byte(buf), []byte(m.String())))
	}
}

// longEd edits a very long line.
func longEd(c *Ctx, n int, cli bool) {
	l := longText(c, n)
	m := newEdModel(c, false)
	if oneIn(c.R, 2) {
		m.send("", "a", "first", l, "last", ".")
	} else {
		m.files["big"] = "first\n" + l + "\nlast\n"
		c.write("big", []byte(m.files["big"]))
		m.send("", "e big")
	}
	m.lines = []string{"first", l, "last"}
	m.send(l, "2p")
	m.send("3", "$=")
	m.send("2", ".=")
	m.send("", "1,2c", l+"!", ".")
	m.send(l+"!", "/!$/p")
	m.send("", "w saved")
	m.lines = []string{l + "!", "last"}
	m.check(cli)
	if b, err := os.ReadFile(filepath.Join(m.dir, "saved")); !c.failed && (err != nil || string(b) != m.String()) {
		c.Fail("a line of %d bytes, saved: %v, %s", len(l), err, show(b, []byte(m.String())))
	}
}

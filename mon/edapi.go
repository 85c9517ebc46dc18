//go:build go1.22

package main

import (
	"bytes"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"

	"github.com/fwip/posix-utils/pkg/ed"
)

func init() {
	register(&Prop{ID: "C27", Level: "exploration", Quick: 30000, Thorough: 500000,
		Rule:      "one editor used through a history of 2-25 calls: Edit of good files (new ones, and the edited one again, often changed from outside meanwhile without a change of its size) and of unreadable ones, String, Print and Delete of valid ranges, Write with and without a remembered file and to a file that has become a directory, Quit, and whole sessions of ProcessCommands (a third of them left by q or with failing commands); after every call the buffer, and after every save the file, is compared with a list-of-lines model; non-trivial: at least two calls that change something",
		MinEvents: []string{"edits_by_call", "edits_refused", "prints_by_call", "deletes_by_call", "writes_by_call", "writes_refused", "sessions", "later_sessions", "changed_outside"},
		Setup:     setupEd, Run: runEdAPI})
}

// change returns another text for a file, often of the same size.
func change(r *rand.Rand, s string) string {
	b := []byte(s)
	if len(b) == 0 || oneIn(r, 4) {
		return s + pick(r, "added\n", "x", "two\nlines\n")
	}
	if oneIn(r, 4) {
		return s[:r.IntN(len(s))]
	}
	for k := 1 + r.IntN(3); k > 0; k-- {
		i := r.IntN(len(b))
		switch {
		case b[i] == '\n' && oneIn(r, 3):
			b[i] = ' '
		case b[i] < 128 && b[i] != '\n':
			b[i] = "abcxyz019"[r.IntN(9)]
		}
	}
	return string(b)
}

func runEdAPI(c *Ctx) {
	r := c.R
	m := newEdModel(c, oneIn(r, 2))
	e := ed.NewEditor(nil, nil)
	if oneIn(r, 3) {
		e = &ed.Itor{}
	}
	var log []string
	sessions, changes := 0, 0
	unterminated := false
	bad := func(format string, args ...any) {
		c.Fail("%s; files %s, history %s", sprintf(format, args...), clip(sprintf("%q", m.files), 800), clip(strings.Join(log, "; "), 2500))
	}
	buffer := func() bool {
		got := e.String()
		if got != m.String() {
			bad("buffer: %s", show([]byte(got), []byte(m.String())))
			return false
		}
		return true
	}
	saved := func(name string) string {
		p := name
		if !filepath.IsAbs(p) {
			p = filepath.Join(m.dir, p)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err.Error()
		}
		if s := m.String(); string(b) != s && !(unterminated && string(b)+"\n" == s) {
			return show(b, []byte(s))
		}
		m.files[name] = string(b)
		return ""
	}
	n := 2 + r.IntN(10)
	if oneIn(r, 10) {
		n = 10 + r.IntN(16)
	}
	p, st := Catch(func() {
		for k := 0; k < n && !c.failed; k++ {
			last := len(m.lines)
			switch op := r.IntN(10); {
			case op == 0 || k == 0 && op < 6:
				var name string
				if m.name != "" && oneIn(r, 2) { // the same file again, perhaps changed since
					name = m.name
					if !oneIn(r, 4) {
						old := m.files[name]
						s := change(r, old)
						p := name
						if !filepath.IsAbs(p) {
							p = filepath.Join(m.dir, p)
						}
						info, err := os.Stat(p)
						must(err)
						must(os.WriteFile(p, []byte(s), 0644))
						if oneIn(r, 3) {
							must(os.Chtimes(p, info.ModTime(), info.ModTime()))
						}
						m.files[name] = s
						log = append(log, sprintf("%s becomes %s", name, clip(sprintf("%q", s), 200)))
						c.Count("changed_outside", 1)
					}
				} else {
					name = m.newFile(true)
				}
				log = append(log, "Edit "+name)
				c.Key("e", m.files[name])
				if err := e.Edit(name, oneIn(r, 2)); err != nil {
					bad("Edit: %v", err)
					return
				}
				m.load(name)
				s := m.files[name]
				unterminated = s != "" && s[len(s)-1] != '\n'
				changes++
				c.Count("edits_by_call", 1)
			case op == 1:
				name := pick(r, "nosuch", "nosuch/x", ".", "/nonexistent/file", strings.Repeat("n", 300))
				log = append(log, "Edit "+clip(name, 20))
				if err := e.Edit(name, oneIn(r, 2)); err == nil {
					bad("Edit of %q succeeds", name)
					return
				}
				c.Count("edits_refused", 1)
			case op == 2 && last > 0:
				x := 1 + r.IntN(last)
				y := x + r.IntN(last-x+1)
				log = append(log, sprintf("Print(%d, %d)", x, y))
				got := e.Print(x, y)
				want := strings.Join(m.lines[x-1:y], "\n")
				c.Count("prints_by_call", 1)
				if got != want && got != want+"\n" {
					bad("Print(%d, %d): %s", x, y, show([]byte(got), []byte(want)))
					return
				}
			case op <= 4 && last > 0:
				x := 1 + r.IntN(last)
				y := x + r.IntN(last-x+1)
				if oneIn(r, 2) {
					y = min(last, x+r.IntN(3))
				}
				log = append(log, sprintf("Delete(%d, %d)", x, y))
				c.Key("d", x, y)
				if err := e.Delete(x, y); err != nil {
					bad("Delete(%d, %d): %v", x, y, err)
					return
				}
				m.lines = append(append([]string(nil), m.lines[:x-1]...), m.lines[y:]...)
				changes++
				c.Count("deletes_by_call", 1)
			case op == 5:
				if m.name == "" {
					log = append(log, "Write")
					if err := e.Write(); err == nil {
						bad("Write without a file name succeeds")
						return
					}
					c.Count("writes_refused", 1)
					break
				}
				path := m.name
				if !filepath.IsAbs(path) {
					path = filepath.Join(m.dir, path)
				}
				if oneIn(r, 5) { // the file is in the way
					must(os.Rename(path, path+".away"))
					must(os.Mkdir(path, 0755))
					log = append(log, "Write (a directory)")
					err := e.Write()
					must(os.Remove(path))
					must(os.Rename(path+".away", path))
					if err == nil {
						bad("Write to a directory succeeds")
						return
					}
					c.Count("writes_refused", 1)
					break
				}
				log = append(log, "Write")
				if err := e.Write(); err != nil {
					bad("Write: %v", err)
					return
				}
				c.Count("writes_by_call", 1)
				if e := saved(m.name); e != "" {
					bad("Write: %s", e)
					return
				}
			case op == 6:
				log = append(log, "Quit")
				if err := e.Quit(oneIn(r, 2)); err != nil {
					bad("Quit: %v", err)
					return
				}
			default: // a session
				m.script, m.want = nil, nil
				m.send(sprintf("%d", last), "=")
				if m.cur = last; oneIn(r, 2) { // it starts at the last line
					m.send(sprintf("%d", last), ".=")
				} else if last > 0 {
					m.cur = 1 + r.IntN(last)
					m.send(m.lines[m.cur-1], sprintf("%dp", m.cur))
				}
				for j := 1 + r.IntN(5); j > 0; j-- {
					m.step(pick(r, "a", "i", "c", "d", "p", "n", "=", "null"), !oneIn(r, 6))
				}
				save := m.name != "" && oneIn(r, 4)
				if m.name != "" && oneIn(r, 6) { // afresh
					m.load(m.name)
					m.send("", pick(r, "e", "e "+m.name))
					s := m.files[m.name]
					unterminated = s != "" && s[len(s)-1] != '\n'
					m.step(pick(r, "a", "d", "p", "null"), true)
				}
				if save {
					m.send("", "w")
				}
				script := strings.Join(m.script, "\n") + "\n"
				if oneIn(r, 3) {
					script += "q\n"
				}
				log = append(log, sprintf("session %q", script))
				c.Key("s", script)
				var b bytes.Buffer
				e.ProcessCommands(strings.NewReader(script), &b)
				if er := matchAnswers(b.String(), m.want); er != "" {
					bad("%s", er)
					return
				}
				if save {
					if e := saved(m.name); e != "" {
						bad("w: %s", e)
						return
					}
				}
				c.Count("sessions", 1)
				if sessions++; sessions > 1 {
					c.Count("later_sessions", 1)
				}
				changes++
			}
			if (k == n-1 || !oneIn(r, 4)) && !buffer() {
				return
			}
		}
	})
	if changes < 2 {
		c.Trivial()
	}
	c.Desc("files %s, history %s", clip(sprintf("%q", m.files), 300), clip(strings.Join(log, "; "), 900))
	if p != nil {
		bad("panic: %v\n%s", p, clip(st, 1500))
		return
	}
	// nothing else has been left behind
	es, err := os.ReadDir(m.dir)
	must(err)
	for _, x := range es {
		if _, ok := m.files[x.Name()]; !ok {
			bad("file %q was created", x.Name())
		}
	}
}

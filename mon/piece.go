//go:build go1.22

package main

import (
	"bytes"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/fwip/posix-utils/pkg/txt"
)

func init() {
	register(&Prop{ID: "C15", Level: "exploration", Quick: 400000, Thorough: 10000000,
		Rule:      "edit sequences of 1-200 insertions and deletions (biased to the start, the end, both ends of earlier edits and empty sizes, with big ones mixed in; some of up to 4300 insertions and few deletions, some with several MiB) on tables over strings, byte readers, files and readers that report the end early, zero values included, compared with a plain byte string after every edit (short sequences) or at random points; slices are overwritten after insertion; non-trivial: at least two edits",
		MinEvents: []string{"inserts", "deletes", "reads", "zero_values", "files", "deletes_all", "across_edits", "growing", "big", "other_readers"},
		Run:       runPiece})
}

// legalReader does what io.ReaderAt allows: it uses all of the space as
// scratch, and may report the end together with the last bytes.
type legalReader struct {
	data []byte
	eof  bool
}

func (l legalReader) ReadAt(p []byte, off int64) (int, error) {
	for i := range p {
		p[i] = 0xee
	}
	if off < 0 || off > int64(len(l.data)) {
		return 0, io.EOF
	}
	n := copy(p, l.data[off:])
	if n < len(p) || l.eof && int(off)+n == len(l.data) {
		return n, io.EOF
	}
	return n, nil
}

func runPiece(c *Ctx) {
	r := c.R
	orig := blob(r, pick(r, 0, 0, 1, 2, 5, 10, 30, 100))
	if oneIn(r, 50) {
		orig = blob(r, size(r, 70000))
	}
	model := append([]byte(nil), orig...)
	var pt txt.PieceTable
	var keep any
	kind := r.IntN(5)
	switch {
	case kind == 0:
		c.Count("zero_values", 1)
		model = nil
		orig = nil
	case kind == 1:
		pt = txt.NewPieceTable(bytes.NewReader(append([]byte(nil), orig...)), len(orig))
	case kind == 2 && oneIn(r, 10):
		c.Count("files", 1)
		p := filepath.Join(c.Dir(), "f")
		must(os.WriteFile(p, orig, 0644))
		f, err := os.Open(p)
		must(err)
		keep = f
		pt = txt.NewPieceTable(f, len(orig))
	case kind == 3:
		c.Count("other_readers", 1)
		pt = txt.NewPieceTable(legalReader{append([]byte(nil), orig...), r.IntN(2) == 0}, len(orig))
	default:
		pt = txt.NewPieceTable(strings.NewReader(string(orig)), len(orig))
	}
	n := 1 + r.IntN(12)
	if oneIn(r, 6) {
		n = 1 + r.IntN(200)
	}
	if c.Idx%4000 == 5 {
		n = 1500 + r.IntN(2500)
	}
	// mostly insertions, so that the number of pieces grows
	grow := c.Idx%2000 == 7
	if grow {
		n = 300 + r.IntN(pick(r, 300, 1500, 4000))
		c.Count("growing", 1)
	}
	big := c.Idx%4000 == 11
	if big {
		n = 2 + r.IntN(4)
		c.Count("big", 1)
	}
	if n < 2 {
		c.Trivial()
	}
	every := n <= 12 || n < 1000 && oneIn(r, 3)
	var marks []int
	var log []string
	at := func() int {
		switch r.IntN(6) {
		case 0:
			return 0
		case 1:
			return len(model)
		case 2, 3:
			if len(marks) > 0 {
				return max(0, min(len(model), marks[r.IntN(len(marks))]+r.IntN(3)-1))
			}
		}
		return r.IntN(len(model) + 1)
	}
	check := func() bool {
		var got string
		p, st := Catch(func() { got = pt.String() })
		c.Count("reads", 1)
		if p != nil {
			c.Fail("String panics: %v\n%s\nedits %s", p, clip(st, 1500), strings.Join(log, "; "))
			return false
		}
		if got != string(model) {
			c.Fail("%s; original %q, edits %s", show([]byte(got), model), clip(string(orig), 200), clip(strings.Join(log, "; "), 2500))
			return false
		}
		return true
	}
	c.Key(orig, kind)
	if oneIn(r, 3) && !check() {
		return
	}
	for k := 0; k < n; k++ {
		if len(model) > 0 && oneIn(r, 2) && (!grow || oneIn(r, 4)) && (!big || k > 0) || len(model) > 200000 && !big {
			a := at()
			l := r.IntN(len(model) - a + 1)
			switch r.IntN(5) {
			case 0:
				l = min(l, 1+r.IntN(3))
			case 1:
				l = len(model) - a
			case 2:
				l = min(l, r.IntN(30))
			case 3:
				if len(marks) > 0 {
					if m := marks[r.IntN(len(marks))]; m >= a && m <= len(model) {
						l = m - a
						c.Count("across_edits", 1)
					}
				}
			}
			if oneIn(r, 60) {
				a, l = 0, len(model)
			}
			if grow {
				l = min(l, r.IntN(3))
			}
			if l == len(model) {
				c.Count("deletes_all", 1)
			}
			log = append(log, sprintf("delete %d at %d", l, a))
			if p, st := Catch(func() { pt.Delete(l, a) }); p != nil {
				c.Fail("Delete panics: %v\n%s\nedits %s", p, clip(st, 1500), clip(strings.Join(log, "; "), 2000))
				return
			}
			model = append(append([]byte(nil), model[:a]...), model[a+l:]...)
			marks = append(marks, a)
			c.Count("deletes", 1)
			c.Key("d", a, l)
		} else {
			a := at()
			t := blob(r, pick(r, 0, 1, 1, 2, 3, 5, 8, 20))
			if oneIn(r, 100) {
				t = blob(r, size(r, 70000))
			}
			if big && oneIn(r, 2) {
				t = blob(r, 1<<18+r.IntN(4<<20))
			}
			log = append(log, sprintf("insert %q at %d", clip(string(t), 30), a))
			arg := append(make([]byte, 0, len(t)+8), t...)
			if p, st := Catch(func() { pt.Insert(arg, a) }); p != nil {
				c.Fail("Insert panics: %v\n%s\nedits %s", p, clip(st, 1500), clip(strings.Join(log, "; "), 2000))
				return
			}
			if !bytes.Equal(arg, t) {
				c.Fail("Insert changed its argument")
				return
			}
			model = append(append(append([]byte(nil), model[:a]...), t...), model[a:]...)
			marks = append(marks, a, a+len(t))
			for i := range arg[:cap(arg)] {
				arg[:cap(arg)][i] = '!'
			}
			c.Count("inserts", 1)
			c.Key("i", a, t)
		}
		if (every || oneIn(r, 10) || k == n-1) && !check() {
			return
		}
	}
	if !check() { // reading twice gives the same
		return
	}
	c.Desc("original of %d bytes (kind %d), %s", len(orig), kind, clip(strings.Join(log, "; "), 800))
	if f, ok := keep.(*os.File); ok {
		f.Close()
	}
}

//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/fwip/posix-utils/pkg/locale"
)

func init() {
	register(&Prop{ID: "C19", Level: "exploration", Quick: 24000, Thorough: 300000,
		Rule:      "well-formed definitions (as for C18) must be accepted with the recorded values the generator knows; copies with exactly one fault (unknown category or keyword, keyword of another category, missing, mismatched or misplaced END, unterminated string, value of another kind, text after the value) must not be; sources that are cut, damaged in other ways or no definition at all must come to an end; each is parsed in a helper process whose abort is a rejection; non-trivial: every case",
		MinEvents: []string{"accepted", "values", "faults", "damaged"},
		Setup:     func(w *W) { w.State = &locParser{self: w.Self} },
		Run:       runLocParse,
		Assume:    []string{"parsing is driven through the verif hook pkg/locale/verif_hook.go"}})
	helpers["locparse"] = func(args []string) {
		lim := uint64(6 << 30)
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
		in := bufio.NewReader(os.Stdin)
		out := json.NewEncoder(os.Stdout)
		// the parser prints on standard output
		os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
		for {
			var n int
			l, err := in.ReadString('\n')
			if err != nil {
				return
			}
			n, _ = strconv.Atoi(strings.TrimSpace(l))
			b := make([]byte, n)
			if _, err := io.ReadFull(in, b); err != nil {
				return
			}
			var res locResult
			p, _ := Catch(func() { res.Status, res.Sym, res.Frac, res.Group = parseDefinition(string(b)) })
			if p != nil {
				res.Panic = clip(sprintf("%v", p), 300)
				if res.Panic == "" {
					res.Panic = "panic"
				}
			}
			out.Encode(res)
		}
	}
}

type locResult struct {
	Status int
	Sym    string
	Frac   int
	Group  []int
	Panic  string
	abort  string
	hung   bool
}

func (l locResult) accepted() bool {
	return l.Status == 0 && l.Panic == "" && l.abort == "" && !l.hung
}

type locParser struct {
	self string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	err  *tailBuf
}

func (p *locParser) stop() {
	if p.cmd != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

func (p *locParser) parse(c *Ctx, src string) (res locResult) {
	if p.cmd == nil {
		p.cmd = exec.Command(p.self, "-helper", "locparse")
		p.cmd.Env = []string{"GOTRACEBACK=single", "GOMAXPROCS=2"}
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var err error
		p.in, err = p.cmd.StdinPipe()
		must(err)
		o, err := p.cmd.StdoutPipe()
		must(err)
		p.out = bufio.NewReader(o)
		p.err = &tailBuf{}
		p.cmd.Stderr = p.err
		must(p.cmd.Start())
		c.Count("processes", 1)
	}
	io.WriteString(p.in, strconv.Itoa(len(src))+"\n"+src)
	type ans struct {
		b   []byte
		err error
	}
	ch := make(chan ans, 1)
	out := p.out
	go func() {
		b, err := out.ReadBytes('\n')
		ch <- ans{b, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			p.cmd.Wait()
			res.abort = p.err.String()
			if res.abort == "" {
				res.abort = "the process ended"
			}
			p.cmd = nil
			if strings.Contains(res.abort, "out of memory") || strings.Contains(res.abort, "stack exceeds") {
				res.hung = true
			}
			return res
		}
		must(json.Unmarshal(a.b, &res))
		if !res.accepted() {
			p.stop() // its lexer may still be running
		}
	case <-time.After(20 * time.Second):
		p.stop()
		<-ch
		res.hung = true
	}
	return res
}

// fault makes exactly one thing in the definition wrong.
func (d *ddef) fault(r *rand.Rand) (src, what string, lexical bool) {
	var heads, kws, ends []int
	for i, l := range d.lines {
		switch l.kind {
		case "head":
			heads = append(heads, i)
		case "kw":
			kws = append(kws, i)
		case "end":
			ends = append(ends, i)
		}
	}
	catOf := func(i int) int {
		for ; d.lines[i].kind != "head"; i-- {
		}
		for k, c := range dcats {
			if c.name == d.lines[i].toks[0].text {
				return k
			}
		}
		return -1
	}
	render := func() string {
		s, _ := d.render(r, oneIn(r, 2))
		return s
	}
	for {
		switch r.IntN(11) {
		case 0: // unknown category, with a matching END
			k := r.IntN(len(heads))
			n := pick(r, "LC_BUTT", "LC_CTYPES", "LC_TIM", "LC", "CTYPE", "LC_ALL", "LANG", "LC_PAPER", "LC_MONETARYY")
			d.lines[heads[k]].toks[0].text = n
			e := d.lines[ends[k]]
			e.toks = append([]dtok(nil), e.toks...)
			e.toks[1].text = n
			d.lines[ends[k]] = e
			return render(), "unknown category " + n, true
		case 1: // unknown keyword
			if len(kws) == 0 {
				continue
			}
			i := kws[r.IntN(len(kws))]
			w := d.lines[i].toks[0].text
			n := pick(r, w+"x", w[:len(w)-1], "x"+w, "bogus", "UPPER", "frac", w+"_", "charclas")
			for _, cat := range dcats {
				for _, kw := range cat.kws {
					if kw.word == n {
						n = "bogus"
					}
				}
			}
			d.lines[i].toks[0].text = n
			return render(), "unknown keyword " + n, true
		case 2: // keyword of another category, with a value of its own kind
			i := heads[r.IntN(len(heads))]
			k := catOf(i)
			o := r.IntN(len(dcats) - 1)
			if o == k {
				continue
			}
			kw := dcats[o].kws[r.IntN(len(dcats[o].kws))]
			v := d.value(r, dcats[o].name, kw)
			v[0].gap = ' '
			l := dline{toks: append([]dtok{{typ: kw.typ, text: kw.word}}, v...), kind: "kw"}
			at := i + 1
			if k != len(dcats)-1 && oneIn(r, 2) { // last in the category
				for d.lines[at].kind != "end" {
					at++
				}
			}
			d.lines = append(d.lines[:at:at], append([]dline{l}, d.lines[at:]...)...)
			return render(), kw.word + " in " + dcats[k].name, true
		case 3: // no END
			i := ends[r.IntN(len(ends))]
			d.lines = append(d.lines[:i:i], d.lines[i+1:]...)
			return render(), "missing END", i != len(d.lines)
		case 4: // wrong END
			i := ends[r.IntN(len(ends))]
			n := dcats[r.IntN(len(dcats))].name
			if n == d.lines[i].toks[1].text {
				n = pick(r, "LC_BUTT", n+"X", n[:len(n)-1], "LC")
			}
			d.lines[i].toks = append([]dtok(nil), d.lines[i].toks...)
			d.lines[i].toks[1].text = n
			return render(), "END " + n, true
		case 5: // unterminated string
			if len(kws) == 0 {
				continue
			}
			i := kws[r.IntN(len(kws))]
			t := d.lines[i].toks
			if t[len(t)-1].typ != '"' {
				continue
			}
			d.lines[i].toks = t[:len(t)-1]
			return render(), "unterminated string", true
		case 6: // a value of another kind
			if len(kws) == 0 {
				continue
			}
			i := kws[r.IntN(len(kws))]
			k := catOf(i)
			var kw dkw
			for _, x := range dcats[k].kws {
				if x.word == d.lines[i].toks[0].text {
					kw = x
				}
			}
			var v []dtok
			tok := func(s ...string) {
				for _, x := range s {
					v = append(v, dtok{text: x})
				}
			}
			str := []string{`"x"`, `"ab";"cd"`}
			num := []string{"3", "3;3", "-1"}
			chr := []string{"<A>", "<A>;<B>", "(<A>,<B>)", "word", "x", ";", "()", "..."}
			switch kw.kind {
			case kChars:
				tok(pick(r, append(append([]string{"(<A>,<B>)", "A", "<A", "A>", "<A>;;<B>", ";<A>", "<A>,<B>", "<A> <B>", "<A;B>", "<A>>", "<A>;B"}, str...), num...)...))
			case kPairs:
				tok(pick(r, append(append([]string{"<A>", "<A>;<B>", "(<A>)", "(<A>,<B>", "<A>,<B>", "(<A>;<B>)", "(<A>,<B>,<C>)", "(,<A>)", "(<A>,)", "()", "(<A>,<B>);<C>", "((<A>,<B>))"}, str...), num...)...))
			case kString:
				tok(pick(r, append(append([]string{`"a";"b"`, `"a" "b"`, "unquoted", `'x'`, `x"`, `"a"b`, `"a",`}, num...), chr...)...))
			case kStrings:
				tok(pick(r, append(append([]string{`"a" "b"`, `"a","b"`, `"a";3`, `"a";b`, `"a";;"b"`, `;"a"`}, num...), chr...)...))
			case kInt:
				tok(pick(r, append(append([]string{"2;3", "two", "1.5", "0x10", "1 2", "+", "-", "1-", "--1", "1-1", ";", "2;"}, str...), chr...)...))
			case kInts:
				tok(pick(r, append(append([]string{"3;x", "3 3", "3,3", "3;;3", ";3", "x", "3;\"3\"", "3-", "-", "3;-", "3;1-2", "1.5"}, str...), chr...)...))
			case kMsg:
				tok(pick(r, append(append([]string{`^[yY]`, `"a" "b"`, `"a";"b"`, `"a"x`, `x"a"`}, num...), chr...)...))
			}
			if oneIn(r, 12) {
				v = nil
			} else {
				v[0].gap = ' '
			}
			d.lines[i].toks = append(d.lines[i].toks[:1:1], v...)
			s := ""
			if len(v) > 0 {
				s = v[0].text
			}
			return render(), "value " + s + " of " + kw.word, false
		case 7: // text after the value
			if len(kws) == 0 {
				continue
			}
			i := kws[r.IntN(len(kws))]
			d.lines[i].toks = append(d.lines[i].toks[:len(d.lines[i].toks):len(d.lines[i].toks)], dtok{text: pick(r, "x", "junk", `"y"`, "<Z>", "=", ")"), gap: ' '})
			return render(), "text after the value", true
		case 8: // text after END or the header, or after everything
			i := pick(r, heads[r.IntN(len(heads))], ends[r.IntN(len(ends))])
			d.lines[i].toks = append(d.lines[i].toks[:len(d.lines[i].toks):len(d.lines[i].toks)], dtok{text: pick(r, "x", "LC_TIME", `"y"`, "<Z>", "END"), gap: ' '})
			return render(), "text after a category line", true
		case 9: // no header
			i := heads[r.IntN(len(heads))]
			d.lines = append(d.lines[:i:i], d.lines[i+1:]...)
			return render(), "missing header", true
		case 10: // an END too many, or cut in the middle of a category
			if oneIn(r, 2) {
				d.lines = append(d.lines, dline{toks: []dtok{{text: "END"}, {text: dcats[r.IntN(len(dcats))].name, gap: ' '}}, kind: "end"})
				return render(), "END without a header", true
			}
			i := heads[r.IntN(len(heads))]
			j := i + 1 + r.IntN(2)
			if d.lines[j-1].kind == "end" {
				continue
			}
			d.lines = d.lines[:j]
			return render(), "cut off", false
		}
	}
}

func runLocParse(c *Ctx) {
	r := c.R
	p := c.State.(*locParser)
	d := genDef(r)
	if c.Idx%3 != 0 {
		src, _ := d.render(r, oneIn(r, 3))
		c.Key(src)
		c.Desc("well formed: %q", src)
		res := p.parse(c, src)
		if res.hung {
			res = p.parse(c, src)
			if res.hung {
				c.Fail("parsing does not end (or takes all memory): %q", clip(src, 1500))
				return
			}
		}
		if !res.accepted() {
			c.Fail("a well-formed definition is refused (status %d, %s %s): %q", res.Status, res.Panic, clip(res.abort, 500), clip(src, 1500))
			return
		}
		c.Count("accepted", 1)
		if !locValues {
			c.Count("values", 1)
			return
		}
		if d.hasSym {
			c.Count("values", 1)
			if res.Sym != d.sym {
				c.Fail("int_curr_symbol recorded as %q, want %q: %q", res.Sym, d.sym, clip(src, 1500))
			}
		}
		if d.hasFrac {
			c.Count("values", 1)
			if res.Frac != d.frac {
				c.Fail("int_frac_digits recorded as %d, want %d: %q", res.Frac, d.frac, clip(src, 1500))
			}
		}
		if d.hasGroup {
			c.Count("values", 1)
			if sprintf("%v", res.Group) != sprintf("%v", d.group) {
				c.Fail("mon_grouping recorded as %v, want %v: %q", res.Group, d.group, clip(src, 1500))
			}
		}
		return
	}
	if oneIn(r, 4) {
		runLocNoise(c, d)
		return
	}
	src, what, lexical := d.fault(r)
	c.Key(src)
	c.Desc("fault (%s): %q", what, src)
	if !locHook && !lexical {
		c.Trivial()
		return
	}
	res := p.parse(c, src)
	if res.hung {
		res = p.parse(c, src)
		if res.hung {
			c.Fail("parsing does not end (or takes all memory): %q", clip(src, 1500))
			return
		}
	}
	c.Count("faults", 1)
	if res.accepted() {
		c.Fail("accepted in spite of a fault (%s): %q", what, clip(src, 1500))
	}
	_ = locale.EOL
}

// runLocNoise parses a damaged definition, or no definition at all; whatever
// comes of it, it must come to an end.
func runLocNoise(c *Ctx, d *ddef) {
	r := c.R
	p := c.State.(*locParser)
	src, _ := d.render(r, oneIn(r, 3))
	b := []byte(src)
	switch r.IntN(6) {
	case 0: // cut anywhere
		b = b[:r.IntN(len(b)+1)]
	case 1: // something lost
		i := r.IntN(len(b) + 1)
		j := min(len(b), i+1+size(r, 40))
		b = append(b[:i:i], b[j:]...)
	case 2: // something doubled
		i := r.IntN(len(b) + 1)
		j := min(len(b), i+1+size(r, 40))
		b = append(b[:j:j], b[i:]...)
	case 3: // other bytes
		for k := 1 + r.IntN(3); k > 0 && len(b) > 0; k-- {
			b[r.IntN(len(b))] = pick(r, '\n', '"', '\\', '<', '>', ';', '(', ')', ',', ' ', 0, 0xff, 'E', '1', '-', '#', byte(r.IntN(256)))
		}
	case 4: // without its last newline, or with another end
		b = append(bytes.TrimRight(b, "\n"), pick(r, "", "\\", "\"", "\\\n", "\nLC_TIME\n", "\nLC_TIME", "\nEND", "<", "\r", "\x00", "\nescape_char", "\ncomment_char /")...)
	case 5:
		b = blob(r, size(r, 300))
	}
	c.Key(string(b))
	c.Desc("damaged: %q", b)
	c.Count("damaged", 1)
	res := p.parse(c, string(b))
	if res.hung {
		res = p.parse(c, string(b))
		if res.hung {
			c.Fail("parsing does not end (or takes all memory): %q", clip(string(b), 1500))
		}
	}
}

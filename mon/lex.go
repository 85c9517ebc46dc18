//go:build go1.22

package main

import (
	"reflect"
	"strconv"
	"strings"

	"github.com/fwip/posix-utils/pkg/locale"
)

func init() {
	register(&Prop{ID: "C18", Level: "exploration", Quick: 150000, Thorough: 800000,
		Rule:      "well-formed definitions from a generator that knows every token (all six categories, all supported keywords, strings with all kinds of escapes), each in three random layouts (comment lines, continuations, indentation, blank lines, other comment and escape characters); the token stream is compared with the generator's and its concatenation with the source; non-trivial: every case",
		MinEvents: []string{"tokens", "continuations", "comments", "redefined_escape", "redefined_comment", "escaped"},
		Run:       runLex})
	register(&Prop{ID: "C20", Level: "exploration", Quick: 400000, Thorough: 8000000,
		Rule:      "era strings with drawn direction, offset, dates, name and format (empty fields, extra colons, any characters), and malformed ones (too few fields, other directions, non-integer offsets); every field of the decoded era is read back; non-trivial: every case",
		MinEvents: []string{"accepted", "refused", "extra_colons", "empty_fields"},
		Setup:     setupEra, Run: runEra})
}

func runLex(c *Ctx) {
	r := c.R
	d := genDef(r)
	var want []dtok
	for _, l := range d.lines {
		want = append(want, l.toks...)
		want = append(want, dtok{typ: locale.EOL, text: ""})
	}
	for layout := 0; layout < 3; layout++ {
		src, norm := d.render(r, layout == 0)
		c.Key(src)
		c.Desc("%q", src)
		if strings.Contains(src, string(d.esc)+"\n") {
			c.Count("continuations", 1)
		}
		if strings.Count(src, "\n"+string(d.comment)) > 0 || strings.HasPrefix(src, string(d.comment)) {
			c.Count("comments", 1)
		}
		if d.esc != '\\' {
			c.Count("redefined_escape", 1)
		}
		if d.comment != '#' {
			c.Count("redefined_comment", 1)
		}
		var got []dtok
		var cat strings.Builder
		p, st := Catch(func() {
			l := locale.NewLexer(src)
			for {
				t, done := l.NextToken()
				if done {
					return
				}
				cat.WriteString(t.Value)
				c.Count("tokens", 1)
				if int(t.Type) == locale.WHITESPACE {
					if t.Value == "" || strings.Trim(t.Value, " \t") != "" {
						c.Fail("white-space token %q in %q", t.Value, clip(src, 600))
					}
					continue
				}
				v := t.Value
				if int(t.Type) == locale.EOL {
					if strings.Trim(v, " \t\n\r") != "" || !strings.Contains(v, "\n") {
						c.Fail("end-of-line token %q in %q", v, clip(src, 600))
					}
					v = ""
				}
				got = append(got, dtok{typ: int(t.Type), text: v})
				if len(got) > 10*len(want)+100 {
					c.Fail("endless tokens for %q", clip(src, 600))
					return
				}
			}
		})
		if p != nil {
			c.Fail("panic: %v on %q\n%s", p, clip(src, 1000), clip(st, 1500))
			return
		}
		for i := 0; i < len(got) || i < len(want); i++ {
			if i >= len(got) || i >= len(want) || got[i].typ != want[i].typ || got[i].text != want[i].text {
				g, w := "nothing", "nothing"
				if i < len(got) {
					g = sprintf("type %d %q", got[i].typ, got[i].text)
				}
				if i < len(want) {
					w = sprintf("type %d %q", want[i].typ, want[i].text)
				}
				c.Fail("token %d is %s, want %s; source %q", i, g, w, clip(src, 1500))
				return
			}
			if want[i].typ == locale.OCTAL_CHAR || want[i].typ == locale.HEX_CHAR || want[i].typ == locale.DECIMAL_CHAR {
				c.Count("escaped", 1)
			}
		}
		if g, w := strings.TrimRight(cat.String(), "\n"), strings.TrimRight(norm, "\n"); g != w {
			c.Fail("the tokens do not concatenate to the source: %s; source %q", show([]byte(g), []byte(w)), clip(src, 1500))
			return
		}
	}
}

// ---- C20 eras

// where each part of an era is recorded
var eraField = map[string]int{}

func setupEra(w *W) {
	t := reflect.TypeOf(locale.Era{})
	for _, f := range []struct {
		role  string
		hints []string
		kind  reflect.Kind
	}{
		{"reverse", []string{"reverse", "direction", "dir", "backward", "negative"}, reflect.Bool},
		{"offset", []string{"offset"}, reflect.Int},
		{"start", []string{"start", "from", "begin"}, reflect.String},
		{"end", []string{"end", "to", "until"}, reflect.String},
		{"name", []string{"name"}, reflect.String},
		{"format", []string{"format", "fmt"}, reflect.String},
	} {
		for i := 0; i < t.NumField() && eraField[f.role] == 0; i++ {
			for _, h := range f.hints {
				if t.Field(i).Type.Kind() == f.kind && strings.Contains(strings.ToLower(t.Field(i).Name), h) {
					eraField[f.role] = i + 1
					break
				}
			}
		}
	}
}

func runEra(c *Ctx) {
	r := c.R
	text := func(colons bool) string {
		var sb strings.Builder
		if oneIn(r, 8) {
			c.Count("empty_fields", 1)
			return ""
		}
		alpha := []rune("平成%ECy年 abc/0123-+*.;\\\"é\n\t")
		n := 1 + r.IntN(8)
		if oneIn(r, 50) {
			n = 1 + size(r, 3000)
		}
		for k := n; k > 0; k-- {
			if colons && oneIn(r, 5) {
				sb.WriteByte(':')
				c.Count("extra_colons", 1)
				continue
			}
			sb.WriteRune(alpha[r.IntN(len(alpha))])
		}
		return sb.String()
	}
	date := func() string {
		if oneIn(r, 3) {
			return text(false)
		}
		return pick(r, "1990/01/01", "+*", "-*", "-0001/12/31", "0001/01/01", sprintf("%04d/%02d/%02d", r.IntN(3000), 1+r.IntN(12), 1+r.IntN(31)))
	}
	dir := pick(r, "+", "-")
	off := r.IntN(2000) - 500
	if oneIn(r, 6) {
		off = pick(r, 0, 1, -1, 1<<31-1, -1<<31, 1<<40, 1<<62)
	}
	offText := strconv.Itoa(off)
	if off >= 0 && oneIn(r, 6) {
		offText = pick(r, "+", "0", "000") + offText
	}
	fields := []string{dir, offText, date(), date(), text(false), text(true)}
	bad := ""
	switch r.IntN(8) {
	case 0:
		fields[0] = pick(r, "", "*", "++", " +", "-+", "+-", "x", "1", "--", "+ ", "−", "forward")
		bad = "direction"
	case 1:
		fields[1] = pick(r, "", "x", "1.5", " 1", "1 ", "0x10", "1e3", "--1", "-", "+", "one", "1,2", "2a", "٣")
		bad = "offset"
	case 2:
		fields[5] = text(false)
		fields = fields[:r.IntN(6)]
		bad = "fields"
	}
	in := strings.Join(fields, ":")
	c.Key(in)
	c.Desc("%q (%s)", in, bad)
	var e locale.Era
	var err error
	if p, st := Catch(func() { e, err = locale.NewEra(in) }); p != nil {
		c.Fail("panic on %q: %v\n%s", in, p, clip(st, 1500))
		return
	}
	if bad != "" {
		c.Count("refused", 1)
		if err == nil {
			c.Fail("%q is accepted (bad %s)", in, bad)
		}
		return
	}
	c.Count("accepted", 1)
	if err != nil {
		c.Fail("%q is refused: %v", in, err)
		return
	}
	v := reflect.ValueOf(e)
	str := func(role, want string) {
		if i := eraField[role]; i > 0 {
			c.Count("fields", 1)
			if got := v.Field(i - 1).String(); got != want {
				c.Fail("%q: %s is %q, want %q", in, role, got, want)
			}
		}
	}
	if i := eraField["reverse"]; i > 0 {
		c.Count("fields", 1)
		if got := v.Field(i - 1).Bool(); got != (dir == "-") {
			c.Fail("%q: reverse is %v", in, got)
		}
	}
	if i := eraField["offset"]; i > 0 {
		c.Count("fields", 1)
		if got := v.Field(i - 1).Int(); got != int64(off) {
			c.Fail("%q: offset is %d, want %d", in, got, off)
		}
	}
	str("start", fields[2])
	str("end", fields[3])
	str("name", fields[4])
	str("format", fields[5])
}

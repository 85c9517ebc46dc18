//go:build go1.22

package main

import (
	"math"
	"math/rand/v2"
	"regexp"
	"strconv"
	"strings"

	"github.com/fwip/posix-utils/pkg/flag"
)

func init() {
	register(&Prop{ID: "C16", Level: "exploration", Quick: 8000000, Thorough: 60000000,
		Rule:      "option declarations (0-8, some up to 80, of any kind, ASCII and not) x argument lists of 0-8 (some of up to 400) arguments drawn from bundles, attached and separate values, option look-alikes as values, --, -, empty strings, operands, undeclared options, missing values, integers and non-integers; oracle: the POSIX guidelines as a small interpreter; non-trivial: at least one argument starts with -",
		MinEvents: []string{"bools", "strings", "ints", "attached", "separate", "dashdash", "errors", "bad_ints", "missing_values", "undeclared", "operands", "many", "many_declared"},
		Run:       runFlags})
}

var okInt = regexp.MustCompile(`^-?(0|[1-9][0-9]{0,17})$`)
var badInt = regexp.MustCompile(`^$|^[-+]*$|[^-+0-9a-zA-Z_]|^[g-zG-Z]|.[-+]|\.|[0-9][g-nG-Np-wP-Wy-zY-Z]`)

func runFlags(c *Ctx) {
	r := c.R
	alpha := []rune("abnrkxVZ019?éñ漢:=-+\ufffd")
	type opt struct {
		name rune
		kind int
		b    bool
		s    string
		i    int64
		// model
		mb bool
		ms string
		mi int64
	}
	var opts []*opt
	by := map[rune]*opt{}
	declared := r.IntN(9)
	if oneIn(r, 200) { // all letters and digits, and more
		for k := range 26 {
			alpha = append(alpha, rune('a'+k), rune('A'+k), rune('α'+k))
		}
		for k := range 10 {
			alpha = append(alpha, rune('0'+k))
		}
		declared = 20 + r.IntN(200)
		c.Count("many_declared", 1)
	}
	for k := declared; k > 0; k-- {
		n := alpha[r.IntN(len(alpha))]
		if n == '-' && !oneIn(r, 3) {
			continue
		}
		if by[n] == nil {
			o := &opt{name: n, kind: r.IntN(3)}
			if oneIn(r, 4) { // a preset value is kept when the option does not occur
				o.s, o.i = "preset", 77
				o.ms, o.mi = o.s, o.i
			}
			by[n] = o
			opts = append(opts, o)
		}
	}
	val := func() string {
		return pick(r, "5", "-7", "0", "12", "abc", "x y", "", "-", "--", "-a", "-n", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "3x", "1.5", "é", "=v", "\xff", "-1", "007", " 4", "a=b", strconv.Itoa(r.IntN(100000)))
	}
	var args []string
	many := oneIn(r, 100) && len(opts) > 0 // many options, or many in a bundle
	some := r.IntN(8)
	if many && oneIn(r, 2) {
		some = 10 + r.IntN(pick(r, 20, 100, 400))
		c.Count("many", 1)
	}
	for k := some; k > 0; k-- {
		kind := r.IntN(10)
		if some > 8 && !oneIn(r, some) {
			kind = 0
		}
		switch kind {
		case 0, 1, 2, 3, 4: // a bundle
			var sb strings.Builder
			sb.WriteByte('-')
			bundle := 1 + r.IntN(3)
			if many && some <= 8 {
				bundle = 1 + r.IntN(pick(r, 20, 40, 300))
				c.Count("many", 1)
			}
			for j := bundle; j > 0; j-- {
				if many {
					o := opts[r.IntN(len(opts))]
					for k := 0; k < 6 && o.kind != 0 && !oneIn(r, 3*bundle); k++ {
						o = opts[r.IntN(len(opts))]
					}
					sb.WriteRune(o.name)
				} else if len(opts) > 0 && !oneIn(r, 12) {
					sb.WriteRune(opts[r.IntN(len(opts))].name)
				} else {
					sb.WriteRune(alpha[r.IntN(len(alpha))])
				}
			}
			if oneIn(r, 60) {
				sb.WriteString(pick(r, "\xff", "\xc3", "\xe6\xbc", "\xed\xa0\x80"))
			}
			if oneIn(r, 3) && (!many || oneIn(r, some)) {
				sb.WriteString(val())
			}
			args = append(args, sb.String())
			if oneIn(r, 2) && (some <= 8 || by[[]rune(sb.String())[len([]rune(sb.String()))-1]] != nil && by[[]rune(sb.String())[len([]rune(sb.String()))-1]].kind != 0) {
				args = append(args, val())
			}
		case 5, 6:
			args = append(args, val())
		case 7:
			args = append(args, pick(r, "--", "-", "", "---", "--x"))
		default:
			args = append(args, genOperand(r))
		}
	}
	// model
	var rest []string
	fail := ""
	unsure := false
	nontrivial := false
model:
	for i := 0; i < len(args); i++ {
		a := args[i]
		if a == "" || a == "-" || a[0] != '-' {
			rest = args[i:]
			break
		}
		nontrivial = true
		if a == "--" {
			rest = args[i+1:]
			c.Count("dashdash", 1)
			break
		}
		body := a[1:]
		for body != "" {
			ru := []rune(body)[0]
			w := len(string(ru))
			if ru == 0xfffd && !strings.HasPrefix(body, "\xef\xbf\xbd") {
				w = 1
				if by[ru] != nil { // is it that option?
					unsure = true
					break model
				}
			}
			o := by[ru]
			if o == nil {
				fail = sprintf("undeclared option %q", ru)
				c.Count("undeclared", 1)
				break model
			}
			body = body[w:]
			if o.kind == 0 {
				o.mb = true
				c.Count("bools", 1)
				continue
			}
			v := body
			if body == "" {
				i++
				if i >= len(args) {
					fail = "missing value"
					c.Count("missing_values", 1)
					break model
				}
				v = args[i]
				c.Count("separate", 1)
			} else {
				c.Count("attached", 1)
			}
			body = ""
			if o.kind == 1 {
				o.ms = v
				c.Count("strings", 1)
				break
			}
			switch {
			case okInt.MatchString(v):
				o.mi, _ = strconv.ParseInt(v, 10, 64)
				c.Count("ints", 1)
			case v == "9223372036854775807":
				o.mi = math.MaxInt64
			case v == "-9223372036854775808":
				o.mi = math.MinInt64
			case badInt.MatchString(v):
				fail = sprintf("value %q of an integer option", v)
				c.Count("bad_ints", 1)
				break model
			case regexp.MustCompile(`^-?[1-9][0-9]{19,}$`).MatchString(v) || v == "9223372036854775808":
				fail = "integer out of range"
				break model
			default:
				unsure = true
				break model
			}
		}
	}
	if !nontrivial || unsure {
		c.Trivial()
	}
	decl := ""
	for _, o := range opts {
		decl += sprintf("%q:%s ", o.name, []string{"bool", "string", "int"}[o.kind])
	}
	c.Key(decl, sprintf("%q", args))
	c.Desc("declared %s arguments %q", decl, args)
	in := append(append(make([]string, 0, len(args)+2), args...), "spare1", "spare2")
	p := flag.Parser{Input: in[:len(args)]}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	var got []string
	var err error
	pp, st := Catch(func() {
		for _, o := range opts {
			switch o.kind {
			case 0:
				p.BoolVar(&o.b, o.name)
			case 1:
				p.StringVar(&o.s, o.name)
			case 2:
				p.IntVar(&o.i, o.name)
			}
		}
		got, err = p.Parse()
	})
	if pp != nil {
		c.Fail("panic: %v\n%s", pp, st)
		return
	}
	if !eqLines(in[:len(args)], args) || in[:len(args)+2][len(args)] != "spare1" || in[:len(args)+2][len(args)+1] != "spare2" {
		c.Fail("the argument list was modified: %q", in)
	}
	if unsure {
		c.Count("unsure", 1)
		return
	}
	if fail != "" {
		c.Count("errors", 1)
		if err == nil {
			c.Fail("no error for %s", fail)
		}
		return
	}
	if err != nil {
		c.Fail("unexpected error %v", err)
		return
	}
	c.Count("operands", len(rest))
	if !eqLines(got, rest) {
		c.Fail("remaining arguments %q, want %q", got, rest)
	}
	for _, o := range opts {
		if o.b != o.mb || o.s != o.ms || o.i != o.mi {
			c.Fail("option %q is %v %q %d, want %v %q %d", o.name, o.b, o.s, o.i, o.mb, o.ms, o.mi)
		}
	}
}

func genOperand(r *rand.Rand) string {
	return pick(r, "file", "a b", "é", "x-y", "+5", "7", ".", "=", "\xff\xfe", "/tmp/x", " -a")
}

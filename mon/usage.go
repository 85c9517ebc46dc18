//go:build go1.22

package main

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "C28", Level: "exploration", Quick: 60000, Thorough: 500000,
		Rule:      "argument lists that are malformed by construction: cmp and diff with no, one or more than two operands, diff -C and -U without a number or with something else, head -n without a number or with something else, in every place among good options and operands, with readable and unreadable files, an input that is never sent, and any environment; and their well-formed relatives, which must be accepted; judged: status, diagnostic, empty output; non-trivial: every case",
		MinEvents: []string{"cmp", "diff", "head", "operands", "no_number", "other_value", "accepted"},
		Run:       runUsage})
}

func runUsage(c *Ctx) {
	r := c.R
	dir := c.Dir()
	util := []string{"cmp", "diff", "head"}[c.Idx%3]
	var names []string
	for i := 0; i < 4; i++ {
		n := name(r) + strconv.Itoa(i)
		c.write(n, []byte(pick(r, "a\n", "a\nb\n", "", "same\n", "no newline")))
		names = append(names, n)
	}
	file := func() string {
		if oneIn(r, 8) {
			return pick(r, "nosuch", ".", "nosuch/x", "")
		}
		return names[r.IntN(len(names))]
	}
	number := func() string { return strconv.Itoa(r.IntN(20)) }
	notNumber := func() string {
		return pick(r, "", "x", "1x", "x1", "1.5", " 1", "1 ", "1e2", "0x", "--", "-", "one", "1,2", "+", "99999999999999999999999", "a", "-n", "1_000", "٣", "1\n", "½", names[0])
	}
	var args []string
	what := ""
	opt := func() {
		switch util {
		case "cmp":
			args = append(args, pick(r, "-l", "-s"))
		case "diff":
			switch r.IntN(3) {
			case 0:
				args = append(args, pick(r, "-C", "-U"), number())
			default:
				args = append(args, pick(r, "-b", "-c", "-e", "-f", "-r", "-u"))
			}
		case "head":
			args = append(args, "-n", number())
		}
	}
	n := 2 // operands
	if util == "head" {
		n = r.IntN(4)
	}
	bad := -1 // the place of the malformed option
	switch k := r.IntN(6); {
	case k == 0:
		what = "accepted"
	case k <= 2 && util != "head" || util == "cmp":
		n = pick(r, 0, 1, 3, 3, 4, 5+r.IntN(20))
		what = "operands"
	case k == 3:
		what = "no_number"
	default:
		what = "other_value"
		bad = r.IntN(n + 1)
	}
	for i := 0; i <= n; i++ {
		if oneIn(r, 4) && (util != "head" || oneIn(r, 2)) {
			opt()
		}
		if i == bad {
			if util == "head" {
				args = append(args, "-n", notNumber())
			} else {
				args = append(args, pick(r, "-C", "-U"), notNumber())
			}
			if oneIn(r, 6) {
				opt()
			}
		}
		if i < n {
			f := file()
			if what == "accepted" {
				f = names[r.IntN(len(names))]
				if util == "diff" || util == "cmp" { // comparing is not this property's business
					f = names[0]
				}
			}
			if what == "operands" && n > 2 && oneIn(r, 5) {
				f = "-"
			}
			args = append(args, f)
		}
	}
	if what == "no_number" {
		o := "-n"
		if util == "diff" {
			o = pick(r, "-C", "-U")
		}
		args = append(args, o)
	}
	c.Desc("%s %q (%s)", util, args, what)
	c.Key(util, args)
	cmd := Cmd{Name: util, Args: args, Dir: dir, Stdin: []byte("input\n")}
	if what != "accepted" { // it must not need any input
		pr, pw, err := os.Pipe()
		must(err)
		defer pw.Close()
		defer pr.Close()
		cmd.StdinR = pr
		if util == "head" && strings.Contains(" "+strings.Join(args, " ")+" ", " - ") {
			pw.Close()
		}
	}
	before := snapNames(dir)
	res := c.Run(cmd)
	if res.Hung {
		return
	}
	c.Count(util, 1)
	c.Count(what, 1)
	if after := snapNames(dir); after != before {
		c.Fail("files: %s, were %s", after, before)
	}
	if what == "accepted" {
		if res.Code != 0 || len(res.Err) != 0 {
			c.Fail("a well-formed command line: %s", res)
		}
		return
	}
	low := 1
	if util != "head" {
		low = 2
	}
	if res.Sig != 0 || res.Code < low || len(res.Err) == 0 || len(res.Out) != 0 {
		c.Fail("malformed (%s), want a status of at least %d, a diagnostic and no output: %s", what, low, res)
	}
}

func snapNames(dir string) string {
	es, err := os.ReadDir(dir)
	must(err)
	var s []string
	for _, e := range es {
		s = append(s, filepath.Base(e.Name()))
	}
	return strings.Join(s, "|")
}

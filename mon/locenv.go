//go:build go1.22

package main

import (
	"math/rand/v2"
	"os"

	"github.com/fwip/posix-utils/pkg/locale"
)

func init() {
	register(&Prop{ID: "C09", Level: "exploration", Quick: 20000, Thorough: 300000,
		Rule:      "environments that set, empty or leave out each of the eight variables independently, with values of any bytes but NUL (quotes, percent signs, newlines, long ones) and unrelated variables, through the library and (one case in five) the command; non-trivial: some variable is set",
		MinEvents: []string{"commands", "lang", "all", "own", "odd"},
		Run:       runLocaleEnv})
}

var locVars = []string{"LANG", "LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME", "LC_ALL"}

func genLocValue(r *rand.Rand, c *Ctx) string {
	switch r.IntN(4) {
	case 0, 1:
		return pick(r, "C", "POSIX", "en_US.UTF-8", "de_DE@euro", "fr_FR", "/path/to/locale")
	case 2:
		c.Count("odd", 1)
		return pick(r, " ", "\"", "%s", "%d%!", "100%", "a\nb", "a=b", "\\n", "$HOME", "`id`", "'q'", "\xff", "é", "=", "\"quoted\"", "\t", "LC_ALL=C", "%", "%%", "\r")
	}
	n := 1 + r.IntN(12)
	if oneIn(r, 40) {
		n = 1 + size(r, 30000)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + r.IntN(255))
	}
	return string(b)
}

func runLocaleEnv(c *Ctx) {
	r := c.R
	vals := map[string]string{}
	set := map[string]bool{}
	for _, v := range locVars {
		switch k := r.IntN(5); {
		case k == 0 || v == "LC_ALL" && k < 3:
		case k == 1:
			set[v] = true
		default:
			set[v] = true
			vals[v] = genLocValue(r, c)
		}
	}
	if len(set) == 0 {
		c.Trivial()
	}
	if vals["LC_ALL"] != "" {
		c.Count("all", 1)
	}
	eff := func(v string) string {
		if vals["LC_ALL"] != "" {
			return `"` + vals["LC_ALL"] + `"`
		}
		if vals[v] != "" {
			c.Count("own", 1)
			return vals[v]
		}
		c.Count("lang", 1)
		return `"` + vals["LANG"] + `"`
	}
	want := `LANG="` + vals["LANG"] + "\"\n"
	for _, v := range locVars[1:7] {
		want += v + "=" + eff(v) + "\n"
	}
	want += "LC_ALL=" + vals["LC_ALL"] + "\n"
	c.Key(sprintf("%q %v", vals, set))
	c.Desc("%s", clip(sprintf("%q set %v", vals, set), 900))
	var got string
	if c.Idx%5 == 0 {
		c.Count("commands", 1)
		env := []string{"PATH=/usr/bin:/bin", "GOMAXPROCS=2"}
		if oneIn(r, 2) {
			env = append(env, "LANGUAGE=xx", "LC_PAPER=yy", "LC=zz", "LC_ALLX=qq", "XLANG=r", "lang=low")
		}
		for v := range set {
			env = append(env, v+"="+vals[v])
		}
		res := c.Run(Cmd{Name: "locale", Env: env})
		if res.Hung {
			return
		}
		if res.Code != 0 || len(res.Err) != 0 {
			c.Fail("%s", res)
			return
		}
		got = string(res.Out)
	} else {
		for _, v := range locVars {
			if set[v] {
				must(os.Setenv(v, vals[v]))
			} else {
				must(os.Unsetenv(v))
			}
		}
		p, st := Catch(func() { got = locale.FromEnv().String() })
		if p != nil {
			c.Fail("panic: %v\n%s", p, st)
			return
		}
	}
	if got != want {
		c.Fail("%s", show([]byte(got), []byte(want)))
	}
}

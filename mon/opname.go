//go:build go1.22

package main

import (
	"math/rand/v2"
	"net/url"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	register(&Prop{ID: "C31", Level: "exploration", Quick: 14000, Thorough: 250000,
		Rule:      "cat, cksum, cmp, diff, head, tsort and ed with an operand of any bytes (blanks at either end, line ends, commands after a line end, invalid UTF-8, shell and path syntax, dashes, long names), with and without directories and links before it, among files whose names are easily confused with it and hold something else; or with all of those but the one that is named; non-trivial: every case",
		MinEvents: []string{"cat", "cksum", "cmp", "diff", "ed", "head", "tsort", "present", "absent", "saved", "decoys"},
		Run:       runOpName})
}

// opName draws the name of a file.
func opName(r *rand.Rand) string {
	part := func() string {
		return pick(r, "a", "f", "file", "data.txt", "x y", " ", "\t", "\n", "\r", "\r\n", "\v", "\u00a0", "\ufeff", "\xff", "\xc3", "\xed\xa0\x80", "é", "e\u0301", "漢", "A", "*", "?", "[a]", "{a,b}", "~", "$HOME", "$$", "`a`", "\\", "\\n", "\\ ", "'", "\"", "%", "%20", "%s", "%41", ".", "..", ".gz", ",v", "-", "--", "-u", "-n", "+1", "#", "!", "!a", "|", ";", "&", ":", "=", "@", "=\nq", "\nq", "\n1,$d\nw", "\n.", "\x01", "\x7f", "0", "1", strings.Repeat("n", 90))
	}
	for {
		s := ""
		for k := 1 + r.IntN(4); k > 0; k-- {
			s += part()
		}
		if oneIn(r, 25) { // what other programs take for options
			s = pick(r, "-", "-", "+", "-n", "-C", "-U", "--", "-f", "--lines=", "-c", "-i") + pick(r, "1", "2", "5", "5x", "10", "help", "version", "99")
		}
		switch s {
		case ".", "..", "-", "-u", "-l", "-s", "-b", "-c", "-C", "-e", "-f", "-r", "-U", "-n", "--":
			continue
		}
		if len(s) <= 245 {
			return s
		}
	}
}

// confusable gives the names that a utility might take for n.
func confusable(r *rand.Rand, n string) []string {
	first, _, _ := strings.Cut(n, "\n")
	out := []string{
		strings.TrimSpace(n), strings.TrimLeft(n, " \t"), strings.TrimRight(n, " \t"), strings.TrimRight(n, "\r\n"), strings.TrimSuffix(n, "\r"), first,
		strings.TrimSuffix(first, "\r"), strings.TrimLeft(first, " \t"),
		strings.ToValidUTF8(n, "\ufffd"), strings.ToValidUTF8(n, ""), strings.ToValidUTF8(n, "?"), string([]rune(n)),
		strings.ToLower(n), strings.ToUpper(n), filepath.Clean(n), strings.TrimLeft(n, "-"), strings.TrimLeft(n, "."), strings.TrimPrefix(n, "!"), strings.TrimPrefix(n, "+1"),
		strings.ReplaceAll(n, "\\", ""), strings.ReplaceAll(n, "\\n", "\n"), strings.ReplaceAll(n, "$HOME", "/"), strings.ReplaceAll(n, "~", "home"),
		strings.Trim(n, "'\""), strings.ReplaceAll(n, "*", "a"), strings.ReplaceAll(n, "?", "a"), strings.ReplaceAll(n, "[a]", "a"), strings.ReplaceAll(n, "%", "%%"),
		strings.TrimSuffix(n, filepath.Ext(n)), n + ".gz", n + ".txt", "./" + n, n + " ", " " + n, n + "\n", strings.ReplaceAll(n, "e\u0301", "é"), strings.ReplaceAll(n, "é", "e\u0301"),
		strings.ReplaceAll(n, "\ufeff", ""), strings.ReplaceAll(n, "\u00a0", " "), strings.ReplaceAll(n, " ", ""), strings.ReplaceAll(n, "\\", "/"), strings.ReplaceAll(n, "\x01", ""),
	}
	if x, err := url.PathUnescape(n); err == nil {
		out = append(out, x)
	}
	if f := strings.Fields(n); len(f) > 0 {
		out = append(out, f[0], strings.Join(f, " "))
	}
	if len(n) > 1 {
		out = append(out, n[:len(n)-1], n[1:])
	}
	if len(n) > 64 {
		out = append(out, n[:64])
	}
	var res []string
	seen := map[string]bool{n: true}
	for _, s := range out {
		if s == "" || s == "." || s == ".." || len(s) > 255 || strings.ContainsAny(s, "/\x00") || seen[s] {
			continue
		}
		seen[s] = true
		res = append(res, s)
	}
	return res
}

func runOpName(c *Ctx) {
	r := c.R
	dir := c.Dir()
	utils := []string{"cat", "cksum", "cmp", "diff", "ed", "head", "tsort"}
	util := utils[c.Idx%len(utils)]
	c.Count(util, 1)
	n := opName(r)
	if oneIn(r, 60) {
		runEmptyName(c, util)
		return
	}
	right := sprintf("right%d here\n", r.IntN(1000))
	wrong := "wrong there\n"
	where := pick(r, "", "", "", "", "./", "sub/", "../"+filepath.Base(dir)+"/", dir+"/", "sub/../", ".//", "link/../", "sub/link/../")
	base := dir
	must(os.MkdirAll(filepath.Join(dir, "sub", "deep"), 0755))
	must(os.Symlink("sub/deep", filepath.Join(dir, "link")))
	must(os.MkdirAll(filepath.Join(dir, "other", "deep"), 0755))
	must(os.Symlink("../other/deep", filepath.Join(dir, "sub", "link")))
	switch where {
	case "sub/", "link/../":
		base = filepath.Join(dir, "sub")
	case "sub/link/../":
		base = filepath.Join(dir, "other")
	}
	present := !oneIn(r, 4)
	if present {
		must(os.WriteFile(filepath.Join(base, n), []byte(right), 0644))
		c.Count("present", 1)
	} else {
		c.Count("absent", 1)
	}
	for _, d := range confusable(r, n) {
		p := filepath.Join(base, d)
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		must(os.WriteFile(p, []byte(wrong), 0644))
		c.Count("decoys", 1)
	}
	for _, d := range []string{"", "sub", "sub/deep", "other"} { // the same name elsewhere
		if p := filepath.Join(dir, d, n); filepath.Dir(p) != base && !oneIn(r, 3) {
			if _, err := os.Lstat(p); err != nil {
				must(os.WriteFile(p, []byte(wrong), 0644))
			}
		}
	}
	ref := filepath.Join(c.Dir(), "ref")
	must(os.WriteFile(ref, []byte(right), 0644))
	op := where + n
	if !oneIn(r, 40) {
	} else if i, err := os.Lstat(filepath.Join(base, n)); err == nil && i.Mode().IsRegular() { // not a directory
		op += "/"
		present = false
		wrong = right
		c.Count("slash", 1)
	}
	c.Key(util, op, present)
	c.Desc("%s %q, present %v", util, op, present)
	x := Cmd{Name: util, Args: []string{op}, Dir: dir, Stdin: []byte("standard input\n")}
	switch util {
	case "cmp", "diff":
		x.Args = []string{op, ref}
		if oneIn(r, 2) {
			x.Args = []string{ref, op}
		}
	case "head":
		if oneIn(r, 3) {
			x.Args = []string{"-n", "4", op}
		}
	case "ed":
		x.Stdin = []byte("1,$p\n")
		if present && oneIn(r, 2) {
			x.Stdin = []byte("1,$p\n$a\nmore\n.\nw\n")
		}
	}
	before := snap(dir)
	res := c.Run(x)
	if res.Hung {
		return
	}
	after := snap(dir)
	saved := util == "ed" && strings.HasSuffix(string(x.Stdin), "w\n")
	if saved {
		c.Count("saved", 1)
		rel, _ := filepath.Rel(dir, filepath.Join(base, n))
		if e := fileIs(filepath.Join(base, n), right+"more\n", 0); e != "" {
			c.Fail("ed %q, %q: the file: %s; answers %s", op, x.Stdin, e, res)
		}
		if d := snapDiff(before, after, rel); d != "" {
			c.Fail("ed %q, %q: another file: %s", op, x.Stdin, d)
		}
	} else if d := snapDiff(before, after); d != "" {
		c.Fail("%s %q: %s", util, op, d)
	}
	out := string(res.Out)
	if !present {
		if strings.Contains(out, strings.TrimSpace(wrong)) {
			c.Fail("%s %q reads another file: %s", util, op, res)
		}
		if util == "ed" {
			if !strings.HasPrefix(out, "?") {
				c.Fail("ed %q, no such file, answers %s", op, res)
			}
		} else if res.Code == 0 || len(res.Err) == 0 {
			c.Fail("%s %q, no such file: %s", util, op, res)
		}
		return
	}
	want := right
	switch util {
	case "cksum":
		want = sprintf("%d %d %s\n", posixCksum([]byte(right)), len(right), op)
	case "cmp", "diff":
		want = ""
	case "tsort":
		want = strings.Replace(right, " ", "\n", 1)
	case "ed":
		want = "\n" + right
		if saved {
			want += "\n\n"
		}
	}
	if out != want || res.Code != 0 {
		c.Fail("%s %q: want %q, got %s", util, op, want, res)
	}
}

// runEmptyName gives an empty operand, which names no file.
func runEmptyName(c *Ctx, util string) {
	r := c.R
	dir := c.Dir()
	for _, n := range []string{"f", "a", "-"} {
		must(os.WriteFile(filepath.Join(dir, n), []byte("wrong there\n"), 0644))
	}
	x := Cmd{Name: util, Args: []string{""}, Dir: dir, Stdin: []byte("wrong there\n")}
	switch util {
	case "cmp", "diff":
		x.Args = []string{"", "f"}
		if oneIn(r, 2) {
			x.Args = []string{"f", ""}
		}
	case "ed":
		x.Stdin = []byte("1,$p\n")
	}
	c.Key(util, x.Args)
	c.Desc("%s %q", util, x.Args)
	c.Count("empty", 1)
	before := snap(dir)
	res := c.Run(x)
	if res.Hung {
		return
	}
	if d := snapDiff(before, snap(dir)); d != "" {
		c.Fail("%s %q: %s", util, x.Args, d)
	}
	if strings.Contains(string(res.Out), "wrong") {
		c.Fail("%s %q reads something: %s", util, x.Args, res)
	}
	if util == "ed" {
		if !strings.HasPrefix(string(res.Out), "?") {
			c.Fail("ed %q answers %s", x.Args, res)
		}
	} else if res.Code == 0 || len(res.Err) == 0 {
		c.Fail("%s %q: %s", util, x.Args, res)
	}
}

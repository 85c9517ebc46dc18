//go:build go1.22

package main

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/fwip/posix-utils/pkg/ed"
)

func init() {
	register(&Prop{ID: "C13", Level: "fault_enumeration", Quick: 7000, Thorough: 80000,
		Rule:      "saves of whole buffers and ranges to the remembered and to named files of every mode, through links, in histories of edits and saves; saves that meet directories, missing, unwritable or unsearchable places, link loops, too long names, a foreign file where a temporary one could be, file size limits; for sampled saves every file system call of the save in turn is made to fail (each with several errors) or is the point at which the process is killed; and processes killed at random times while an observer reads the file; judged by a snapshot of everything around the file, before and after, against the answer; non-trivial: every case",
		MinEvents: []string{"histories", "saves", "ranges_saved", "links", "modes", "hostile", "refused", "retried", "limits", "injected", "crashed", "crash_old", "crash_new", "random_kills", "observations"},
		Setup:     setupEd, Run: runEdSave})
}

// snap records everything under a directory.
func snap(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if fi == nil {
			out[rel] = "unreadable"
			return nil
		}
		d := fi.Mode().String() + " "
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			d += "-> " + t
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil { // not readable by its owner
				os.Chmod(p, fi.Mode()|0400)
				b, err = os.ReadFile(p)
				os.Chmod(p, fi.Mode())
			}
			d += sprintf("%q", b)
		}
		out[rel] = d
		return nil
	})
	return out
}

func snapDiff(a, b map[string]string, except ...string) string {
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		skip := false
		for _, e := range except {
			skip = skip || e == k
		}
		x, okx := a[k]
		y, oky := b[k]
		if skip || x == y && okx == oky {
			continue
		}
		switch {
		case !okx:
			return sprintf("%s was created (%s)", k, clip(y, 200))
		case !oky:
			return sprintf("%s was removed", k)
		default:
			return sprintf("%s was %s, is %s", k, clip(x, 200), clip(y, 200))
		}
	}
	return ""
}

// fileIs judges a saved file: its content, and the mode it had.
func fileIs(p, want string, mode os.FileMode) string {
	fi, err := os.Stat(p)
	if err != nil {
		return err.Error()
	}
	if !fi.Mode().IsRegular() {
		return "not a regular file: " + fi.Mode().String()
	}
	if mode != 0 && fi.Mode() != mode {
		return sprintf("mode %v, was %v", fi.Mode(), mode)
	}
	if fi.Mode().Perm()&0400 == 0 {
		os.Chmod(p, fi.Mode()|0400)
		defer os.Chmod(p, fi.Mode())
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return err.Error()
	}
	if string(b) != want {
		return "content: " + show(b, []byte(want))
	}
	return ""
}

func runEdSave(c *Ctx) {
	switch {
	case c.Idx%70 < 3:
		saveFaults(c, c.Idx%70 == 1)
	case c.Idx%70 == 3:
		saveKills(c)
	case c.Idx%3 == 0:
		saveHostile(c)
	default:
		saveHistory(c)
	}
}

// saveHistory: edits and saves, all of which must succeed.
func saveHistory(c *Ctx) {
	r := c.R
	m := newEdModel(c, oneIn(r, 3))
	m.long = 10
	c.Count("histories", 1)
	type file struct {
		real string
		mode os.FileMode
	}
	type twin struct {
		old string
		f   *file
	}
	files := map[string]*file{} // by name used
	twins := map[string]twin{}  // other names of files
	var names []string
	mk := func() string {
		n := sprintf("%s%d", pick(r, "out", "o ut", "ö", "x.c", "-o", "a.swp"), len(names))
		f := &file{real: n}
		p := filepath.Join(m.dir, n)
		switch r.IntN(5) {
		case 0: // new
		case 1: // through a link
			f.real = n + ".real"
			f.mode = os.FileMode(pick(r, 0600, 0644))
			must(os.WriteFile(p+".real", []byte("old\n"), 0600))
			must(os.Chmod(p+".real", f.mode))
			must(os.Symlink(n+".real", p))
			c.Count("links", 1)
		default:
			f.mode = os.FileMode(pick(r, 0600, 0640, 0644, 0664, 0666, 0755, 0700, 0777, 0604)) | pick[os.FileMode](r, 0, 0, 0, os.ModeSetuid, os.ModeSetgid, os.ModeSticky, os.ModeSetuid|os.ModeSetgid|os.ModeSticky)
			old := pick(r, "", "old\n", "old", strings.Repeat("old content\n", 500))
			must(os.WriteFile(p, []byte(old), 0600))
			must(os.Chmod(p, f.mode))
			c.Count("modes", 1)
			if oneIn(r, 6) {
				must(os.Link(p, p+".twin"))
				twins[n+".twin"] = twin{old, f}
				c.Count("hard_links", 1)
			}
		}
		if oneIn(r, 4) {
			must(os.Mkdir(filepath.Join(m.dir, n+"d"), 0755))
			if f.mode != 0 && f.real == n {
				must(os.Rename(p, filepath.Join(m.dir, n+"d", n)))
			}
			if f.real == n {
				f.real = n + "d/" + n
				n = f.real
			}
		}
		names = append(names, n)
		files[n] = f
		if oneIn(r, 4) {
			abs := filepath.Join(m.dir, n)
			files[abs] = f
			return abs
		}
		return n
	}
	want := map[string]string{} // by real name
	alt := map[string]string{}
	unterminated := false
	load := func() {
		name := m.newFile(oneIn(r, 10))
		m.load(name)
		m.send("", "e "+name)
		if s := m.files[name]; s != "" && s[len(s)-1] != '\n' {
			unterminated = true
		}
		rel := name
		if filepath.IsAbs(name) {
			rel, _ = filepath.Rel(m.dir, name)
		}
		files[name] = &file{real: rel, mode: 0644}
		if _, ok := want[rel]; !ok {
			want[rel] = m.files[name]
		}
	}
	if !oneIn(r, 4) {
		load()
	}
	for k := 2 + r.IntN(8); k > 0; k-- {
		switch r.IntN(3) {
		case 0:
			m.step(pick(r, "a", "i", "c", "d", "a", "p", "="), true)
		case 1:
			if oneIn(r, 8) {
				load()
			} else {
				m.step(pick(r, "a", "i", "c", "d"), true)
			}
		default:
			name, arg := m.name, ""
			if name == "" || oneIn(r, 2) {
				if len(names) > 0 && oneIn(r, 2) {
					name = names[r.IntN(len(names))]
				} else {
					name = mk()
				}
				arg = pick(r, " ", "  ", "\t") + name
			}
			text, alt1 := m.String(), m.String()
			addr := ""
			if unterminated {
				alt1 = strings.TrimSuffix(alt1, "\n")
			}
			if len(m.lines) > 0 && oneIn(r, 2) {
				t, x, y, ok := m.rng(1, true)
				if ok && t != "" {
					addr = t
					text = strings.Join(m.lines[x-1:y], "\n") + "\n"
					alt1 = text
					c.Count("ranges_saved", 1)
				}
			}
			m.send("", addr+"w"+arg)
			if m.name == "" {
				m.name = name
			}
			f := files[name]
			want[f.real], alt[f.real] = text, alt1
			c.Count("saves", 1)
		}
	}
	m.send(sprintf("%d", len(m.lines)), "=")
	before := snap(m.dir)
	cli := oneIn(r, 10)
	m.check(cli)
	if c.failed {
		return
	}
	after := snap(m.dir)
	var changed []string
	for real, w := range want {
		changed = append(changed, real)
		mode := os.FileMode(0)
		for _, f := range files {
			if f.real == real {
				mode = f.mode
			}
		}
		p := filepath.Join(m.dir, real)
		if e := fileIs(p, w, mode); e != "" {
			if a, ok := alt[real]; ok && a != w && fileIs(p, a, mode) == "" {
				continue
			}
			c.Fail("file %q after the saves: %s; script %s", real, e, clip(sprintf("%q", m.script), 2500))
			return
		}
		if fi, err := os.Lstat(p); err != nil || !fi.Mode().IsRegular() {
			c.Fail("file %q is no regular file any more (%v)", real, err)
		}
	}
	// another name of the file has what it had or what was saved
	for t, x := range twins {
		changed = append(changed, t)
		p := filepath.Join(m.dir, t)
		e := fileIs(p, x.old, x.f.mode)
		w, ok := want[x.f.real]
		if e != "" && !(ok && (fileIs(p, w, x.f.mode) == "" || fileIs(p, alt[x.f.real], x.f.mode) == "")) {
			c.Fail("another name of %q, %q, after the saves: %s; script %s", x.f.real, t, e, clip(sprintf("%q", m.script), 2500))
		}
	}
	// directories get new times, not new modes
	if d := snapDiff(before, after, changed...); d != "" {
		c.Fail("another file: %s; script %s", d, clip(sprintf("%q", m.script), 2500))
	}
}

// saveHostile: a save that meets an obstacle, and one that does not after it.
func saveHostile(c *Ctx) {
	r := c.R
	m := newEdModel(c, oneIn(r, 3))
	m.long = 10
	c.Count("hostile", 1)
	w := filepath.Join(m.dir, "w")
	must(os.Mkdir(w, 0755))
	base := "f"
	old := pick(r, "old\n", "", "old content", strings.Repeat("older\n", 300))
	p := filepath.Join(w, base)
	mode := os.FileMode(pick(r, 0644, 0600, 0755))
	put := func() {
		must(os.WriteFile(p, []byte(old), 0600))
		must(os.Chmod(p, mode))
	}
	restore := func() {}
	mustFail := true
	var limit int64
	kind := r.IntN(16)
	name := "w/f"
	var txt []string
	for k := 1 + r.IntN(6); k > 0; k-- {
		txt = append(txt, m.line())
	}
	switch kind {
	case 0:
		must(os.Mkdir(p, 0755))
		if oneIn(r, 2) {
			must(os.WriteFile(filepath.Join(p, "in"), []byte("in"), 0644))
		}
	case 1:
		name = "w/missing/f"
	case 2, 3:
		if oneIn(r, 3) {
			mode = 0 // no such file yet
		} else {
			put()
		}
		must(os.Chmod(w, 0555))
		restore = func() { os.Chmod(w, 0755) }
		mustFail = mode == 0
	case 4:
		put()
		must(os.WriteFile(p+".swp", []byte(pick(r, "somebody's\n", "somebody's\n", "", "\n", strings.Repeat("x", 5000))), 0644))
		if oneIn(r, 3) {
			must(os.WriteFile(p+"~", []byte("somebody's\n"), 0644))
			must(os.WriteFile(p+".tmp", []byte("somebody's\n"), 0644))
		}
		mustFail = false
	case 5:
		put()
		mode2 := os.FileMode(pick(r, 0444, 0400, 0200, 0000))
		must(os.Chmod(p, mode2))
		mode = mode2
		mustFail = false
	case 6:
		name = "w/" + strings.Repeat("n", pick(r, 256, 300, 5000))
	case 7:
		base = strings.Repeat("n", 249+r.IntN(7))
		p = filepath.Join(w, base)
		name = "w/" + base
		put()
		mustFail = false
		if oneIn(r, 2) { // a full disk as well
			limit = int64(pick(r, 1, 10, 100))
			for k := r.IntN(30); k > 0; k-- {
				txt = append(txt, sprintf("%d content", len(txt)))
			}
		}
	case 8:
		must(os.Symlink("f", p))
	case 9:
		must(os.Symlink(".", p))
	case 10:
		must(os.WriteFile(filepath.Join(w, "file"), []byte("x"), 0644))
		name = "w/file/f"
	case 11:
		put()
		must(os.Chmod(w, 0000))
		restore = func() { os.Chmod(w, 0755) }
	case 12:
		name = ""
		if oneIn(r, 2) {
			name = "/dev/full"
		}
	case 13, 14, 15:
		limit = int64(pick(r, 1, 10, 100, 1000))
		if oneIn(r, 6) {
			limit = 1 << 16
		}
		mustFail = false // it depends on the size
		for len(strings.Join(txt, "\n"))+1 <= int(limit) && !oneIn(r, 30) || oneIn(r, 2) {
			txt = append(txt, sprintf("%d ", len(txt))+strings.Repeat("content ", pick(r, 1, 3, 100)))
		}
		if oneIn(r, 4) {
			mode = 0
		} else {
			put()
		}
		c.Count("limits", 1)
	}
	// the script: text, the save that is in trouble, and one that is not
	m.lines = txt
	m.send("", append(append([]string{"a"}, txt...), ".")...)
	addr := ""
	text := m.String()
	if oneIn(r, 3) && limit == 0 {
		addr = "1,$"
	}
	if name == "" {
		m.script = append(m.script, addr+"w")
	} else {
		m.script = append(m.script, addr+"w "+name)
	}
	m.send(sprintf("%d", len(m.lines)), "=")
	cli := limit > 0 || oneIn(r, 8)
	script := strings.Join(m.script, "\n") + "\n"
	second := "1,$p\n1,$w retry\n"
	if limit > 0 {
		second = "1,$p\n1w retry\n"
		if len(m.lines[0])+1 > int(limit) {
			second = "1,$p\n"
		}
	}
	c.Key(script, kind, old, mode.String(), limit)
	c.Desc("obstacle %d, limit %d, script %s", kind, limit, clip(sprintf("%q", m.script), 800))
	restore2 := restore
	restore()
	before := snap(m.dir)
	if kind == 2 || kind == 3 {
		must(os.Chmod(w, 0555))
	} else if kind == 11 {
		must(os.Chmod(w, 0000))
	}
	var out string
	if limit > 0 {
		c.Count("commands", 1)
		res := c.Run(Cmd{Name: "ed", Dir: m.dir, Stdin: []byte(script + second), Fsize: limit, StdinR: nil})
		if res.Hung {
			restore2()
			return
		}
		// output is a pipe, which has no limit
		if res.Code != 0 {
			c.Fail("ed ends with %s; limit %d; script %s", res, limit, clip(sprintf("%q", script), 2000))
			return
		}
		out = string(res.Out)
	} else {
		o, _, ok := m.runScript(cli, script+second)
		if !ok {
			restore2()
			return
		}
		out = o
	}
	restore2()
	after := snap(m.dir)
	tail := sprintf("%d\n%s\n", len(m.lines), strings.Join(m.lines, "\n"))
	var rest string
	switch {
	case strings.HasPrefix(out, "\n\n"+tail):
		if mustFail {
			c.Fail("w %s (obstacle %d) is answered as a success: %q", name, kind, clip(out, 300))
			return
		}
		rest = out[len("\n\n"+tail):]
		if e := fileIs(p, text, mode); e != "" {
			c.Fail("w %s (obstacle %d, limit %d) is answered as a success, but the file: %s", name, kind, limit, e)
		}
		if d := snapDiff(before, after, "w/"+base, "retry"); d != "" {
			c.Fail("w %s (obstacle %d): another file: %s", name, kind, d)
		}
		c.Count("overcome", 1)
	case strings.HasPrefix(out, "\n?"):
		i := strings.Index(out, "\n"+tail)
		if i < 0 {
			c.Fail("w %s (obstacle %d): the buffer after the failed save: %q; want %q", name, kind, clip(out, 600), clip(tail, 600))
			return
		}
		rest = out[i+1+len(tail):]
		if limit > 0 && kind != 7 && int64(len(text)) <= limit {
			c.Fail("w of %d bytes fails with limit %d: %q", len(text), limit, clip(out, 300))
		}
		if d := snapDiff(before, after, "retry"); d != "" {
			c.Fail("w %s (obstacle %d, limit %d) failed, but: %s", name, kind, limit, d)
		}
		c.Count("refused", 1)
	default:
		c.Fail("w %s (obstacle %d, limit %d) is answered with %q", name, kind, limit, clip(out, 600))
		return
	}
	if strings.Contains(second, "retry") {
		want := text
		if limit > 0 {
			want = m.lines[0] + "\n"
		}
		if e := fileIs(filepath.Join(m.dir, "retry"), want, 0); e != "" || rest != "\n" {
			c.Fail("a later save after obstacle %d: %s, answer %q", kind, e, clip(rest, 300))
		}
		c.Count("retried", 1)
	}
}

var (
	faultOf = map[string][]string{
		"openat": {"EACCES", "ENOSPC", "EMFILE", "EIO", "EROFS"}, "open": {"EIO"}, "creat": {"EIO"},
		"write": {"ENOSPC", "EIO", "EDQUOT", "EINTR"}, "pwrite64": {"ENOSPC"}, "writev": {"ENOSPC"},
		"close": {"EIO", "EDQUOT"}, "fsync": {"EIO"}, "fdatasync": {"EIO"},
		"fchmod": {"EPERM", "EIO"}, "fchmodat": {"EPERM"}, "fchmodat2": {"EPERM"}, "chmod": {"EPERM"}, "fchown": {"EIO"},
		"rename": {"EXDEV", "EIO", "EACCES"}, "renameat": {"EXDEV", "EIO", "EACCES", "ENOSPC"}, "renameat2": {"EXDEV", "EIO"},
		"link": {"EIO"}, "linkat": {"EIO"}, "ftruncate": {"EIO"}, "fallocate": {"EIO", "ENOSPC"},
		"newfstatat": {"EIO", "EACCES"}, "fstat": {"EIO"}, "lstat": {"EIO"}, "stat": {"EIO"}, "statx": {"EIO"},
		"readlinkat": {"EIO"}, "readlink": {"EIO"}, "lseek": {"EIO"}, "copy_file_range": {"EIO"},
	}
	faultCalls = func() string {
		var s []string
		for k := range faultOf {
			s = append(s, "?"+k)
		}
		sort.Strings(s)
		return strings.Join(append(s, "?unlinkat", "?unlink"), ",")
	}()
)

// saveFaults: for one save, every call on the directory of the file fails, or
// is where the process is killed.
func saveFaults(c *Ctx, crash bool) {
	if !straceThere {
		return
	}
	r := c.R
	dir := c.Dir()
	w := filepath.Join(dir, "w")
	log := filepath.Join(dir, "log")
	mode := os.FileMode(pick(r, 0644, 0600, 0640, 0755, 0))
	link, hard := 0, false
	if mode != 0 {
		link = pick(r, 0, 0, 0, 0, 0, 1, 2, 3)
		hard = oneIn(r, 4)
	}
	old := strings.Repeat(pick(r, "old\n", "previous line\n"), pick(r, 0, 1, 10, 2000, 100000))
	if oneIn(r, 6) {
		old = "no newline at the end"
	}
	twice := oneIn(r, 4) // two saves, one after the other
	text := func(n int, what string) string {
		var lines []string
		for i := 0; i < n; i++ {
			lines = append(lines, sprintf("%s line %d of case %d", what, i, c.Idx))
		}
		if n == 0 {
			return ""
		}
		return strings.Join(lines, "\n") + "\n"
	}
	texts := []string{}
	n := 0
	for k := 0; k < 2; k++ {
		n = pick(r, 0, 1, 5, 3000)
		if oneIn(r, 10) {
			n = 60000
		}
		texts = append(texts, text(n, sprintf("new %d", k)))
		must(os.WriteFile(filepath.Join(dir, sprintf("src%d", k)), []byte(texts[k]), 0644))
		if !twice {
			break
		}
	}
	real := pick(r, "f", "f", ".f", "f.txt", "-f", "f g", "f.swp", strings.Repeat("f", 100), strings.Repeat("f", 251+r.IntN(5)))
	where := "w"
	prepare := func() {
		must(os.RemoveAll(w))
		must(os.Mkdir(w, 0755))
		f := filepath.Join(w, real)
		if mode != 0 {
			must(os.WriteFile(f, []byte(old), 0600))
			must(os.Chmod(f, mode))
		}
		switch link {
		case 1:
			must(os.Symlink(real, filepath.Join(w, "link")))
		case 2: // a chain
			must(os.Symlink(real, filepath.Join(w, "l2")))
			must(os.Symlink(w+"/l2", filepath.Join(w, "link")))
		case 3: // from another directory
			must(os.Mkdir(filepath.Join(w, "d"), 0755))
			must(os.Symlink("../"+real, filepath.Join(w, "d", "link")))
		}
		if hard {
			must(os.Link(f, filepath.Join(w, "twin")))
		}
		must(os.WriteFile(filepath.Join(w, "other"), []byte("other\n"), 0644))
	}
	target := real
	switch link {
	case 1, 2:
		target = "link"
	case 3:
		target = "d/link"
	}
	rundir := dir
	switch r.IntN(3) {
	case 0:
		rundir = w
	case 1:
		target = where + "/" + target
	default:
		target = w + "/" + target
	}
	script := ""
	for k := range texts {
		addr := ""
		if texts[k] != "" && oneIn(r, 3) {
			addr = "1,$"
		}
		script += sprintf("e %s/src%d\n%sw %s\n", dir, k, addr, target)
	}
	script += "=\n"
	run := func(inject string) (Res, []string, bool) {
		prepare()
		os.Remove(log)
		args := []string{"-f", "-qq", "-y", "-s", "0", "-o", log, "-e", "trace=" + faultCalls}
		if inject != "" {
			args = append(args, "-e", "inject="+inject)
		}
		res := c.Exec(Cmd{Name: "strace", Bin: "/usr/bin/strace", Args: append(args, filepath.Join(c.Bin, "ed")), Dir: rundir, Stdin: []byte(script), Env: []string{"GOMAXPROCS=1", "PATH=/usr/bin:/bin"}})
		b, err := os.ReadFile(log)
		if err != nil {
			return res, nil, false
		}
		return res, strings.Split(string(b), "\n"), !res.Hung
	}
	// a call of the save names the directory of the file
	ours := func(l string) bool {
		if strings.Contains(l, dir+"/src") {
			return false
		}
		return strings.Contains(l, w+"/") || strings.Contains(l, w+">")
	}
	c.Key(sprintf("%d", c.Idx), script)
	c.Desc("save of %d bytes over %d bytes, mode %o, link %d, hard link %v, crash %v, script %q", len(texts[0]), len(old), mode, link, hard, crash, script)
	must(os.MkdirAll(w, 0755))
	res, calls, ok := run("")
	if !ok {
		return
	}
	good := sprintf("\n\n%d\n", n)
	if twice {
		good = "\n\n" + good
		c.Count("twice", 1)
	}
	if hard {
		c.Count("hard_links", 1)
	}
	// a name so long that no other fits beside it may be refused
	refusable := len(real) > 245
	if string(res.Out) != good && !refusable {
		c.Fail("saves without any fault are answered with %s", res)
		return
	}
	// the calls of the save
	type call struct {
		name string
		nth  int
	}
	var list []call
	var next *call // the first call after the save
	count := map[string]int{}
	for _, l := range calls {
		x := reCall.FindStringSubmatch(l)
		if x == nil {
			continue
		}
		count[x[1]+x[2]]++
		if ours(l) {
			list = append(list, call{x[2], count[x[1]+x[2]]})
			next = nil
		} else if next == nil {
			next = &call{x[2], count[x[1]+x[2]]}
		}
	}
	if crash && next != nil {
		list = append(list, *next)
	}
	c.Count("save_calls", len(list))
	if len(list) == 0 {
		return
	}
	check := func(res Res, kind string) {
		p := filepath.Join(w, real)
		// is: which of old (-1), texts[0], texts[1] the file is
		is := func(v int) string {
			if v >= 0 {
				return fileIs(p, texts[v], mode)
			}
			if mode != 0 {
				return fileIs(p, old, mode)
			}
			if _, err := os.Lstat(p); !os.IsNotExist(err) {
				return "it exists"
			}
			return ""
		}
		twin := func() string { // the other name has the old content or what was saved
			if !hard {
				return ""
			}
			t := filepath.Join(w, "twin")
			e := fileIs(t, old, mode)
			for v := range texts {
				if e != "" && fileIs(t, texts[v], mode) == "" {
					e = ""
				}
			}
			return e
		}
		if crash {
			now := 9
			var e string
			for v := len(texts) - 1; v >= -1 && now == 9; v-- {
				if e = is(v); e == "" {
					now = v
				}
			}
			if now == 9 {
				c.Fail("killed at %s: the file is neither the old nor a saved one (%s)", kind, e)
			}
			if e := twin(); e != "" {
				c.Fail("killed at %s: the other name of the file: %s", kind, e)
			}
			after := snap(w)
			prepare()
			// a temporary file may be left, but nothing else changes
			for k, v := range snap(w) {
				if k != real && k != "." && k != "d" && k != "twin" && after[k] != v {
					c.Fail("killed at %s: %s was %s, is %s", kind, k, clip(v, 200), clip(after[k], 200))
				}
			}
			c.Count("crashed", 1)
			if now == -1 {
				c.Count("crash_old", 1)
			} else {
				c.Count("crash_new", 1)
			}
			return
		}
		c.Count("injected", 1)
		// the answers: each save has succeeded or not
		rest := string(res.Out)
		want, failed := -1, 0
		for v := range texts {
			switch {
			case strings.HasPrefix(rest, "\n\n"):
				rest = rest[2:]
				want = v
			case strings.HasPrefix(rest, "\n?"):
				failed++
				i := strings.IndexByte(rest[1:], '\n')
				if i < 0 {
					c.Fail("%s: ed answers %s", kind, res)
					return
				}
				rest = rest[i+2:]
			default:
				c.Fail("%s: ed answers %s", kind, res)
				return
			}
		}
		if failed > 1 && !refusable || rest != sprintf("%d\n", n) {
			c.Fail("%s: ed answers %s", kind, res)
			return
		}
		if e := is(want); e != "" {
			c.Fail("%s: answers %q (%d saves, %d failed), but the file: %s", kind, clip(string(res.Out), 200), len(texts), failed, e)
		}
		if e := twin(); e != "" {
			c.Fail("%s: the other name of the file: %s", kind, e)
		}
		after := snap(w)
		prepare()
		before := snap(w)
		if want == -1 {
			if d := snapDiff(before, after); d != "" {
				c.Fail("%s: the save failed, but: %s", kind, d)
			}
		} else if d := snapDiff(before, after, real, "twin"); d != "" {
			c.Fail("%s: %d saves, %d failed, and another file: %s", kind, len(texts), failed, d)
		}
		if failed == 0 {
			c.Count("tolerated", 1)
		}
	}
	for _, k := range list {
		if c.failed {
			return
		}
		errs := faultOf[k.name]
		if crash {
			errs = []string{"KILL"}
		} else if len(errs) == 0 {
			continue
		} else if c.Tier == "quick" {
			errs = errs[r.IntN(len(errs)):][:1]
		}
		for _, e := range errs {
			how := "error=" + e
			if crash {
				how = "signal=KILL"
			}
			inject := sprintf("%s:%s:when=%d", k.name, how, k.nth)
			res, calls, ok := run(inject)
			if !ok {
				continue
			}
			hit := false
			if crash {
				hit = res.Sig == 9 || res.Code == 137
			} else {
				// calls are counted per thread: only one may have been hit
				times := 0
				for _, l := range calls {
					if strings.Contains(l, "INJECTED") {
						times++
						hit = ours(l)
					}
				}
				hit = hit && times == 1
			}
			if !hit {
				c.Count("injection_elsewhere", 1)
				continue
			}
			check(res, inject)
		}
	}
}

// saveKills: saves of alternating versions, an observer that reads the file
// all the time, and a kill at a random time.
func saveKills(c *Ctx) {
	r := c.R
	dir := c.Dir()
	p := filepath.Join(dir, "f")
	n := pick(r, 10, 1000, 8000)
	var script strings.Builder
	versions := map[string]bool{"start\n": true}
	must(os.WriteFile(p, []byte("start\n"), 0644))
	if oneIn(r, 3) {
		must(os.Link(p, p+"2"))
	}
	for k := 0; k < 12; k++ {
		l := sprintf("version %d %s", k, strings.Repeat(string(rune('a'+k)), 100))
		text := strings.Repeat(l+"\n", n)
		src := filepath.Join(dir, sprintf("src%d", k))
		must(os.WriteFile(src, []byte(text), 0644))
		versions[text] = true
		script.WriteString("e " + src + "\nw " + p + "\n")
	}
	c.Key(sprintf("%d", c.Idx))
	cmd := exec.Command(filepath.Join(c.Bin, "ed"))
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(script.String())
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Env = baseEnv
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	must(cmd.Start())
	exited := make(chan bool)
	go func() { cmd.Wait(); close(exited) }()
	kill := time.After(time.Duration(1000+r.IntN(pick(r, 4000, 20000, 60000))) * time.Microsecond)
	look := func() {
		b, err := os.ReadFile(p)
		c.Count("observations", 1)
		if err != nil || !versions[string(b)] {
			c.Fail("during saves the file is none of the versions saved: %d bytes (%v) %q", len(b), err, clip(string(b), 200))
		}
	}
loop:
	for {
		select {
		case <-exited:
			break loop
		case <-kill:
			cmd.Process.Kill()
			c.Count("random_kills", 1)
		default:
			look()
		}
	}
	look()
	for k := 0; k < 12; k++ {
		b, err := os.ReadFile(filepath.Join(dir, "src"+strconv.Itoa(k)))
		if err != nil || !versions[string(b)] {
			c.Fail("another file changed: src%d", k)
		}
	}
	// what is on disk can be edited
	os.Remove(p + ".swp")
	var b bytes.Buffer
	e := &ed.Itor{}
	e.ProcessCommands(strings.NewReader("e "+p+"\n1p\n"), &b)
	if !strings.HasPrefix(b.String(), "\nversion ") && !strings.HasPrefix(b.String(), "\nstart\n") {
		c.Fail("after the kill the file cannot be edited: %q", clip(b.String(), 200))
	}
}

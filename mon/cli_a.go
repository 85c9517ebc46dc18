//go:build go1.22

package main

import (
	"bytes"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Prop{ID: "C01", Level: "exploration", Quick: 40000, Thorough: 600000,
		Rule:      "operand lists of 0-12 operands (files with odd names and sizes around buffer boundaries, -, -u, the same file twice, missing files and directories) and stdin as pipe, chunked pipe or file; non-trivial: at least one byte to copy or a failing operand",
		Stall:     450,
		MinEvents: []string{"bytes", "stdin", "failing", "to_file", "fifos"},
		Run:       runCat})
	register(&Prop{ID: "C02", Level: "exploration", Quick: 30000, Thorough: 400000,
		Rule:      "contents of 0 to 300000 bytes in 7 styles, as named operands, - and default standard input; oracle: bitwise polynomial division; non-trivial: non-empty content",
		Stall:     450,
		MinEvents: []string{"bytes", "default_stdin", "dash"},
		Run:       runCksum})
	register(&Prop{ID: "C03", Level: "exploration", Quick: 40000, Thorough: 600000,
		Rule:      "pairs: equal, byte-mutated, truncated, extended, unrelated, same file; default, -l and -s; names and - ; usage errors; non-trivial: not both empty",
		Stall:     450,
		MinEvents: []string{"differ", "equal", "prefix", "usage", "same_file", "flips", "further_on"},
		Run:       runCmp})
	register(&Prop{ID: "C05", Level: "exploration", Quick: 40000, Thorough: 600000,
		Rule:      "1-5 inputs of 0-300000 bytes in 7 line styles (CRLF, NUL, very long lines, no final newline), n from 0 to beyond the line count; non-trivial: some input non-empty and n > 0",
		MinEvents: []string{"lines", "multi", "stdin", "cut", "unreadable"},
		Run:       runHead})
}

func runCat(c *Ctx) {
	r := c.R
	if c.Idx == 0 {
		hugeCat(c)
		return
	}
	dir := c.Dir()
	stdin := blob(r, size(r, 200000))
	if c.Idx%500 == 7 {
		stdin = blob(r, 3<<20+r.IntN(9))
	}
	var args []string
	var want []byte
	fails := ""
	n := r.IntN(5)
	if oneIn(r, 20) {
		n = r.IntN(13)
	} else if oneIn(r, 100) {
		n = 20 + r.IntN(60)
	}
	stdinUsed, named := false, 0
	var files []string
	take := func(b []byte) {
		if fails == "" {
			want = append(want, b...)
		}
	}
	useStdin := func() {
		if !stdinUsed && fails == "" {
			stdinUsed = true
			take(stdin)
		}
	}
	contents := map[string][]byte{}
	for i := 0; i < n; i++ {
		switch k := r.IntN(12); {
		case k == 0:
			args = append(args, "-u")
		case k <= 2:
			args = append(args, "-")
			named++
			useStdin()
		case k == 3 && len(files) > 0:
			f := files[r.IntN(len(files))]
			if oneIn(r, 3) { // the same through a link
				l := "link" + strconv.Itoa(i)
				if oneIn(r, 2) {
					must(os.Symlink(f, filepath.Join(dir, l)))
				} else {
					must(os.Link(filepath.Join(dir, f), filepath.Join(dir, l)))
				}
				args = append(args, l)
			} else {
				args = append(args, f)
			}
			named++
			take(contents[f])
		case k == 5 && oneIn(r, 6): // a named pipe
			f := "pipe" + strconv.Itoa(i)
			b := blob(r, size(r, 100000))
			defer c.feedFifo(f, b)()
			args = append(args, f)
			named++
			take(b)
		case k == 5 && oneIn(r, 3): // a file whose size is not known beforehand
			f, b := procFile(r)
			args = append(args, f)
			named++
			take(b)
		case k == 4 && oneIn(r, 2):
			bad := pick(r, "missing", "d", "file/x", "loop")
			switch bad {
			case "d":
				os.Mkdir(filepath.Join(dir, "d"), 0755)
			case "loop":
				os.Symlink("loop", filepath.Join(dir, "loop"))
			}
			args = append(args, bad)
			named++
			if fails == "" {
				fails = bad
			}
		default:
			f := name(r)
			if _, dup := contents[f]; dup || f == "d" || f == "missing" || f == "loop" {
				f = "f" + strconv.Itoa(i)
			}
			if oneIn(r, 5) {
				f = pick(r, "./-u", "-u", "-un", "-U", "--u", "-v") + strconv.Itoa(i)
			}
			max := 100000
			if oneIn(r, 300) {
				max = 5 << 20
			}
			b := blob(r, size(r, max))
			c.write(f, b)
			files = append(files, f)
			contents[f] = b
			args = append(args, f)
			named++
			take(b)
		}
	}
	if named == 0 {
		useStdin()
	}
	cmd := Cmd{Name: "cat", Args: args, Dir: dir}
	mode := r.IntN(3)
	switch mode {
	case 0:
		cmd.Stdin = stdin
	case 1:
		cmd.StdinR = c.chunked(stdin)
	case 2:
		skip := []byte(nil)
		if oneIn(r, 3) { // somebody has read a part of it
			skip = blob(r, size(r, 5000))
		}
		p := c.write("\x01stdin", append(append([]byte(nil), skip...), stdin...))
		f, err := os.Open(p)
		must(err)
		_, err = f.Seek(int64(len(skip)), 0)
		must(err)
		defer f.Close()
		cmd.StdinR = f
		if len(stdin) == 0 && oneIn(r, 2) { // a device
			cmd.StdinR = c.fileAt("/dev/null", 0)
		}
	}
	// output to a file instead of a pipe
	var outFile string
	var outBefore []byte
	if oneIn(r, 3) {
		outFile = filepath.Join(dir, "\x01out")
		outBefore = blob(r, r.IntN(3)*r.IntN(20))
		must(os.WriteFile(outFile, outBefore, 0644))
		fl := os.O_WRONLY
		if oneIn(r, 2) {
			fl |= os.O_APPEND
		}
		f, err := os.OpenFile(outFile, fl, 0)
		must(err)
		f.Seek(int64(len(outBefore)), 0)
		defer f.Close()
		cmd.Stdout = f
		c.Count("to_file", 1)
	}
	c.Desc("cat %q (stdin %d bytes, mode %d; expected %d bytes, failing operand %q)", args, len(stdin), mode, len(want), fails)
	c.Key(args, mode, want)
	if len(want) == 0 && fails == "" {
		c.Trivial()
	}
	res := c.Run(cmd)
	if res.Hung {
		return
	}
	if outFile != "" {
		b, err := os.ReadFile(outFile)
		must(err)
		if !bytes.HasPrefix(b, outBefore) {
			c.Fail("what was in the output file before is gone: %s", show(b, outBefore))
			return
		}
		res.Out = b[len(outBefore):]
	}
	c.Count("bytes", len(res.Out))
	if stdinUsed {
		c.Count("stdin", 1)
	}
	if !bytes.Equal(res.Out, want) {
		c.Fail("wrong output: %s; %s", show(res.Out, want), clip(res.String(), 800))
	}
	if fails != "" {
		c.Count("failing", 1)
		if res.Code == 0 || len(res.Err) == 0 {
			c.Fail("operand %q cannot be read, but exit=%d stderr=%q", fails, res.Code, res.Err)
		}
	} else if res.Code != 0 || len(res.Err) != 0 {
		c.Fail("all operands can be read, but exit=%d signal=%d stderr=%q", res.Code, res.Sig, clip(string(res.Err), 500))
	}
}

// feedFifo makes a named pipe and writes to it as soon as somebody reads it,
// or stops trying when the function it returns is called.
func (c *Ctx) feedFifo(name string, b []byte) func() {
	p := filepath.Join(c.Dir(), name)
	must(syscall.Mkfifo(p, 0644))
	c.Count("fifos", 1)
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			fd, err := syscall.Open(p, syscall.O_WRONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
			if err == nil {
				syscall.SetNonblock(fd, false)
				f := os.NewFile(uintptr(fd), p)
				f.Write(b)
				f.Close()
				return
			}
			select {
			case <-stop:
				return
			case <-time.After(300 * time.Microsecond):
			}
		}
	}()
	return func() {
		close(stop)
		<-done
	}
}

// posixCksum is the CRC of POSIX cksum by polynomial division, bit by bit.
func posixCksum(b []byte) uint32 {
	var crc uint32
	feed := func(x byte) {
		for i := 7; i >= 0; i-- {
			bit := uint32(x>>uint(i)) & 1
			top := crc >> 31
			crc = crc<<1 | bit
			if top == 1 {
				crc ^= 0x04c11db7
			}
		}
	}
	for _, x := range b {
		feed(x)
	}
	for n := len(b); n > 0; n >>= 8 {
		feed(byte(n))
	}
	for i := 0; i < 4; i++ {
		feed(0)
	}
	return ^crc
}

func runCksum(c *Ctx) {
	r := c.R
	switch c.Idx {
	case 300:
		hugeCksum(c, 1<<32+1+int64(r.IntN(100000)))
		return
	case 301:
		hugeCksum(c, 1<<31+int64(r.IntN(100000)))
		return
	}
	dir := c.Dir()
	stdin := blob(r, size(r, 100000))
	var args []string
	var want strings.Builder
	line := func(b []byte, label string) {
		want.WriteString(sprintf("%d %d%s\n", posixCksum(b), len(b), label))
		c.Count("bytes", len(b))
	}
	n := r.IntN(4)
	used := false
	total := 0
	many := c.Idx > 301 && c.Idx%1000 == 11
	if many {
		n = 50 + r.IntN(250)
	}
	for i := 0; i < n; i++ {
		if oneIn(r, 8) {
			args = append(args, "-")
			b := stdin
			if used {
				b = nil
			}
			used = true
			total += len(b)
			line(b, " -")
			c.Count("dash", 1)
			continue
		}
		if oneIn(r, 60) {
			f, b := procFile(r)
			args = append(args, f)
			total += len(b)
			line(b, " "+f)
			continue
		}
		f := name(r) + strconv.Itoa(i)
		max := 60000
		if oneIn(r, 100) {
			max = 300000
		}
		b := blob(r, size(r, max))
		if c.Idx < 300 {
			b = blob(r, c.Idx) // every small length
		}
		if many {
			b = blob(r, r.IntN(300))
		}
		if c.Idx%1250 == 301 && i == 0 { // a length of four octets
			b = blob(r, 1<<24+size(r, 1<<20))
		}
		c.write(f, b)
		if oneIn(r, 6) { // another way to it
			f = pick(r, "./", ".//", "./././", dir+"/", "../"+filepath.Base(dir)+"/") + f
		}
		args = append(args, f)
		total += len(b)
		line(b, " "+f)
	}
	if n == 0 {
		line(stdin, "")
		total += len(stdin)
		c.Count("default_stdin", 1)
	}
	c.Desc("cksum %q (stdin %d bytes), expected %q", args, len(stdin), want.String())
	c.Key(args, want.String())
	if total == 0 {
		c.Trivial()
	}
	cmd := Cmd{Name: "cksum", Args: args, Dir: dir, Stdin: stdin}
	if oneIn(r, 2) {
		cmd.StdinR = c.given(stdin)
	}
	res := c.Run(cmd)
	if res.Hung {
		return
	}
	if string(res.Out) != want.String() || res.Code != 0 || len(res.Err) != 0 {
		c.Fail("got %s, want stdout %q and exit 0", res, clip(want.String(), 600))
	}
}

func runCmp(c *Ctx) {
	r := c.R
	switch {
	case c.Idx == 0:
		hugeCmp(c, 1<<32+1)
		return
	case c.Idx == 1 || c.Idx == 2 && c.Tier == "thorough":
		hugeCmp(c, 1<<31+1)
		return
	}
	dir := c.Dir()
	opt := pick(r, "", "", "-l", "-s")
	flip := c.Idx - 100 // every octet with every bit flipped, with every option
	if flip < 0 || flip >= 3*256*8 {
		flip = -1
	} else {
		opt = []string{"", "-l", "-s"}[flip/(256*8)]
	}
	if flip < 0 && oneIn(r, 40) { // usage and open errors
		a := c.write("a", []byte("x"))
		_ = a
		args := pick(r, []string{}, []string{"a"}, []string{"a", "a", "a"}, []string{"a", "missing"}, []string{"missing", "a"}, []string{"a", "a", "-"}, []string{"-s", "a"}, []string{"-l", "missing", "missing2"})
		if opt != "" {
			args = append([]string{opt}, args...)
		}
		c.Desc("cmp %q (trouble)", args)
		c.Key(args)
		c.Count("usage", 1)
		res := c.Run(Cmd{Name: "cmp", Args: args, Dir: dir})
		if !res.Hung && (res.Code <= 1 || len(res.Err) == 0 || len(res.Out) != 0) {
			c.Fail("usage or open error must give exit > 1, a diagnostic and no output: %s", res)
		}
		return
	}
	max := 150000
	if opt == "-l" {
		max = 20000
	}
	a := blob(r, size(r, max))
	var b []byte
	switch r.IntN(6) {
	case 0:
		b = append([]byte(nil), a...)
	case 1:
		b = blob(r, size(r, max))
	case 2:
		b = append(append([]byte(nil), a...), blob(r, 1+r.IntN(40))...)
	case 3:
		b = a[:r.IntN(len(a)+1)]
	default:
		b = mutate(r, a)
	}
	if oneIn(r, 3) {
		a, b = b, a
	}
	if flip >= 0 {
		a = blob(r, r.IntN(100))
		at := r.IntN(len(a) + 1)
		a = append(a[:at:at], append([]byte{byte(flip)}, a[at:]...)...)
		b = append([]byte(nil), a...)
		b[at] ^= 1 << (flip / 256 % 8)
		c.Count("flips", 1)
	}
	n1, n2 := name(r)+"1", name(r)+"2"
	if oneIn(r, 4) {
		n1 = "x1"
	}
	if oneIn(r, 150) { // far into the files
		far := blob(r, 1<<20+size(r, 3<<20))
		a, b = append(far[:len(far):len(far)], a...), append(far[:len(far):len(far)], b...)
	}
	c.write(n1, a)
	cmd := Cmd{Name: "cmp", Dir: dir}
	if same := flip < 0 && oneIn(r, 25); same { // one file under one name or two
		b = a
		switch r.IntN(3) {
		case 0:
			n2 = n1
		case 1:
			must(os.Symlink(n1, filepath.Join(dir, n2)))
		case 2:
			must(os.Link(filepath.Join(dir, n1), filepath.Join(dir, n2)))
		}
		c.Count("same_file", 1)
	} else {
		c.write(n2, b)
	}
	if n1 == n2 {
	} else if flip < 0 && oneIn(r, 40) { // standard input is the other file, further on
		k := 0
		if len(a) > 0 && oneIn(r, 4) {
			k = r.IntN(len(a) + 1)
		}
		if len(a) > 4 && oneIn(r, 2) { // an even number of like pieces
			k = 1 + r.IntN(len(a)/2)
			a = bytes.Repeat(a[:k], 2+r.IntN(3))
			c.write(n1, a)
		}
		b = a[k:]
		cmd.StdinR = c.fileAt(filepath.Join(dir, n1), k)
		n2 = "-"
		if oneIn(r, 2) {
			n1, n2, a, b = n2, n1, b, a
		}
		c.Count("further_on", 1)
	} else if flip < 0 && oneIn(r, 60) { // a file whose size is not known
		n1, a = procFile(r)
		if oneIn(r, 2) {
			b = append([]byte(nil), a...)
		} else {
			b = mutate(r, a)
		}
		c.write("copy", b)
		n2 = "copy"
		if oneIn(r, 2) {
			n1, n2, a, b = n2, n1, b, a
		}
	} else if oneIn(r, 6) {
		n1 = "-"
		cmd.StdinR = c.given(a)
	} else if oneIn(r, 6) {
		n2 = "-"
		cmd.StdinR = c.given(b)
	}
	args := []string{n1, n2}
	if opt != "" {
		k := 0
		if oneIn(r, 10) {
			k = 1 + r.IntN(2)
		}
		args = append(args[:k:k], append([]string{opt}, args[k:]...)...)
		if oneIn(r, 12) { // again, or both: -s goes before -l
			more := pick(r, opt, "-s", "-l")
			k := r.IntN(len(args) + 1)
			args = append(args[:k:k], append([]string{more}, args[k:]...)...)
			if more != opt {
				opt = "-s"
				c.Count("both", 1)
			}
		}
	}
	cmd.Args = args

	// model
	var out strings.Builder
	common := min(len(a), len(b))
	first := firstDiff(a, b)
	code := 0
	eof := ""
	if first < common {
		code = 1
		switch opt {
		case "":
			out.WriteString(sprintf("%s %s differ: char %d, line %d\n", n1, n2, first+1, 1+bytes.Count(a[:first], []byte("\n"))))
		case "-l":
			for i := first; i < common; i++ {
				if a[i] != b[i] {
					out.WriteString(sprintf("%d %o %o\n", i+1, a[i], b[i]))
				}
			}
		}
	}
	if len(a) != len(b) && (first == common || opt == "-l") {
		code = 1
		if opt != "-s" {
			eof = n1
			if len(b) < len(a) {
				eof = n2
			}
		}
	}
	c.Desc("cmp %q: %d and %d bytes, first difference %d, expect exit %d", args, len(a), len(b), first, code)
	c.Key(args, a, b)
	if len(a)+len(b) == 0 {
		c.Trivial()
	}
	switch {
	case code == 0:
		c.Count("equal", 1)
	case first < common:
		c.Count("differ", 1)
	default:
		c.Count("prefix", 1)
	}
	c.Count("bytes", len(a)+len(b))
	res := c.Run(cmd)
	if res.Hung {
		return
	}
	if res.Code != code {
		c.Fail("exit status %d, want %d: %s", res.Code, code, res)
	}
	if string(res.Out) != out.String() {
		c.Fail("stdout: %s", show(res.Out, []byte(out.String())))
	}
	if eof == "" && len(res.Err) != 0 {
		c.Fail("stderr must be empty: %q", res.Err)
	}
	if eof != "" && !strings.Contains(string(res.Err), "EOF on "+eof) {
		c.Fail("stderr must report EOF on %q: %q", eof, res.Err)
	}
}

// headOf returns the first n lines of b.
func headOf(b []byte, n int) []byte {
	at := 0
	for ; n > 0 && at < len(b); n-- {
		i := bytes.IndexByte(b[at:], '\n')
		if i < 0 {
			return b
		}
		at += i + 1
	}
	return b[:at]
}

func runHead(c *Ctx) {
	r := c.R
	dir := c.Dir()
	nf := pick(r, 0, 1, 1, 1, 2, 3, 5)
	many := oneIn(r, 200)
	if many {
		nf = 20 + r.IntN(280)
	}
	n := 10
	var args []string
	setN := oneIn(r, 3) == false
	stdin := blob(r, size(r, 150000))
	stdinLeft := true
	var names []string
	var datas [][]byte
	for i := 0; i < nf; i++ {
		if oneIn(r, 7) {
			names = append(names, "-")
			// A utility may read ahead on standard input: what a second "-" reads is not specified
			if !stdinLeft {
				names[len(names)-1] = "again"
				c.write("again", nil)
				datas = append(datas, nil)
				continue
			}
			stdinLeft = false
			datas = append(datas, stdin)
			c.Count("stdin", 1)
			continue
		}
		if oneIn(r, 60) {
			f, b := procFile(r)
			names = append(names, f)
			datas = append(datas, b)
			continue
		}
		f := name(r) + strconv.Itoa(i)
		max := 100000
		if oneIn(r, 200) {
			max = 3 << 20
		}
		if many {
			max = 500
		}
		b := blob(r, size(r, max))
		if c.Idx%50 == 3 {
			// a line around a buffer boundary, then short lines
			b = append(bytes.Repeat([]byte{'L'}, pick(r, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 200000)), '\n')
			b = append(b, blob(r, 40)...)
		}
		c.write(f, b)
		names = append(names, f)
		datas = append(datas, b)
	}
	if nf == 0 {
		names = nil
		datas = [][]byte{stdin}
		c.Count("stdin", 1)
	}
	if setN {
		total := bytes.Count(datas[0], []byte("\n"))
		n = pick(r, 0, 1, 2, 3, 9, 10, 11, 100, total, total+1, max(0, total-1), r.IntN(total+2), 1000000, 1<<31, 1<<40)
		num := strconv.Itoa(n)
		if oneIn(r, 10) {
			num = pick(r, "0", "00", "0000000000000000000000", "+") + num
		}
		if oneIn(r, 12) { // the last one counts
			args = append(args, "-n", pick(r, "0", "1", "2", "5", "1000"))
			c.Count("repeated", 1)
		}
		args = append(args, "-n", num)
	}
	missing := oneIn(r, 25)
	bad, before := pick(r, "missing", "sub"), 0
	if missing {
		if bad == "sub" {
			os.Mkdir(filepath.Join(dir, "sub"), 0755)
		}
		at := r.IntN(len(names) + 1)
		if nf == 0 {
			datas = nil
		}
		names = append(names[:at:at], append([]string{bad}, names[at:]...)...)
		datas = append(datas[:at:at], append([][]byte{nil}, datas[at:]...)...)
	}
	args = append(args, names...)
	var want []byte
	content := 0
	for i, b := range datas {
		if missing && names[i] == bad {
			before = len(want)
		}
		if len(datas) > 1 {
			if i > 0 {
				want = append(want, '\n')
			}
			want = append(want, ("==> " + names[i] + " <==\n")...)
		}
		h := headOf(b, n)
		content += len(h)
		c.Count("lines", bytes.Count(h, []byte("\n")))
		if len(h) < len(b) {
			c.Count("cut", 1)
		}
		want = append(want, h...)
	}
	if len(datas) > 1 {
		c.Count("multi", 1)
	}
	c.Desc("head %q, inputs of %d bytes in total, expect %d bytes", args, content, len(want))
	c.Key(args, want)
	if content == 0 {
		c.Trivial()
	}
	cmd := Cmd{Name: "head", Args: args, Dir: dir, Stdin: stdin}
	if oneIn(r, 2) {
		cmd.StdinR = c.given(stdin)
	}
	res := c.Run(cmd)
	if res.Hung {
		return
	}
	if missing {
		c.Count("unreadable", 1)
		if n > 0 && res.Code == 0 {
			c.Fail("an input cannot be read, but the exit status is 0")
		}
		if !bytes.HasPrefix(res.Out, want[:before]) {
			c.Fail("stdout before the input that cannot be read: %s", show(res.Out, want[:before]))
		}
		return
	}
	if !bytes.Equal(res.Out, want) {
		c.Fail("stdout: %s", show(res.Out, want))
	}
	if res.Code != 0 || len(res.Err) != 0 {
		c.Fail("exit=%d signal=%d stderr=%q", res.Code, res.Sig, clip(string(res.Err), 500))
	}
}

From 06cc4b9197358b9fa6de018c407e4620d86b8821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:30 +0000
Subject: [PATCH 01/64] fix: cat: exit with a nonzero status when an operand
 cannot be copied

---
 cmd/cat/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cat/main.go b/cmd/cat/main.go
index 639fa86..5f7548f 100644
--- a/cmd/cat/main.go
+++ b/cmd/cat/main.go
@@ -49,7 +49,7 @@ func main() {
 		err := writeFile(fn)
 		if err != nil {
 			os.Stderr.Write([]byte(fmt.Sprintf("Error encountered while attempting to read from %s: %s\n", fn, err)))
-			break
+			os.Exit(1)
 		}
 	}
 }
-- 
2.43.0


From 3981df287700fdba9554de35de23e3d5cd4714d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 02/64] fix: cksum: write no file name when standard input is
 read by default

---
 cmd/cksum/main.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/cksum/main.go b/cmd/cksum/main.go
index d0177cb..d30c3f8 100644
--- a/cmd/cksum/main.go
+++ b/cmd/cksum/main.go
@@ -11,7 +11,7 @@ func die(format string, args ...interface{}) {
 	os.Exit(1)
 }
 
-func run(filename string) {
+func run(filename, label string) {
 	reader := os.Stdin
 	if filename != "-" {
 		f, err := os.Open(filename)
@@ -26,15 +26,16 @@ func run(filename string) {
 		die("couldn't read input %s", err)
 	}
 
-	fmt.Printf("%d %d %s\n", memcrc(bytes), len(bytes), filename)
+	fmt.Printf("%d %d%s\n", memcrc(bytes), len(bytes), label)
 }
 
 func main() {
 	files := os.Args[1:]
 	if len(files) == 0 {
-		files = append(files, "-")
+		// POSIX: no pathname is written when no operand is given
+		run("-", "")
 	}
 	for _, f := range files {
-		run(f)
+		run(f, " "+f)
 	}
 }
-- 
2.43.0


From fdcaff605db14470aa573914d8761e0bd6169a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 03/64] fix: cmp: exit 1 when -l finds differing bytes

---
 cmd/cmp/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index e1235b0..d7360a4 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -58,6 +58,7 @@ func cmp(s settings) error {
 	buf1 := bufio.NewReader(f1)
 	buf2 := bufio.NewReader(f2)
 	l := 1
+	differ := false
 	for i := 1; err == nil; i++ {
 		b1, err1 := buf1.ReadByte()
 		b2, err2 := buf2.ReadByte()
@@ -74,6 +75,7 @@ func cmp(s settings) error {
 				if !s.writeAll {
 					os.Exit(1)
 				}
+				differ = true
 			}
 			if b1 == byte('\n') {
 				l++
@@ -100,6 +102,9 @@ func cmp(s settings) error {
 
 	}
 
+	if differ {
+		os.Exit(1)
+	}
 	return nil
 }
 
-- 
2.43.0


From ce8f2fca140d6ceeb2f3358735da5c345aa4c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:32 +0000
Subject: [PATCH 04/64] fix: cmp: -s writes nothing when one file is a prefix
 of the other

---
 cmd/cmp/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index d7360a4..2efc3da 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -87,14 +87,18 @@ func cmp(s settings) error {
 		}
 		if err1 != nil {
 			if err1 == io.EOF {
-				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
+				if !s.silent {
+					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
+				}
 				os.Exit(1)
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file1, err1)
 		}
 		if err2 != nil {
 			if err2 == io.EOF {
-				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
+				if !s.silent {
+					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
+				}
 				os.Exit(1)
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
-- 
2.43.0


From 69c58fb99baa42050de7f74a7cdfeb16aee03968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:32 +0000
Subject: [PATCH 05/64] fix: cmp: report a read error on the second file at the
 end of the first

---
 cmd/cmp/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index 2efc3da..9f67329 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -85,6 +85,9 @@ func cmp(s settings) error {
 		if err1 == io.EOF && err2 == io.EOF {
 			break
 		}
+		if err2 != nil && err2 != io.EOF {
+			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
+		}
 		if err1 != nil {
 			if err1 == io.EOF {
 				if !s.silent {
-- 
2.43.0


From d9fe4684ab7f3a13ebcff58277405ccf7fdf6ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:14 +0000
Subject: [PATCH 06/64] fix: diff: report trouble on standard error with exit
 status 2

A file that cannot be read was silently compared as an empty one.
---
 cmd/diff/main.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index aa59f4f..dad205b 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -97,12 +97,20 @@ func readLines(fn string) ([]string, error) {
 func main() {
 	settings, err := parseSettings(os.Args[1:])
 	if err != nil {
-		fmt.Fprintf(os.Stdout, "Oh heck an error: %s\n", err)
-		os.Exit(1)
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
 	}
 
-	l1, _ := readLines(settings.file1)
-	l2, _ := readLines(settings.file2)
+	l1, err := readLines(settings.file1)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
+	}
+	l2, err := readLines(settings.file2)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
+	}
 	changes := diff.Diff(l1, l2)
 
 	fmt.Println(diff.Format(changes))
-- 
2.43.0


From 7e8533c07c07df25560f1dd199e4c21cc663abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 07/64] fix: diff: write nothing for equal files and exit 1 for
 different ones

---
 cmd/diff/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index dad205b..01858ba 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -113,5 +113,8 @@ func main() {
 	}
 	changes := diff.Diff(l1, l2)
 
-	fmt.Println(diff.Format(changes))
+	if out := diff.Format(changes); out != "" {
+		fmt.Println(out)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From a5daa9a9ceee8ed083f6939d16bf864b1f152b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:16 +0000
Subject: [PATCH 08/64] fix: diff: compare carriage returns and lines longer
 than 64 KiB

---
 cmd/diff/main.go |  4 ++++
 pkg/txt/scan.go  | 15 +++++++++++++++
 2 files changed, 19 insertions(+)
 create mode 100644 pkg/txt/scan.go

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index 01858ba..e8dbb41 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -3,10 +3,12 @@ package main
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 	"strconv"
 
 	"github.com/fwip/posix-utils/pkg/diff"
+	"github.com/fwip/posix-utils/pkg/txt"
 )
 
 type settings struct {
@@ -87,6 +89,8 @@ func readLines(fn string) ([]string, error) {
 	}
 	defer f.Close()
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, math.MaxInt32)
+	scanner.Split(txt.ScanLines)
 	lines := make([]string, 0)
 	for scanner.Scan() {
 		lines = append(lines, scanner.Text())
diff --git a/pkg/txt/scan.go b/pkg/txt/scan.go
new file mode 100644
index 0000000..c8ed22b
--- /dev/null
+++ b/pkg/txt/scan.go
@@ -0,0 +1,15 @@
+package txt
+
+import "bytes"
+
+// ScanLines is a split function for a bufio.Scanner that returns each line
+// without its newline. Unlike bufio.ScanLines, it keeps carriage returns.
+func ScanLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	if i := bytes.IndexByte(data, '\n'); i >= 0 {
+		return i + 1, data[:i], nil
+	}
+	if atEOF && len(data) > 0 {
+		return len(data), data, nil
+	}
+	return 0, nil, nil
+}
-- 
2.43.0


From 08905c59a39aa504a406cab74848780a12c880e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:17 +0000
Subject: [PATCH 09/64] fix: head: read standard input when there are no
 arguments

---
 cmd/head/main.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index d3d8a3a..20afd01 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -19,11 +19,6 @@ func parseSettings(args []string) (settings, error) {
 		//filenames: []string{"-"},
 	}
 
-	if len(args) == 0 {
-		return s, nil
-		//return settings{}, fmt.Errorf("No arguments")
-	}
-
 	for i := 0; i < len(args); i++ {
 		if args[i] == "-n" {
 			i++
-- 
2.43.0


From 93cec4c9a523b875ed836ef3555dffe59a29872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:18 +0000
Subject: [PATCH 10/64] fix: head: copy lines unchanged, whatever their length
 and line ending

Carriage returns were dropped, a missing final newline was added, and a
line longer than 64 KiB made head panic.
---
 cmd/head/main.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 20afd01..1f1b8a5 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -59,14 +59,16 @@ func process(s settings) {
 			}
 		}
 
-		scan := bufio.NewScanner(f)
-		j := 0
-		for scan.Scan() && j < s.numLines {
-			fmt.Println(scan.Text())
-			j++
-		}
-		if scan.Err() != nil {
-			panic(scan.Err())
+		r := bufio.NewReader(f)
+		for j := 0; j < s.numLines; j++ {
+			line, err := r.ReadString('\n')
+			fmt.Print(line)
+			if err == io.EOF {
+				break
+			}
+			if err != nil {
+				panic(err)
+			}
 		}
 	}
 
-- 
2.43.0


From b00ba1d4c7d2eff29ef515e398e6a941f9c8f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:19 +0000
Subject: [PATCH 11/64] fix: test: follow the POSIX rules for two, three and
 four arguments

An empty first operand made every comparison false, operands that look
like operators were taken for operators, and extra operands were ignored.
---
 cmd/test/main.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/cmd/test/main.go b/cmd/test/main.go
index e3aea10..3ce602d 100644
--- a/cmd/test/main.go
+++ b/cmd/test/main.go
@@ -26,25 +26,23 @@ func parse(args []string) (bool, error) {
 		return args[0] != "", nil
 	}
 
+	// POSIX: with three arguments, a binary operator in the middle comes first
+	if len(args) == 3 {
+		if f, ok := infixMap[args[1]]; ok {
+			return f(args[0], args[2])
+		}
+	}
+
 	arg := args[0]
 	if arg == "!" {
 		ok, err := parse(args[1:])
 		return !ok, err
 	}
-	if arg == "" {
-		return false, nil
-	}
-	if len(arg) == 2 && arg[0] == '-' {
+	if len(args) == 2 && len(arg) == 2 && arg[0] == '-' {
 		if f, ok := flagMap[arg[1]]; ok {
 			return f(args[1])
 		}
 	}
 
-	if len(args) == 3 {
-		if f, ok := infixMap[args[1]]; ok {
-			return f(args[0], args[2])
-		}
-	}
-
 	return false, fmt.Errorf("idk what to do about this")
 }
-- 
2.43.0


From 0ebbe2db3402ee789fa4d8f7344d1d002c134015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:20 +0000
Subject: [PATCH 12/64] fix: kill: send the requested signal instead of always
 SIGKILL

---
 cmd/kill/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index a186ba1..692d887 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"syscall"
 )
 
 var signalMap = map[string]int{
@@ -67,8 +68,7 @@ func main() {
 	if err != nil {
 		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
 	}
-	//err = process.Signal(syscall.Signal(signal))
-	err = process.Kill()
+	err = process.Signal(syscall.Signal(signal))
 	if err != nil {
 		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
 	}
-- 
2.43.0


From d58622f4c39bf0825c5a9ea2526bb94bc888b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:21 +0000
Subject: [PATCH 13/64] fix: kill: signal every process named, not only the
 last one

---
 cmd/kill/main.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index 692d887..e5e5e37 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -30,7 +30,7 @@ func main() {
 
 	listSignals := false
 	signal := 15
-	var pid int
+	var pids []int
 	var err error
 	var ok bool
 	for i := 1; i < len(os.Args); i++ {
@@ -52,10 +52,11 @@ func main() {
 					errorMsg("%s isn't a number, bro...", a)
 				}
 			} else {
-				pid, err = strconv.Atoi(a)
+				pid, err := strconv.Atoi(a)
 				if err != nil {
 					errorMsg("expected a PID here..., got %s", a)
 				}
+				pids = append(pids, pid)
 			}
 		}
 	}
@@ -63,14 +64,23 @@ func main() {
 	if listSignals {
 
 	}
-	fmt.Println("sending", signal, "to", pid)
-	process, err := os.FindProcess(pid)
-	if err != nil {
-		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
+	if len(pids) == 0 {
+		errorMsg("no PID given\n")
 	}
-	err = process.Signal(syscall.Signal(signal))
-	if err != nil {
-		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
+	failed := false
+	for _, pid := range pids {
+		fmt.Println("sending", signal, "to", pid)
+		process, err := os.FindProcess(pid)
+		if err == nil {
+			err = process.Signal(syscall.Signal(signal))
+		}
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "couldn't send signal %d to %d, %s\n", signal, pid, err)
+			failed = true
+		}
+	}
+	if failed {
+		os.Exit(2)
 	}
 
 	fmt.Println("vim-go")
-- 
2.43.0


From abd369180bb3deb886a4744879e95cd3153dd0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:21 +0000
Subject: [PATCH 14/64] fix: locale: do not interpret % in the values of
 environment variables

---
 cmd/locale/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 23ecf52..95c63dd 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -4,5 +4,5 @@ import "fmt"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
-	fmt.Printf(locale.FromEnv().String())
+	fmt.Print(locale.FromEnv().String())
 }
-- 
2.43.0


From bcb1ac8d6681a71144386a3020843e57eac51a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:22 +0000
Subject: [PATCH 15/64] fix: tsort: keep an item's successors when it is added
 again alone

---
 pkg/tsort/tsort.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/tsort/tsort.go b/pkg/tsort/tsort.go
index 7e10f0f..fe11884 100644
--- a/pkg/tsort/tsort.go
+++ b/pkg/tsort/tsort.go
@@ -23,7 +23,9 @@ func (s *Sorter) Add(items []string) {
 		return
 	}
 	if len(items) == 1 {
-		s.orderings[items[0]] = nil
+		if _, ok := s.orderings[items[0]]; !ok {
+			s.orderings[items[0]] = nil
+		}
 		return
 	}
 	for i := 0; i < len(items)-1; i++ {
-- 
2.43.0


From 72dfe0aee2f2cfde7f913a90b0e9809f31f53f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:56 +0000
Subject: [PATCH 16/64] fix: flag: take attached option values whole, and
 return errors for bad options

The characters of an attached value were parsed again as options, and an
undeclared option or a missing value at the end made Parse panic.
---
 pkg/flag/parse.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pkg/flag/parse.go b/pkg/flag/parse.go
index ff5f5e5..acf252c 100644
--- a/pkg/flag/parse.go
+++ b/pkg/flag/parse.go
@@ -3,6 +3,7 @@ package flag
 import (
 	"fmt"
 	"os"
+	"unicode/utf8"
 )
 
 // Parser does the hard work of assigning parses
@@ -42,25 +43,29 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 				continue
 			}
 
+			strFlag, isString := p.strings[c]
+			intFlag, isInt := p.ints[c]
+			if !isString && !isInt {
+				return nil, fmt.Errorf("man what's happening")
+			}
+
 			// Argument may be either bundled or separate
-			value := arg[j+2:]
+			value := arg[1+j+utf8.RuneLen(c):]
 			if len(value) == 0 {
 				i++
+				if i >= len(p.Input) {
+					return nil, fmt.Errorf("no value given for -%c", c)
+				}
 				value = p.Input[i]
 			}
 
-			if flag, ok := p.strings[c]; ok {
-				flag.execute(value)
-				continue
-			}
-			if flag, ok := p.ints[c]; ok {
-				err := flag.execute(value)
-				if err != nil {
-					return nil, err
-				}
-				continue
+			if isString {
+				strFlag.execute(value)
+			} else if err := intFlag.execute(value); err != nil {
+				return nil, err
 			}
-			return nil, fmt.Errorf("man what's happening")
+			// The value uses up the rest of the argument
+			break
 			//// non-boolean flags may only be bundled if they are the last
 			//if j != len(arg)-2 {
 			//	return nil, ErrBadBundle(fmt.Errorf("inappropriate bundling of %c in %s", c, arg))
-- 
2.43.0


From 2ad1f9a2d4feaa1ecac1c2b7f2f335b76e18e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:04 +0000
Subject: [PATCH 17/64] fix: regexes: honour the right anchor, and repeat only
 over adjacent characters

---
 pkg/regexes/bre_evaluate.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/regexes/bre_evaluate.go b/pkg/regexes/bre_evaluate.go
index 1030c1d..0ce618f 100644
--- a/pkg/regexes/bre_evaluate.go
+++ b/pkg/regexes/bre_evaluate.go
@@ -5,7 +5,7 @@ func (bre Bre) Matches(input string) bool {
 	runes := []rune(input)
 
 	if bre.anchorLeft || len(input) == 0 {
-		match, length := elementsMatch(bre.elements, runes)
+		match, length := elementsMatch(bre.elements, runes, bre.anchorRight)
 		if !match {
 			return false
 		}
@@ -15,8 +15,9 @@ func (bre Bre) Matches(input string) bool {
 		return true
 	}
 
-	for i := range runes {
-		match, length := elementsMatch(bre.elements, runes[i:])
+	// i == len(runes) is the empty match at the end
+	for i := 0; i <= len(runes); i++ {
+		match, length := elementsMatch(bre.elements, runes[i:], bre.anchorRight)
 		if !match {
 			continue
 		}
@@ -30,11 +31,12 @@ func (bre Bre) Matches(input string) bool {
 }
 
 // recursive
-func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, matchlen int) {
+func elementsMatch(elements []breDuplElement, runes []rune, anchorRight bool) (matches bool, matchlen int) {
 
-	// No elements matches any string
+	// No elements matches the empty string, which must be at the end when
+	// the expression is anchored there
 	if len(elements) == 0 {
-		return true, len(runes)
+		return !anchorRight || len(runes) == 0, 0
 	}
 
 	e := elements[0]
@@ -47,12 +49,14 @@ func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, match
 		} else if matched < e.count.min {
 			// Return early if we don't have at least the minimum matches
 			return false, 0
+		} else {
+			break
 		}
 	}
 
 	// Check remainder of matches, backtracking when necessary
 	for i := matched; i >= e.count.min; i-- {
-		if match, length := elementsMatch(elements[1:], runes[i:]); match {
+		if match, length := elementsMatch(elements[1:], runes[i:], anchorRight); match {
 			return match, length + i
 		}
 	}
-- 
2.43.0


From 4c82aeb4e850d748d51805e0971c5bb0e0843078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:06 +0000
Subject: [PATCH 18/64] fix: txt: let a zero PieceTable take more than one
 insertion, and copy its first

---
 pkg/txt/piece_table.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index b64520c..b8f19cc 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -117,10 +117,13 @@ func (pt *PieceTable) Insert(text []byte, at int) {
 		pt.head = &piece{
 			length: len(text),
 			offset: 0,
-			reader: bytes.NewReader(text),
+			reader: bytes.NewReader(append([]byte(nil), text...)),
 		}
 		return
 	}
+	if pt.append == nil {
+		pt.append = bytes.NewBuffer(nil)
+	}
 	for p := pt.head; p != nil; p = p.next {
 		idx += p.length
 		if idx >= at {
-- 
2.43.0


From 9ebc96c21a744da34dd197ad4987ab3aa477d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:07 +0000
Subject: [PATCH 19/64] fix: txt: delete to the end of the text when the range
 reaches past it

---
 pkg/txt/piece_table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index b8f19cc..637bed9 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -180,6 +180,10 @@ func (pt *PieceTable) Delete(length int, at int) {
 			return
 		}
 	}
+	// The range reaches past the end: nothing after its start remains
+	if first != nil {
+		first.next = nil
+	}
 	//panic(fmt.Errorf("at (%d) too big, max %d", at, end))
 }
 
-- 
2.43.0


From 2465d170248075e275575aa4d2fd1edbbcaa6d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:06 +0000
Subject: [PATCH 20/64] fix: ed: take the text of a command by characters, not
 by bytes

---
 pkg/ed/ed.peg    | 16 ++++++++--------
 pkg/ed/ed.peg.go | 32 ++++++++++++++++----------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 26da4ad..164fa99 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -38,19 +38,19 @@ addTextCmd <- startAddr? addTextC newLine text
 
 markCmd <- startAddr? 'k' <[a-z]> {
   p.curCmd.typ = ctmark
-  p.curCmd.params = []string{buffer[begin:end]}
+  p.curCmd.params = []string{text}
 }
 
 destCmd <- range? destC <addrO> {p.curCmd.dest = p.curAddr ; p.curAddr = address{}}
 
 readCmd <- startAddr? 'r' sp <param> {
   p.curCmd.typ = ctread
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 writeCmd <- range? 'w' sp <param> {
   p.curCmd.typ = ctwrite
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
           / range? 'w' {
   p.curCmd.typ = ctwrite
@@ -58,13 +58,13 @@ writeCmd <- range? 'w' sp <param> {
 
 shellCmd <- '!' <param> {
   p.curCmd.typ = ctshell
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = text; fmt.Println("t", p.curCmd.text)}
 
 textTerm <- '\n.'
 
@@ -81,14 +81,14 @@ range <- startAddr ',' endAddr
        / sp* ';' sp*           {p.curCmd.start = aCur; p.curCmd.end = aLast}
 
 
-addrCmd <- <startAddr> addrC {p.curCmd.start.text = buffer[begin:end]}
+addrCmd <- <startAddr> addrC {p.curCmd.start.text = text}
          / addrC
 
 # Addresses
 startAddr <- sp* addrO sp* {p.curCmd.start = p.curAddr; p.curAddr = address{}}
 endAddr <- sp* addrO sp* {p.curCmd.end = p.curAddr; p.curAddr = address{}}
 
-addrO <- <addr offset?>  {p.curAddr.text = buffer[begin:end]}
+addrO <- <addr offset?>  {p.curAddr.text = text}
 
 addr <- literalAddr
       / markAddr
@@ -120,7 +120,7 @@ bareCmd <- 'h' {p.curCmd.typ = cthelp}
 
 offset <- ('+'/'-') [0-9]*
 
-paramCmd <- paramC sp <param> { p.curCmd.params = []string{buffer[begin:end]}}
+paramCmd <- paramC sp <param> { p.curCmd.params = []string{text}}
           / paramC
 
 paramC <- 'e' {p.curCmd.typ = ctedit}
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index 5882678..d37e3fa 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -422,7 +422,7 @@ func (p *Parser) Execute() {
 		case ruleAction2:
 
 			p.curCmd.typ = ctmark
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 
 		case ruleAction3:
 			p.curCmd.dest = p.curAddr
@@ -430,12 +430,12 @@ func (p *Parser) Execute() {
 		case ruleAction4:
 
 			p.curCmd.typ = ctread
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction5:
 
 			p.curCmd.typ = ctwrite
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction6:
 
@@ -444,10 +444,10 @@ func (p *Parser) Execute() {
 		case ruleAction7:
 
 			p.curCmd.typ = ctshell
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction8:
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 			fmt.Println("t", p.curCmd.text)
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
@@ -466,7 +466,7 @@ func (p *Parser) Execute() {
 			p.curCmd.start = aCur
 			p.curCmd.end = aLast
 		case ruleAction16:
-			p.curCmd.start.text = buffer[begin:end]
+			p.curCmd.start.text = text
 		case ruleAction17:
 			p.curCmd.start = p.curAddr
 			p.curAddr = address{}
@@ -474,7 +474,7 @@ func (p *Parser) Execute() {
 			p.curCmd.end = p.curAddr
 			p.curAddr = address{}
 		case ruleAction19:
-			p.curAddr.text = buffer[begin:end]
+			p.curAddr.text = text
 		case ruleAction20:
 			p.curAddr.typ = lCurrent
 		case ruleAction21:
@@ -500,7 +500,7 @@ func (p *Parser) Execute() {
 		case ruleAction31:
 			p.curCmd.typ = ctundo
 		case ruleAction32:
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 		case ruleAction33:
 			p.curCmd.typ = ctedit
 		case ruleAction34:
@@ -2251,7 +2251,7 @@ func (p *Parser) Init() {
 		nil,
 		/* 42 Action2 <- <{
 		  p.curCmd.typ = ctmark
-		  p.curCmd.params = []string{buffer[begin:end]}
+		  p.curCmd.params = []string{text}
 		}> */
 		func() bool {
 			{
@@ -2268,7 +2268,7 @@ func (p *Parser) Init() {
 		},
 		/* 44 Action4 <- <{
 		  p.curCmd.typ = ctread
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2278,7 +2278,7 @@ func (p *Parser) Init() {
 		},
 		/* 45 Action5 <- <{
 		  p.curCmd.typ = ctwrite
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2297,7 +2297,7 @@ func (p *Parser) Init() {
 		},
 		/* 47 Action7 <- <{
 		  p.curCmd.typ = ctshell
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2305,7 +2305,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}> */
+		/* 48 Action8 <- <{p.curCmd.text = text; fmt.Println("t", p.curCmd.text)}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
@@ -2361,7 +2361,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 56 Action16 <- <{p.curCmd.start.text = buffer[begin:end]}> */
+		/* 56 Action16 <- <{p.curCmd.start.text = text}> */
 		func() bool {
 			{
 				add(ruleAction16, position)
@@ -2382,7 +2382,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 59 Action19 <- <{p.curAddr.text = buffer[begin:end]}> */
+		/* 59 Action19 <- <{p.curAddr.text = text}> */
 		func() bool {
 			{
 				add(ruleAction19, position)
@@ -2473,7 +2473,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 72 Action32 <- <{ p.curCmd.params = []string{buffer[begin:end]}}> */
+		/* 72 Action32 <- <{ p.curCmd.params = []string{text}}> */
 		func() bool {
 			{
 				add(ruleAction32, position)
-- 
2.43.0


From 29561168cd09aaac988e42cb6909117163032914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:07 +0000
Subject: [PATCH 21/64] fix: ed: end input text only at a line that is a single
 period

---
 pkg/ed/ed.peg    | 2 +-
 pkg/ed/ed.peg.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 164fa99..1a83f75 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -66,7 +66,7 @@ nullCmd <- startAddr?
 
 text <- <(!textTerm .)*> textTerm {p.curCmd.text = text; fmt.Println("t", p.curCmd.text)}
 
-textTerm <- '\n.'
+textTerm <- '\n.' &'\n'
 
 rangeCmd <- range? sp* rangeC
 
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index d37e3fa..b028e2c 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -1084,7 +1084,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position64, tokenIndex64
 			return false
 		},
-		/* 12 textTerm <- <('\n' '.')> */
+		/* 12 textTerm <- <('\n' '.' &'\n')> */
 		func() bool {
 			position70, tokenIndex70 := position, tokenIndex
 			{
@@ -1097,6 +1097,9 @@ func (p *Parser) Init() {
 					goto l70
 				}
 				position++
+				if buffer[position] != rune('\n') {
+					goto l70
+				}
 				add(ruletextTerm, position71)
 			}
 			return true
-- 
2.43.0


From 7ec8972213d5342d0e35fe024c3ddd4c1c399952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:08 +0000
Subject: [PATCH 22/64] fix: ed: keep debugging output off standard output

---
 pkg/ed/ed.go     | 6 +++---
 pkg/ed/ed.peg    | 2 +-
 pkg/ed/ed.peg.go | 3 +--
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index df49cf7..ac1ef20 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -52,7 +52,7 @@ func (ed *Itor) Write() error {
 	var err error
 
 	tmpName := ed.filename + ".swp"
-	fmt.Printf("f is '%s', tmp is '%s'\n", ed.filename, tmpName)
+	debug("f is", ed.filename, "tmp is", tmpName)
 
 	stat, err := os.Stat(ed.filename)
 	if err != nil {
@@ -239,13 +239,13 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			p.Execute()
 		}
 		if s.Err() != nil {
-			fmt.Println("Err:", s.Err())
+			debug("Err:", s.Err())
 		}
 		close(cmds)
 	}()
 
 	for cmd := range cmds {
-		fmt.Println("cmd", cmd)
+		debug("cmd", cmd)
 		// Special-case quit command for now
 		if cmd.typ == ctquit {
 			break // TODO: checking
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 1a83f75..307d312 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -64,7 +64,7 @@ shellCmd <- '!' <param> {
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = text; fmt.Println("t", p.curCmd.text)}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = text}
 
 textTerm <- '\n.' &'\n'
 
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index b028e2c..614d26c 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -448,7 +448,6 @@ func (p *Parser) Execute() {
 
 		case ruleAction8:
 			p.curCmd.text = text
-			fmt.Println("t", p.curCmd.text)
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
 		case ruleAction10:
@@ -2308,7 +2307,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = text; fmt.Println("t", p.curCmd.text)}> */
+		/* 48 Action8 <- <{p.curCmd.text = text}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
-- 
2.43.0


From d4fbbb0e9c71ba4dd5bb6c15b2d9c6c73bd772cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:09 +0000
Subject: [PATCH 23/64] fix: ed: report syntax errors in the order of the
 commands, without a race

---
 pkg/ed/command.go | 1 +
 pkg/ed/ed.go      | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/ed/command.go b/pkg/ed/command.go
index 0df7ebe..b09fb38 100644
--- a/pkg/ed/command.go
+++ b/pkg/ed/command.go
@@ -44,4 +44,5 @@ const (
 	ctwrite
 	ctlineNumber
 	ctshell
+	ctinvalid // text is the parse error
 )
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index ac1ef20..48e9b35 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -231,9 +231,7 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			p.Init()
 			err := p.Parse()
 			if err != nil {
-				//fmt.Println("Err!", err)
-				w.Write([]byte("?" + err.Error() + "\n"))
-				//close(cmds)
+				cmds <- Command{typ: ctinvalid, text: err.Error()}
 				continue
 			}
 			p.Execute()
@@ -296,6 +294,9 @@ func linesIn(s string) int {
 func (ed *Itor) processCommand(cmd Command) string {
 	var err error
 
+	if cmd.typ == ctinvalid {
+		return "?" + cmd.text
+	}
 	cmd = setDefaultAddresses(cmd)
 	switch cmd.typ {
 	case ctedit:
-- 
2.43.0


From 3511449c7a25b89f71e553ba659ad886692bd423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:10 +0000
Subject: [PATCH 24/64] fix: ed: keep empty last lines, carriage returns and
 lines over 64 KiB

---
 pkg/ed/ed.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 48e9b35..5d24a5a 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"os"
 	"regexp"
 	"strconv"
@@ -159,20 +160,11 @@ func (ed *Itor) getLineAddr(num int) int {
 
 func (ed *Itor) getLines() (lines []string) {
 	// Retrieve the piece table's output and tokenize into lines
-	s := bufio.NewScanner(strings.NewReader(ed.pt.String()))
-	for s.Scan() {
-		lines = append(lines, s.Text())
-	}
-	if s.Err() != nil {
-		panic(s.Err())
-	}
-
-	// If there's an empty line at the end, remove it
-	// This happens when the file ends in a newline character
-	if len(lines) > 0 && lines[len(lines)-1] == "" {
-		lines = lines[:len(lines)-1]
+	s := ed.pt.String()
+	if s == "" {
+		return nil
 	}
-	return lines
+	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
 }
 
 func (ed *Itor) regexMatch(re string) (line int, found bool) {
@@ -213,8 +205,10 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 
 	go func() {
 		s := bufio.NewScanner(r)
+		s.Buffer(nil, math.MaxInt32)
+		s.Split(txt.ScanLines)
 		for s.Scan() {
-			cmd := s.Text()
+			cmd := strings.TrimSuffix(s.Text(), "\r")
 
 			// Handle multi-line commands
 			if multlineCmdStart.Match([]byte(cmd)) {
-- 
2.43.0


From c11f47fa780f89169ce13543d47a621576eea920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:56 +0000
Subject: [PATCH 25/64] fix: ed: read the whole file on e, so that no read can
 fail later

---
 pkg/ed/ed.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 5d24a5a..7918695 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -83,20 +83,16 @@ func (ed *Itor) Edit(filename string, force bool) error {
 	if !force && ed.unsaved() {
 		panic("oh no you haven't saved")
 	}
-	f, err := os.Open(filename)
+	// Keep a copy, so that the buffer does not depend on what happens to the file
+	data, err := ioutil.ReadFile(filename)
 	if err != nil {
-		debug("cannae open", err)
-		return err
-	}
-	stat, err := f.Stat()
-	if err != nil {
-		debug("cannae stat", err)
+		debug("cannae read", err)
 		return err
 	}
 
 	debug("setting filename")
 	ed.filename = filename
-	ed.pt = txt.NewPieceTable(f, int(stat.Size()))
+	ed.pt = txt.NewPieceTable(bytes.NewReader(data), len(data))
 	ed.currentLine = len(ed.getLines())
 
 	return nil
-- 
2.43.0


From 6156fd0977852e294252e3cb352fda0b0f49aa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:58 +0000
Subject: [PATCH 26/64] fix: ed: answer ? when e fails, and re-edit the current
 file without a name

---
 pkg/ed/ed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 7918695..6621565 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -290,13 +290,13 @@ func (ed *Itor) processCommand(cmd Command) string {
 	cmd = setDefaultAddresses(cmd)
 	switch cmd.typ {
 	case ctedit:
-		var filename string
+		filename := ed.filename
 		if len(cmd.params) > 0 {
 			filename = cmd.params[0]
 		}
 		err = ed.Edit(filename, false)
 		if err != nil {
-			return err.Error()
+			return "?" + err.Error()
 		}
 
 	case ctprint:
-- 
2.43.0


From 3b5072eb6754988442ae3925af0f3d560e1146c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:59 +0000
Subject: [PATCH 27/64] fix: ed: append after an unterminated last line, and
 allow an empty buffer

---
 pkg/ed/ed.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 6621565..91ca800 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -117,7 +117,7 @@ func (ed *Itor) number(start, end int) string {
 func (ed *Itor) String() string {
 	s := ed.pt.String()
 	// POSIX requires a file to end with a newline
-	if s[len(s)-1] != '\n' {
+	if len(s) > 0 && s[len(s)-1] != '\n' {
 		s += "\n"
 	}
 	return s
@@ -125,6 +125,11 @@ func (ed *Itor) String() string {
 
 func (ed *Itor) insertBeforeLine(lineNum int, text string) {
 	at := ed.getLineAddr(lineNum)
+	if size := len(ed.pt.String()); at > size {
+		// The last line has no newline
+		text = "\n" + text
+		at = size
+	}
 	ed.pt.Insert([]byte(text+"\n"), at)
 }
 
-- 
2.43.0


From cdae9cc57bf518c9d4920ca8b7d8ed9944eaa6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 28/64] fix: ed: resolve offsets, answer ? for bad addresses
 and keep the current line

---
 pkg/ed/ed.go | 128 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 99 insertions(+), 29 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 91ca800..787feb7 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -168,7 +168,7 @@ func (ed *Itor) getLines() (lines []string) {
 	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
 }
 
-func (ed *Itor) regexMatch(re string) (line int, found bool) {
+func (ed *Itor) regexMatch(re string, current int) (line int, found bool) {
 	lines := ed.getLines()
 	// TODO: Does this regex implemantion conform to spec?
 	regex, err := regexp.CompilePOSIX(re)
@@ -176,15 +176,12 @@ func (ed *Itor) regexMatch(re string) (line int, found bool) {
 		debug(err)
 		return -1, false
 	}
-	n := (ed.currentLine % len(lines)) + 1
-	for ; ; n = (n % len(lines)) + 1 {
-		debug("n is", n)
+	n := current
+	for range lines {
+		n = (n % len(lines)) + 1
 		if regex.Match([]byte(lines[n-1])) {
 			return n, true
 		}
-		if n == ed.currentLine {
-			return -1, false
-		}
 	}
 	return -1, false
 }
@@ -248,32 +245,84 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 	}
 }
 
-func (ed *Itor) addrLine(a address) int {
+// addrLine finds the line that an address stands for when the given line is current
+func (ed *Itor) addrLine(a address, current int) (int, error) {
 	var line int
+	var offset string
+	text := strings.TrimSpace(a.text)
 	switch a.typ {
 	case lCurrent:
-		line = ed.currentLine
+		line = current
+		offset = text[1:]
 	case lNum:
-		n, _ := strconv.Atoi(a.text)
+		digits := text
+		if i := strings.IndexAny(text, "+-"); i >= 0 {
+			digits, offset = text[:i], text[i:]
+		}
+		n, err := strconv.Atoi(digits)
+		if err != nil {
+			return 0, err
+		}
 		line = n
 	case lLast:
 		n := len(ed.getLines())
 		line = n
+		offset = text[1:]
 	case lRegex:
-		regex := strings.Trim(a.text, "/")
-		n, found := ed.regexMatch(regex)
+		last := strings.LastIndex(text, "/")
+		regex := strings.Replace(text[1:last], `\/`, "/", -1)
+		offset = text[last+1:]
+		n, found := ed.regexMatch(regex, current)
 		line = n
 		if !found {
-			debug("oh no we don't have any way to communicate the invalid address")
+			return 0, fmt.Errorf("no match")
 		}
 	//case lRegexReverse:
 	//n := ed.regexMatchReverse(a.text)
 	//line = n
 	default:
-		panic("Dunno a bout address")
+		return 0, fmt.Errorf("unsupported address")
 	}
 
-	return line + a.offset
+	switch offset {
+	case "":
+	case "+":
+		line++
+	case "-":
+		line--
+	default:
+		n, err := strconv.Atoi(offset)
+		if err != nil {
+			return 0, err
+		}
+		line += n
+	}
+	return line + a.offset, nil
+}
+
+// addrRange finds the lines that a command's addresses stand for
+func (ed *Itor) addrRange(cmd Command) (start, end int, err error) {
+	start, err = ed.addrLine(cmd.start, ed.currentLine)
+	if err != nil {
+		return 0, 0, err
+	}
+	end = start
+	if cmd.end.typ != lNull {
+		end, err = ed.addrLine(cmd.end, ed.currentLine)
+		if err != nil {
+			return 0, 0, err
+		}
+	}
+
+	min := 1
+	switch cmd.typ {
+	case ctappend, ctinsert, ctchange, ctlineNumber:
+		min = 0
+	}
+	if start < min || end < start || end > len(ed.getLines()) {
+		return 0, 0, fmt.Errorf("invalid address")
+	}
+	return start, end, nil
 }
 
 func linesIn(s string) int {
@@ -293,6 +342,14 @@ func (ed *Itor) processCommand(cmd Command) string {
 		return "?" + cmd.text
 	}
 	cmd = setDefaultAddresses(cmd)
+	var start, end int
+	switch cmd.typ {
+	case ctnull, ctprint, ctnumber, ctdelete, ctappend, ctinsert, ctchange, ctlineNumber:
+		start, end, err = ed.addrRange(cmd)
+		if err != nil {
+			return "?" + err.Error()
+		}
+	}
 	switch cmd.typ {
 	case ctedit:
 		filename := ed.filename
@@ -305,14 +362,15 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctprint:
-		return ed.Print(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		ed.currentLine = end
+		return ed.Print(start, end)
 
 	case ctnumber:
-		return ed.number(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		ed.currentLine = end
+		return ed.number(start, end)
 	case ctnull:
-		lineNum := ed.addrLine(cmd.start)
-		ed.currentLine = lineNum
-		return ed.Print(lineNum, lineNum)
+		ed.currentLine = start
+		return ed.Print(start, start)
 
 	case ctwrite:
 		err = ed.Write()
@@ -321,30 +379,42 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctdelete:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		err := ed.Delete(start, end)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.currentLine = ed.addrLine(cmd.start)
+		ed.currentLine = start
+		if last := len(ed.getLines()); start > last {
+			ed.currentLine = last
+		}
 
 	case ctappend:
-		start := ed.addrLine(cmd.start) + 1
-		ed.insertBeforeLine(start, cmd.text)
+		ed.insertBeforeLine(start+1, cmd.text)
 		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctinsert:
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
+		if start == 0 {
+			start = 1
+		}
+		ed.insertBeforeLine(start, cmd.text)
+		ed.currentLine = start + linesIn(cmd.text) - 1
 
 	case ctchange:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		if start == 0 {
+			start = 1
+		}
+		if end < start {
+			end = start
+		}
+		err := ed.Delete(start, end)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
-		ed.currentLine = ed.addrLine(cmd.start) + linesIn(cmd.text)
+		ed.insertBeforeLine(start, cmd.text)
+		ed.currentLine = start + linesIn(cmd.text) - 1
 
 	case ctlineNumber:
-		return strconv.Itoa(ed.addrLine(cmd.start))
+		return strconv.Itoa(start)
 
 	default:
 		return "? (NYI)"
-- 
2.43.0


From fa9995a9f9437bfe01ae00fcf6fc8f99332ff47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:05 +0000
Subject: [PATCH 29/64] fix: ed: make the first address current for the second
 one in x;y

---
 pkg/ed/command.go |  3 +++
 pkg/ed/ed.go      |  6 +++++-
 pkg/ed/ed.peg     |  2 +-
 pkg/ed/ed.peg.go  | 18 ++++++++++++++++--
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/pkg/ed/command.go b/pkg/ed/command.go
index b09fb38..bc8e1f3 100644
--- a/pkg/ed/command.go
+++ b/pkg/ed/command.go
@@ -8,6 +8,9 @@ type Command struct {
 	dest   address
 	text   string
 	params []string
+
+	// relative is set when the start address is current for the end address (x;y)
+	relative bool
 }
 
 type cmdType byte
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 787feb7..2192ca2 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -308,7 +308,11 @@ func (ed *Itor) addrRange(cmd Command) (start, end int, err error) {
 	}
 	end = start
 	if cmd.end.typ != lNull {
-		end, err = ed.addrLine(cmd.end, ed.currentLine)
+		current := ed.currentLine
+		if cmd.relative {
+			current = start
+		}
+		end, err = ed.addrLine(cmd.end, current)
 		if err != nil {
 			return 0, 0, err
 		}
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 307d312..27f6b1d 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -73,7 +73,7 @@ rangeCmd <- range? sp* rangeC
 range <- startAddr ',' endAddr
        / startAddr ',' sp*     {p.curCmd.end = p.curCmd.start}
        / ',' endAddr sp*       {p.curCmd.start = aFirst}
-       / startAddr ';' endAddr
+       / startAddr ';' endAddr {p.curCmd.relative = true}
        / startAddr ';' sp*     {p.curCmd.end = p.curCmd.start}
        / ';' endAddr sp*       {p.curCmd.start = aCur}
        / startAddr sp*         {p.curCmd.end = p.curCmd.start}
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index 614d26c..04fb4af 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -104,6 +104,7 @@ const (
 	ruleAction44
 	ruleAction45
 	ruleAction46
+	ruleAction47
 )
 
 var rul3s = [...]string{
@@ -194,6 +195,7 @@ var rul3s = [...]string{
 	"Action44",
 	"Action45",
 	"Action46",
+	"Action47",
 }
 
 type token32 struct {
@@ -316,7 +318,7 @@ type Parser struct {
 
 	Buffer string
 	buffer []rune
-	rules  [87]func() bool
+	rules  [88]func() bool
 	parse  func(rule ...int) error
 	reset  func()
 	Pretty bool
@@ -528,6 +530,8 @@ func (p *Parser) Execute() {
 			p.curCmd.typ = ctmove
 		case ruleAction46:
 			p.curCmd.typ = ctcopy
+		case ruleAction47:
+			p.curCmd.relative = true
 
 		}
 	}
@@ -1141,7 +1145,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position72, tokenIndex72
 			return false
 		},
-		/* 14 range <- <((startAddr ',' endAddr) / (startAddr ',' Action9) / (',' endAddr Action10) / (startAddr ';' endAddr) / (startAddr ';' Action11) / (';' endAddr Action12) / (startAddr Action13) / (',' Action14) / (';' Action15))> */
+		/* 14 range <- <((startAddr ',' endAddr) / (startAddr ',' Action9) / (',' endAddr Action10) / (startAddr ';' endAddr Action47) / (startAddr ';' Action11) / (';' endAddr Action12) / (startAddr Action13) / (',' Action14) / (';' Action15))> */
 		func() bool {
 			position78, tokenIndex78 := position, tokenIndex
 			{
@@ -1197,6 +1201,9 @@ func (p *Parser) Init() {
 					if !_rules[ruleendAddr]() {
 						goto l84
 					}
+					if !_rules[ruleAction47]() {
+						goto l84
+					}
 					goto l80
 				l84:
 					position, tokenIndex = position80, tokenIndex80
@@ -2580,6 +2587,13 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
+		/* 87 Action47 <- <{p.curCmd.relative = true}> */
+		func() bool {
+			{
+				add(ruleAction47, position)
+			}
+			return true
+		},
 	}
 	p.rules = _rules
 }
-- 
2.43.0


From 18785b7346074782e849b992466f08cbf2746622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:06 +0000
Subject: [PATCH 30/64] fix: ed: accept a, i and c with no lines of text

---
 pkg/ed/ed.go     | 32 ++++++++++++++++++++++++--------
 pkg/ed/ed.peg    |  5 +++--
 pkg/ed/ed.peg.go |  8 ++++----
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 2192ca2..de9f411 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -124,13 +124,18 @@ func (ed *Itor) String() string {
 }
 
 func (ed *Itor) insertBeforeLine(lineNum int, text string) {
+	if text == "" {
+		return
+	}
+	// Each line of the text follows a newline
+	text = strings.TrimPrefix(text, "\n") + "\n"
 	at := ed.getLineAddr(lineNum)
 	if size := len(ed.pt.String()); at > size {
 		// The last line has no newline
 		text = "\n" + text
 		at = size
 	}
-	ed.pt.Insert([]byte(text+"\n"), at)
+	ed.pt.Insert([]byte(text), at)
 }
 
 // Delete will delete from the starting line to the end line
@@ -143,6 +148,14 @@ func (ed *Itor) Delete(start, end int) error {
 	return nil
 }
 
+// setCurrentLine makes a line current, or the last one if there is no such line
+func (ed *Itor) setCurrentLine(line int) {
+	ed.currentLine = line
+	if last := len(ed.getLines()); line > last {
+		ed.currentLine = last
+	}
+}
+
 // 1-indexed
 func (ed *Itor) getLineAddr(num int) int {
 	length := 0
@@ -330,7 +343,7 @@ func (ed *Itor) addrRange(cmd Command) (start, end int, err error) {
 }
 
 func linesIn(s string) int {
-	n := 1
+	n := 0
 	for _, r := range s {
 		if r == '\n' {
 			n++
@@ -387,10 +400,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.currentLine = start
-		if last := len(ed.getLines()); start > last {
-			ed.currentLine = last
-		}
+		ed.setCurrentLine(start)
 
 	case ctappend:
 		ed.insertBeforeLine(start+1, cmd.text)
@@ -401,7 +411,10 @@ func (ed *Itor) processCommand(cmd Command) string {
 			start = 1
 		}
 		ed.insertBeforeLine(start, cmd.text)
-		ed.currentLine = start + linesIn(cmd.text) - 1
+		ed.setCurrentLine(start + linesIn(cmd.text) - 1)
+		if cmd.text == "" {
+			ed.setCurrentLine(start)
+		}
 
 	case ctchange:
 		if start == 0 {
@@ -415,7 +428,10 @@ func (ed *Itor) processCommand(cmd Command) string {
 			return "?" + err.Error()
 		}
 		ed.insertBeforeLine(start, cmd.text)
-		ed.currentLine = start + linesIn(cmd.text) - 1
+		ed.setCurrentLine(start + linesIn(cmd.text) - 1)
+		if cmd.text == "" {
+			ed.setCurrentLine(start)
+		}
 
 	case ctlineNumber:
 		return strconv.Itoa(start)
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 27f6b1d..4595c71 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -33,8 +33,8 @@ cmd <- bareCmd
      / nullCmd
 
 
-changeTextCmd <- range? changeTextC newLine text
-addTextCmd <- startAddr? addTextC newLine text
+changeTextCmd <- range? changeTextC &newLine text
+addTextCmd <- startAddr? addTextC &newLine text
 
 markCmd <- startAddr? 'k' <[a-z]> {
   p.curCmd.typ = ctmark
@@ -64,6 +64,7 @@ shellCmd <- '!' <param> {
 # A null command works as a print
 nullCmd <- startAddr?
 
+# Each line of the text follows a newline
 text <- <(!textTerm .)*> textTerm {p.curCmd.text = text}
 
 textTerm <- '\n.' &'\n'
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index 04fb4af..b7d6673 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -766,7 +766,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position11, tokenIndex11
 			return false
 		},
-		/* 3 changeTextCmd <- <(range? changeTextC newLine text)> */
+		/* 3 changeTextCmd <- <(range? changeTextC &newLine text)> */
 		func() bool {
 			position25, tokenIndex25 := position, tokenIndex
 			{
@@ -784,7 +784,7 @@ func (p *Parser) Init() {
 				if !_rules[rulechangeTextC]() {
 					goto l25
 				}
-				if !_rules[rulenewLine]() {
+				if buffer[position] != rune('\n') {
 					goto l25
 				}
 				if !_rules[ruletext]() {
@@ -797,7 +797,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position25, tokenIndex25
 			return false
 		},
-		/* 4 addTextCmd <- <(startAddr? addTextC newLine text)> */
+		/* 4 addTextCmd <- <(startAddr? addTextC &newLine text)> */
 		func() bool {
 			position29, tokenIndex29 := position, tokenIndex
 			{
@@ -815,7 +815,7 @@ func (p *Parser) Init() {
 				if !_rules[ruleaddTextC]() {
 					goto l29
 				}
-				if !_rules[rulenewLine]() {
+				if buffer[position] != rune('\n') {
 					goto l29
 				}
 				if !_rules[ruletext]() {
-- 
2.43.0


From d00591bd80102fc71124d1d9bdad80850ebdb028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:07 +0000
Subject: [PATCH 31/64] fix: ed: read the text of a, i and c whatever address
 precedes them

---
 pkg/ed/ed.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index de9f411..95f35c5 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -15,8 +15,10 @@ import (
 	"github.com/fwip/posix-utils/pkg/txt"
 )
 
-// TODO: This is not comprehensive.
-var multlineCmdStart = regexp.MustCompile(`^\s*[0-9.$]*\s*,?\s*[0-9.$]*\s*[aic]\s*$`)
+// Matches the first line of a, i and c, with any addresses
+var multlineCmdStart = regexp.MustCompile(`^\s*` + addressRe + `\s*[,;]?\s*` + addressRe + `\s*[aic]\s*$`)
+
+const addressRe = `(?:[0-9.$]*|'[a-z]|/(?:[^/\\]|\\+[^\\])+/|\?(?:[^?\\]|\\+[^\\])+\?)(?:[-+][0-9]*)?`
 
 func debug(args ...interface{}) {
 	fmt.Fprintln(os.Stderr, args...)
-- 
2.43.0


From 92893a08ad5055c3d72640ee8aea04153a1b4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:40 +0000
Subject: [PATCH 32/64] fix: ed: write safely: keep the mode, the buffer, links
 and other files as they are

---
 pkg/ed/ed.go | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 95f35c5..2ad63f9 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"math"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strconv"
 	"strings"
@@ -49,34 +50,55 @@ func (ed *Itor) closeFile() error {
 }
 
 func (ed *Itor) Write() error {
-	data := ed.pt.String()
-	ed.closeFile()
+	return writeFile(ed.filename, ed.pt.String())
+}
 
-	var err error
+// writeFile replaces a file's content, or fails and leaves the file as it was
+func writeFile(filename, data string) error {
+	mode := os.FileMode(0666)
+	stat, err := os.Stat(filename)
+	if err == nil {
+		mode = stat.Mode()
+		if !mode.IsRegular() {
+			return fmt.Errorf("%s is not a regular file", filename)
+		}
+		// Write through symbolic links, and do not replace them
+		filename, err = filepath.EvalSymlinks(filename)
+		if err != nil {
+			return err
+		}
+	} else if !os.IsNotExist(err) {
+		debug("cannae stat", filename)
+		return err
+	}
 
-	tmpName := ed.filename + ".swp"
-	debug("f is", ed.filename, "tmp is", tmpName)
+	tmpName := filename + ".swp"
+	debug("f is", filename, "tmp is", tmpName)
 
-	stat, err := os.Stat(ed.filename)
+	// A file of that name that is already there is not ours to overwrite
+	tmp, err := os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
 	if err != nil {
-		debug("cannae stat", ed.filename)
 		return err
 	}
-	mode := stat.Mode()
-	//defer os.Remove(tmp.Name())
-
-	err = ioutil.WriteFile(tmpName, []byte(data), os.FileMode(mode))
+	_, err = tmp.WriteString(data)
+	if err == nil && stat != nil {
+		// The mode above is subject to the umask
+		err = tmp.Chmod(mode)
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		os.Remove(tmpName)
 		return err
 	}
-	err = os.Rename(tmpName, ed.filename)
+	err = os.Rename(tmpName, filename)
 	if err != nil {
 		os.Remove(tmpName)
 		return err
 	}
 
-	return ed.Edit(ed.filename, false)
+	return nil
 }
 
 // Edit opens a new file to edit!
-- 
2.43.0


From 08f179c2f3ed6491571d6822fdb6e18f647a9359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:41 +0000
Subject: [PATCH 33/64] fix: ed: let w write a range of lines, and to the file
 it names

---
 pkg/ed/ed.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 2ad63f9..51a3c17 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -55,6 +55,9 @@ func (ed *Itor) Write() error {
 
 // writeFile replaces a file's content, or fails and leaves the file as it was
 func writeFile(filename, data string) error {
+	if filename == "" {
+		return fmt.Errorf("no file name")
+	}
 	mode := os.FileMode(0666)
 	stat, err := os.Stat(filename)
 	if err == nil {
@@ -382,8 +385,15 @@ func (ed *Itor) processCommand(cmd Command) string {
 	if cmd.typ == ctinvalid {
 		return "?" + cmd.text
 	}
+	ranged := cmd.start.typ != lNull // addresses were given
 	cmd = setDefaultAddresses(cmd)
 	var start, end int
+	if cmd.typ == ctwrite && ranged {
+		start, end, err = ed.addrRange(cmd)
+		if err != nil {
+			return "?" + err.Error()
+		}
+	}
 	switch cmd.typ {
 	case ctnull, ctprint, ctnumber, ctdelete, ctappend, ctinsert, ctchange, ctlineNumber:
 		start, end, err = ed.addrRange(cmd)
@@ -414,10 +424,21 @@ func (ed *Itor) processCommand(cmd Command) string {
 		return ed.Print(start, start)
 
 	case ctwrite:
-		err = ed.Write()
+		filename := ed.filename
+		if cmd.text != "" {
+			filename = cmd.text
+		}
+		data := ed.pt.String()
+		if ranged {
+			data = ed.Print(start, end) + "\n"
+		}
+		err = writeFile(filename, data)
 		if err != nil {
 			return "?" + err.Error()
 		}
+		if ed.filename == "" {
+			ed.filename = filename
+		}
 
 	case ctdelete:
 		err := ed.Delete(start, end)
-- 
2.43.0


From 70e9e62d0d70c294c4cfe651316db6311c78bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:24 +0000
Subject: [PATCH 34/64] fix: locale: refuse an era whose offset is not an
 integer

---
 pkg/locale/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/time.go b/pkg/locale/time.go
index ffeb1c7..701e57e 100644
--- a/pkg/locale/time.go
+++ b/pkg/locale/time.go
@@ -65,7 +65,7 @@ func NewEra(input string) (Era, error) {
 	// Offset
 	offset, err := strconv.Atoi(parts[1])
 	if err != nil {
-		return Era{}, nil
+		return Era{}, err
 	}
 	era.offset = offset
 
-- 
2.43.0


From 70f50bb45621a9312244eabebafbd03d193a87f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:25 +0000
Subject: [PATCH 35/64] fix: locale: drop comment_char lines once they have
 taken effect

---
 pkg/locale/localelex.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 45bedc3..b5761fc 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -512,8 +512,7 @@ func removeComments(input string) string {
 			continue
 		}
 		// Check for escape/comment_char redefinition
-		checkSpecialWord(l, "comment_char", &commentChar)
-		if !checkSpecialWord(l, "escape_char", &escapeChar) {
+		if !checkSpecialWord(l, "comment_char", &commentChar) && !checkSpecialWord(l, "escape_char", &escapeChar) {
 
 			// Join newlines if they end with escape character
 			for len(l) > 0 {
-- 
2.43.0


From 24fe57964be96de93e878a0a2c90f0782cc96632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:26 +0000
Subject: [PATCH 36/64] fix: locale: use the chosen escape character in
 strings, and let it escape quotes

---
 pkg/locale/localelex.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index b5761fc..4d4abb4 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -286,7 +286,7 @@ func grabInt(l *lexer.L) bool {
 func grabEscapeInString(l *lexer.L) (ok bool) {
 	r := l.Next()
 	switch r {
-	case ',', ';', '<', '>', escapeChar:
+	case ',', ';', '<', '>', '"', escapeChar:
 		l.Emit(CHAR)
 	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 		// octal - slurp up two more characters
@@ -315,7 +315,6 @@ func grabEscapeInString(l *lexer.L) (ok bool) {
 }
 
 func grabString(l *lexer.L) (ok bool) {
-	escapeChar := '\\' // TODO
 	if l.Peek() != '"' {
 		return false
 	}
-- 
2.43.0


From 0024850a38274728ee16774332a43ec1307713f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:27 +0000
Subject: [PATCH 37/64] fix: locale: do not ignore what follows the last
 category

---
 pkg/locale/localelex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 4d4abb4..ef7a28b 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -155,6 +155,9 @@ func sCategory(l *lexer.L) lexer.StateFunc {
 		next = getsGenericCategory(header, typ, msgMap)
 	}
 	if next == nil {
+		if header != "" || l.Peek() != lexer.EOFRune {
+			l.Error("expected a category")
+		}
 		return nil
 	}
 	l.Emit(typ)
-- 
2.43.0


From 22ee143aba453a0b130e2eae55e9c673cd6ec7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:28 +0000
Subject: [PATCH 38/64] fix: locale: reject unknown LC_COLLATE words and
 unterminated messages instead of looping

---
 pkg/locale/localelex.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index ef7a28b..de9388e 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -371,7 +371,11 @@ func grabMsg(l *lexer.L) (ok bool) {
 		return false
 	}
 	l.Emit('"')
-	for l.Next() != '"' {
+	for r := l.Next(); r != '"'; r = l.Next() {
+		if r == '\n' || r == lexer.EOFRune {
+			l.Error("Got a newline before an end quote")
+			return false
+		}
 	}
 	l.Rewind()
 	l.Emit(EXTENDED_REG_EXP)
@@ -418,6 +422,8 @@ func sCollateCategory(l *lexer.L) lexer.StateFunc {
 		must(grabString, l)
 		grabWhitespace(l)
 		must(grabNewline, l)
+	default:
+		l.Error(fmt.Sprintf("unexpected keyword '%s'", word))
 	}
 
 	return sCollateCategory
@@ -436,6 +442,8 @@ func sCollateOrderStart(l *lexer.L) lexer.StateFunc {
 		l.Emit(BACKWARD_STR)
 	case "position":
 		l.Emit(POSITION_STR)
+	default:
+		l.Error(fmt.Sprintf("unexpected sort rule '%s'", l.Current()))
 	}
 	return sCollateOrderStart
 }
-- 
2.43.0


From 719cde0fb4a13c0b958e6ef0a1f694786cc19eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:29 +0000
Subject: [PATCH 39/64] fix: locale: reject integers with a trailing minus sign

---
 pkg/locale/localelex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index de9388e..9e766a7 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -278,7 +278,7 @@ func grabInt(l *lexer.L) bool {
 	if n == "" {
 		return false
 	}
-	if n == "-" || (len(n) > 2 && strings.ContainsRune(n[1:], '-')) {
+	if n == "-" || strings.ContainsRune(n[1:], '-') {
 		l.Error(fmt.Sprintf("expected integer, got %s", n))
 	}
 	l.Emit(NUMBER)
-- 
2.43.0


From 8dca8f80394e6aff168727850c3d6a830d8f1d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:30 +0000
Subject: [PATCH 40/64] fix: locale: accept a list for the LC_NUMERIC grouping

---
 pkg/locale/localelex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 9e766a7..6554d38 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -65,7 +65,7 @@ var timeMap = map[string]decode{
 var numericMap = map[string]decode{
 	"decimal_point": {DECIMAL_POINT_STR, grabString},
 	"thousands_sep": {THOUSANDS_SEP_STR, grabString},
-	"grouping":      {GROUPING_STR, grabInt},
+	"grouping":      {GROUPING_STR, grabIntList},
 }
 
 // Monetary mappings
-- 
2.43.0


From a74978dab0f1d5afcf61538d499dcd33f9d24551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:31 +0000
Subject: [PATCH 41/64] fix: locale: record int_frac_digits

---
 pkg/locale/localedef.y | 10 +++++-----
 pkg/locale/y.go        | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/locale/localedef.y b/pkg/locale/localedef.y
index f707a33..6a7b855 100644
--- a/pkg/locale/localedef.y
+++ b/pkg/locale/localedef.y
@@ -15,13 +15,13 @@ func assignMonetaryString (tok yySymType, value string) {
   }
 }
 
-func assignMonetaryNumber (tok int, value string) {
+func assignMonetaryNumber (tok yySymType, value string) {
   n, err := strconv.Atoi(value)
   if err != nil {
     panic("Can't convert " + value + " to integer")
   }
-  switch tok {
-  case INT_FRAC_DIGITS_STR:
+  switch tok.val {
+  case "int_frac_digits":
     def.monetary.intFracDigits = n
   default:
     //panic("NYI" + value)
@@ -413,8 +413,8 @@ monetary_keywords   : monetary_keywords monetary_keyword
 
 
 monetary_keyword    : mon_keyword_string mon_string EOL       {assignMonetaryString($1, $2.val)}
-                    | mon_keyword_char NUMBER EOL             {assignMonetaryNumber($1.yys, $2.val)}
-                    | mon_keyword_char NEGATIVE_ONE_STR   EOL {assignMonetaryNumber($1.yys, "-1")}
+                    | mon_keyword_char NUMBER EOL             {assignMonetaryNumber($1, $2.val)}
+                    | mon_keyword_char NEGATIVE_ONE_STR   EOL {assignMonetaryNumber($1, "-1")}
                     | mon_keyword_grouping mon_group_list EOL {assignMonetaryGrouping($1.yys, $2.val)}
                     ;
 
diff --git a/pkg/locale/y.go b/pkg/locale/y.go
index beb6849..feafb69 100644
--- a/pkg/locale/y.go
+++ b/pkg/locale/y.go
@@ -25,13 +25,13 @@ func assignMonetaryString(tok yySymType, value string) {
 	}
 }
 
-func assignMonetaryNumber(tok int, value string) {
+func assignMonetaryNumber(tok yySymType, value string) {
 	n, err := strconv.Atoi(value)
 	if err != nil {
 		panic("Can't convert " + value + " to integer")
 	}
-	switch tok {
-	case INT_FRAC_DIGITS_STR:
+	switch tok.val {
+	case "int_frac_digits":
 		def.monetary.intFracDigits = n
 	default:
 		//panic("NYI" + value)
@@ -856,13 +856,13 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line localedef.y:419
 		{
-			assignMonetaryNumber(yyDollar[1].yys, yyDollar[2].val)
+			assignMonetaryNumber(yyDollar[1], yyDollar[2].val)
 		}
 	case 122:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line localedef.y:420
 		{
-			assignMonetaryNumber(yyDollar[1].yys, "-1")
+			assignMonetaryNumber(yyDollar[1], "-1")
 		}
 	case 123:
 		yyDollar = yyS[yypt-3 : yypt+1]
-- 
2.43.0


From 3abee927877f8462fa2aa4b97214be4d17fd064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:32 +0000
Subject: [PATCH 42/64] fix: locale: record an empty int_curr_symbol as empty

---
 pkg/locale/localedef.y | 2 +-
 pkg/locale/y.go        | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/locale/localedef.y b/pkg/locale/localedef.y
index 6a7b855..32c24f5 100644
--- a/pkg/locale/localedef.y
+++ b/pkg/locale/localedef.y
@@ -426,7 +426,7 @@ mon_keyword_string  : INT_CURR_SYMBOL_STR | CURRENCY_SYMBOL_STR
 
 
 mon_string          : '"' char_list '"' { $$ = $2 }
-                    | TWO_DOUBLE_QUOTE_STR
+                    | TWO_DOUBLE_QUOTE_STR  { $$.val = "" }
                     ;
 
 
diff --git a/pkg/locale/y.go b/pkg/locale/y.go
index feafb69..6defed4 100644
--- a/pkg/locale/y.go
+++ b/pkg/locale/y.go
@@ -876,6 +876,12 @@ yydefault:
 		{
 			yyVAL = yyDollar[2]
 		}
+	case 131:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line localedef.y:432
+		{
+			yyVAL.val = ""
+		}
 	case 148:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line localedef.y:451
-- 
2.43.0


From dcdfda17b5037847a10f59bd86d4eb5c1ed15578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:00 +0000
Subject: [PATCH 43/64] fix: tsort: accept words longer than 64 KiB

---
 cmd/tsort/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index a131ccb..2f3e6bb 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"github.com/fwip/posix-utils/pkg/tsort"
@@ -17,6 +18,7 @@ func die(msg string, args ...interface{}) {
 func run(input io.Reader, output io.Writer) {
 	var sorter tsort.Sorter
 	scanner := bufio.NewScanner(input)
+	scanner.Buffer(nil, math.MaxInt32)
 	scanner.Split(bufio.ScanWords)
 
 	for scanner.Scan() {
-- 
2.43.0


From 79a5a91cc8f6f7857b6f4749f79f01596416a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:01 +0000
Subject: [PATCH 44/64] fix: cksum: exit with a nonzero status when the output
 cannot be written

---
 cmd/cksum/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/cksum/main.go b/cmd/cksum/main.go
index d30c3f8..aa34979 100644
--- a/cmd/cksum/main.go
+++ b/cmd/cksum/main.go
@@ -26,7 +26,10 @@ func run(filename, label string) {
 		die("couldn't read input %s", err)
 	}
 
-	fmt.Printf("%d %d%s\n", memcrc(bytes), len(bytes), label)
+	_, err = fmt.Printf("%d %d%s\n", memcrc(bytes), len(bytes), label)
+	if err != nil {
+		die("couldn't write output %s", err)
+	}
 }
 
 func main() {
-- 
2.43.0


From a4399102c29f021b8af5655c829c59ecbded4cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:02 +0000
Subject: [PATCH 45/64] fix: cmp: exit with status 2 when the output cannot be
 written

---
 cmd/cmp/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index 9f67329..9d8eca5 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -67,9 +67,12 @@ func cmp(s settings) error {
 			if b1 != b2 {
 				if !s.silent {
 					if s.writeAll {
-						fmt.Printf("%d %o %o\n", i, b1, b2)
+						_, err = fmt.Printf("%d %o %o\n", i, b1, b2)
 					} else {
-						fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
+						_, err = fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
+					}
+					if err != nil {
+						return err
 					}
 				}
 				if !s.writeAll {
-- 
2.43.0


From 58e5242e1065b266feae15426baa1cc4cdae13d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:03 +0000
Subject: [PATCH 46/64] fix: diff: exit with status 2 when the output cannot be
 written

---
 cmd/diff/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index e8dbb41..e34b219 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -118,7 +118,10 @@ func main() {
 	changes := diff.Diff(l1, l2)
 
 	if out := diff.Format(changes); out != "" {
-		fmt.Println(out)
+		if _, err := fmt.Println(out); err != nil {
+			fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+			os.Exit(2)
+		}
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From b6b672f1f663447f0a2757f9279496d9b18438bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:04 +0000
Subject: [PATCH 47/64] fix: head: exit with a nonzero status when the output
 cannot be written

---
 cmd/head/main.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 1f1b8a5..f2f2614 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -39,14 +39,21 @@ func parseSettings(args []string) (settings, error) {
 	return s, nil
 }
 
+func output(s string) {
+	_, err := fmt.Print(s)
+	if err != nil {
+		panic(err)
+	}
+}
+
 func process(s settings) {
 
 	for i, filename := range s.filenames {
 		if len(s.filenames) > 1 {
 			if i > 0 {
-				fmt.Print("\n")
+				output("\n")
 			}
-			fmt.Printf("==> %s <==\n", filename)
+			output(fmt.Sprintf("==> %s <==\n", filename))
 		}
 		var f io.ReadCloser
 		var err error
@@ -62,7 +69,7 @@ func process(s settings) {
 		r := bufio.NewReader(f)
 		for j := 0; j < s.numLines; j++ {
 			line, err := r.ReadString('\n')
-			fmt.Print(line)
+			output(line)
 			if err == io.EOF {
 				break
 			}
-- 
2.43.0


From 002af98d3cca4640c8ce9a21cad3a9e695011d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:05 +0000
Subject: [PATCH 48/64] fix: tsort: exit with a nonzero status when the output
 cannot be written

---
 cmd/tsort/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index 2f3e6bb..0970130 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -43,7 +43,9 @@ func run(input io.Reader, output io.Writer) {
 		die("sort error! %s", err)
 	}
 	for _, item := range out {
-		fmt.Fprintln(output, item)
+		if _, err := fmt.Fprintln(output, item); err != nil {
+			die("write error! %s", err)
+		}
 	}
 
 	if closer, ok := output.(io.Closer); ok {
-- 
2.43.0


From 23ec5b524ea0bbca1c226e4a8d04761f8d31a3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:06 +0000
Subject: [PATCH 49/64] fix: locale: exit with a nonzero status when the output
 cannot be written

---
 cmd/locale/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 95c63dd..2cc6717 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -1,8 +1,12 @@
 package main
 
 import "fmt"
+import "os"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
-	fmt.Print(locale.FromEnv().String())
+	if _, err := fmt.Print(locale.FromEnv().String()); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 247115c429d2242c9310b1886be80d0f54829c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:07 +0000
Subject: [PATCH 50/64] verif: hook to parse a locale definition and read what
 was recorded

---
 pkg/locale/verif_hook.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)
 create mode 100644 pkg/locale/verif_hook.go

diff --git a/pkg/locale/verif_hook.go b/pkg/locale/verif_hook.go
new file mode 100644
index 0000000..ef7ded6
--- /dev/null
+++ b/pkg/locale/verif_hook.go
@@ -0,0 +1,26 @@
+//go:build verif
+// +build verif
+
+package locale
+
+// VerifResult is what parsing a locale definition recorded.
+type VerifResult struct {
+	Status        int
+	IntCurrSymbol string
+	IntFracDigits int
+	MonGrouping   []int
+}
+
+// VerifParse parses a locale definition, from a clean state, for verification.
+// A rejected definition gives a nonzero status or a panic, here or in the
+// lexer's goroutine.
+func VerifParse(source string) VerifResult {
+	def = Def{}
+	status := yyParse(NewLexer(source))
+	return VerifResult{
+		Status:        status,
+		IntCurrSymbol: def.monetary.intCurrSymbol,
+		IntFracDigits: def.monetary.intFracDigits,
+		MonGrouping:   def.monetary.monGrouping,
+	}
+}
-- 
2.43.0


From c913d87ec1252dd8b57842275076c0feb27b9636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:40 +0000
Subject: [PATCH 51/64] fix: ed: answer ? to x;y when line x does not exist,
 rather than panic

---
 pkg/ed/ed.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 51a3c17..86029cd 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -350,6 +350,9 @@ func (ed *Itor) addrRange(cmd Command) (start, end int, err error) {
 	if cmd.end.typ != lNull {
 		current := ed.currentLine
 		if cmd.relative {
+			if start < 0 || start > len(ed.getLines()) {
+				return 0, 0, fmt.Errorf("invalid address")
+			}
 			current = start
 		}
 		end, err = ed.addrLine(cmd.end, current)
-- 
2.43.0


From 8b1fa3122249d4c98ed1fd3634ca0062c29440a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:03 +0000
Subject: [PATCH 52/64] fix: kill: reject signal numbers and process IDs that
 do not fit, rather than wrap them

---
 cmd/kill/main.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index e5e5e37..9431f9c 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -26,6 +26,13 @@ func errorMsg(format string, args ...interface{}) {
 	os.Exit(2)
 }
 
+// parseInt reads a number that fits the system's type for signals and process
+// IDs, so that no other one is meant than the one that was given
+func parseInt(s string) (int, error) {
+	n, err := strconv.ParseInt(s, 10, 32)
+	return int(n), err
+}
+
 func main() {
 
 	listSignals := false
@@ -47,12 +54,12 @@ func main() {
 			}
 		default:
 			if a[0] == '-' {
-				signal, err = strconv.Atoi(a[1:])
+				signal, err = parseInt(a[1:])
 				if err != nil {
 					errorMsg("%s isn't a number, bro...", a)
 				}
 			} else {
-				pid, err := strconv.Atoi(a)
+				pid, err := parseInt(a)
 				if err != nil {
 					errorMsg("expected a PID here..., got %s", a)
 				}
-- 
2.43.0


From 5888696d5f4e8d9d2e7ef2b229f3100cc01f66fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:31 +0000
Subject: [PATCH 53/64] Revert "fix: test: follow the POSIX rules for two,
 three and four arguments"

This reverts commit b00ba1d4c7d2eff29ef515e398e6a941f9c8f393.
---
 cmd/test/main.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmd/test/main.go b/cmd/test/main.go
index 3ce602d..e3aea10 100644
--- a/cmd/test/main.go
+++ b/cmd/test/main.go
@@ -26,23 +26,25 @@ func parse(args []string) (bool, error) {
 		return args[0] != "", nil
 	}
 
-	// POSIX: with three arguments, a binary operator in the middle comes first
-	if len(args) == 3 {
-		if f, ok := infixMap[args[1]]; ok {
-			return f(args[0], args[2])
-		}
-	}
-
 	arg := args[0]
 	if arg == "!" {
 		ok, err := parse(args[1:])
 		return !ok, err
 	}
-	if len(args) == 2 && len(arg) == 2 && arg[0] == '-' {
+	if arg == "" {
+		return false, nil
+	}
+	if len(arg) == 2 && arg[0] == '-' {
 		if f, ok := flagMap[arg[1]]; ok {
 			return f(args[1])
 		}
 	}
 
+	if len(args) == 3 {
+		if f, ok := infixMap[args[1]]; ok {
+			return f(args[0], args[2])
+		}
+	}
+
 	return false, fmt.Errorf("idk what to do about this")
 }
-- 
2.43.0


From eac37637e3fbc7b35e95f824f0bd4734bd3ed416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:42 +0000
Subject: [PATCH 54/64] fix: head: close each file when done with it

---
 cmd/head/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index f2f2614..0db9cef 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -77,6 +77,9 @@ func process(s settings) {
 				panic(err)
 			}
 		}
+		if f != os.Stdin {
+			f.Close()
+		}
 	}
 
 }
-- 
2.43.0


From 3441806558490adef4371bdaaff5139a907b4f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:13 +0000
Subject: [PATCH 55/64] fix: tsort: let the order be asked for again and after
 further additions

---
 pkg/tsort/tsort.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/tsort/tsort.go b/pkg/tsort/tsort.go
index fe11884..1ec6657 100644
--- a/pkg/tsort/tsort.go
+++ b/pkg/tsort/tsort.go
@@ -55,6 +55,14 @@ func (s *Sorter) heads() []string {
 	return out
 }
 
+func (s *Sorter) copy() *Sorter {
+	orderings := make(map[string][]string, len(s.orderings))
+	for item, successors := range s.orderings {
+		orderings[item] = successors
+	}
+	return &Sorter{orderings: orderings}
+}
+
 func (s *Sorter) isBlocked(n string) bool {
 	for _, items := range s.orderings {
 		for _, i := range items {
@@ -67,6 +75,8 @@ func (s *Sorter) isBlocked(n string) bool {
 }
 
 func (s *Sorter) Order() ([]string, error) {
+	// Use up a copy, so that the sorter can be asked again and added to
+	s = s.copy()
 	var out []string
 	var candidates = s.heads()
 	for len(candidates) > 0 {
-- 
2.43.0


From 63829962a0abd15ca4dbd41adab43c64798f99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:33 +0000
Subject: [PATCH 56/64] fix: locale: take octal constants of two digits

---
 pkg/locale/localelex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 6554d38..ea7100f 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -292,9 +292,11 @@ func grabEscapeInString(l *lexer.L) (ok bool) {
 	case ',', ';', '<', '>', '"', escapeChar:
 		l.Emit(CHAR)
 	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
-		// octal - slurp up two more characters
-		l.Next()
+		// octal - slurp up 1 or 2 more characters
 		l.Next()
+		if !strings.ContainsRune("01234567", l.Next()) {
+			l.Rewind()
+		}
 		l.Emit(OCTAL_CHAR)
 	case 'd':
 		// decimal - slurp up 2 or 3 characters
-- 
2.43.0


From 7836f1646a09bd33754c7208c48c4e9fd1817aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:41 +0000
Subject: [PATCH 57/64] fix: diff: refuse a context size that is not a number

---
 cmd/diff/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index e34b219..25487b5 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -41,6 +41,9 @@ func parseSettings(args []string) (settings, error) {
 			}
 			s.provideContext = true
 			s.contextSize, err = strconv.Atoi(args[i+1])
+			if err != nil {
+				return s, err
+			}
 			i++
 		case "-e":
 			s.edFormat = true
-- 
2.43.0


From 54118cc269a553f3689ecf358a6ba2ead97247cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:51 +0000
Subject: [PATCH 58/64] fix: cmp, diff: count an empty operand

---
 cmd/cmp/main.go  | 6 ++++--
 cmd/diff/main.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index 9d8eca5..d1f5a4a 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -16,6 +16,7 @@ type settings struct {
 
 func parseSettings(args []string) (settings, error) {
 	s := settings{}
+	operands := 0
 	for i := 0; i < len(args); i++ {
 		a := args[i]
 		switch a {
@@ -24,9 +25,10 @@ func parseSettings(args []string) (settings, error) {
 		case "-s":
 			s.silent = true
 		default:
-			if s.file1 == "" {
+			operands++
+			if operands == 1 {
 				s.file1 = a
-			} else if s.file2 == "" {
+			} else if operands == 2 {
 				s.file2 = a
 			} else {
 				return s, fmt.Errorf("too many files: %s", a)
diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index 25487b5..570e692 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -26,6 +26,7 @@ type settings struct {
 func parseSettings(args []string) (settings, error) {
 	s := settings{contextSize: 3}
 	var err error
+	operands := 0
 
 	for i := 0; i < len(args); i++ {
 		a := args[i]
@@ -64,9 +65,10 @@ func parseSettings(args []string) (settings, error) {
 			}
 			i++
 		default:
-			if s.file1 == "" {
+			operands++
+			if operands == 1 {
 				s.file1 = a
-			} else if s.file2 == "" {
+			} else if operands == 2 {
 				s.file2 = a
 			} else {
 				return s, fmt.Errorf("aww jeez you can only compare two files, %s is the third", a)
-- 
2.43.0


From fa64919c74f8fa66bab46f920de12da5b100f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:36 +0000
Subject: [PATCH 59/64] fix: flag: an option character that is not valid UTF-8
 is one byte long

---
 pkg/flag/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/flag/parse.go b/pkg/flag/parse.go
index acf252c..e616758 100644
--- a/pkg/flag/parse.go
+++ b/pkg/flag/parse.go
@@ -50,7 +50,8 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 			}
 
 			// Argument may be either bundled or separate
-			value := arg[1+j+utf8.RuneLen(c):]
+			_, width := utf8.DecodeRuneInString(arg[1+j:])
+			value := arg[1+j+width:]
 			if len(value) == 0 {
 				i++
 				if i >= len(p.Input) {
-- 
2.43.0


From 017edf087103e96af26a5aa62f9f7fd4df0b5522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:36 +0000
Subject: [PATCH 60/64] fix: txt: accept a reader that reports the end with the
 last bytes

---
 pkg/txt/piece_table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index 637bed9..cb2b50e 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -62,10 +62,11 @@ func (p piece) Read(bytes []byte) (int, error) {
 	n := 0
 	for n < p.length {
 		i, err := p.reader.ReadAt(bytes[n:p.length], p.offset+int64(n))
-		if err != nil {
+		n += i
+		// A reader may report the end together with the last bytes
+		if err != nil && !(err == io.EOF && n == p.length) {
 			return 0, err
 		}
-		n += i
 	}
 	if n != p.length {
 		return 0, fmt.Errorf("Meant to read %d bytes, read %d instead", p.length, n)
-- 
2.43.0


From 455b15c06b529896918ceebbcc75197440141042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:52 +0000
Subject: [PATCH 61/64] fix: head: report -n without a number

---
 cmd/head/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 0db9cef..4e63d0d 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -22,6 +22,9 @@ func parseSettings(args []string) (settings, error) {
 	for i := 0; i < len(args); i++ {
 		if args[i] == "-n" {
 			i++
+			if i >= len(args) {
+				return s, fmt.Errorf("-n needs a number")
+			}
 			n, err := strconv.Atoi(args[i])
 			if err != nil {
 				return s, err
-- 
2.43.0


From 0976d9c05087ce1673fee4193e0045782c07c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:30 +0000
Subject: [PATCH 62/64] fix: locale: report a string that the end of the source
 cuts off

---
 pkg/locale/localelex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index ea7100f..dfd0fc9 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -344,7 +344,7 @@ func grabString(l *lexer.L) (ok bool) {
 			l.Emit('"')
 			return true
 		}
-		if r == '\n' {
+		if r == '\n' || r == lexer.EOFRune {
 			l.Error(fmt.Sprintf("Aww jeez. Got a newline before an end quote"))
 			return false
 		}
-- 
2.43.0


From 5cc171757fbc6fd3d29b0b4bd1da5eef0ad0ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:26 +0000
Subject: [PATCH 63/64] fix: ed: take the operand as a file name, whatever its
 characters

---
 cmd/ed/main.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/ed/main.go b/cmd/ed/main.go
index 3bbe05c..6295749 100644
--- a/cmd/ed/main.go
+++ b/cmd/ed/main.go
@@ -3,7 +3,6 @@ package main
 import (
 	"io"
 	"os"
-	"strings"
 
 	"github.com/fwip/posix-utils/pkg/ed"
 )
@@ -12,8 +11,11 @@ func process(in io.Reader, out io.Writer, edit *string) {
 	e := &ed.Itor{}
 	if edit != nil {
 		// If an argument is supplid on the command-line, open it in the editor
-		editCmd := strings.NewReader("e " + *edit + "\n")
-		in = io.MultiReader(editCmd, in)
+		answer := ""
+		if err := e.Edit(*edit, false); err != nil {
+			answer = "?" + err.Error()
+		}
+		io.WriteString(out, answer+"\n")
 	}
 	e.ProcessCommands(in, out)
 	if w, ok := out.(io.WriteCloser); ok {
-- 
2.43.0


From 80e8e0b2707dd0521e83bbdb12cb031eed628f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:17 +0000
Subject: [PATCH 64/64] fix: kill: refuse -s without a name and an empty
 operand, rather than crash

---
 cmd/kill/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index 9431f9c..f84723d 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -47,13 +47,16 @@ func main() {
 			listSignals = true
 		case "-s":
 			i++
+			if i == len(os.Args) {
+				errorMsg("-s needs a signal name\n")
+			}
 			signalName := strings.ToUpper(os.Args[i])
 			signal, ok = signalMap[signalName]
 			if !ok {
 				errorMsg("%s is not a valid signal name - check kill -l for help\n", a)
 			}
 		default:
-			if a[0] == '-' {
+			if strings.HasPrefix(a, "-") {
 				signal, err = parseInt(a[1:])
 				if err != nil {
 					errorMsg("%s isn't a number, bro...", a)
-- 
2.43.0


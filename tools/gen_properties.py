#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script only so the JSON stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOT = "cmd/%s has no test at all; "

prop("C01", "cat reproduces its inputs byte for byte, in order",
 "For every operand list, cat writes to standard output exactly the bytes of the operands in the order given and nothing else, reading standard input for \"-\" and when no file is named; -u changes nothing. "
 "If an operand cannot be opened or read, the bytes of all operands before it have been written, nothing after it is, a diagnostic goes to standard error and the exit status is nonzero; otherwise the exit status is 0.",
 ["inputs", "configurations"], "all operand lists, file contents and sizes, kinds of input (regular file, symlink, FIFO, pipe, terminal-less stdin) and of output (pipe, file)",
 NOT % "cat" + "contents, sizes and operand lists are unbounded.",
 ["cmd/cat/main.go"], [("operand loop and io.Copy", "cmd/cat/main.go:main, writeFile, write")], ["stdout bytes", "stderr", "exit status"])

prop("C02", "cksum prints the POSIX CRC and the exact length of every input",
 "For every file content, cksum writes one line \"<crc> <octets> <name>\" per operand, in operand order, where <crc> is the POSIX cksum CRC of the content followed by its length and <octets> is its exact byte count. "
 "Without operands it reads standard input and writes \"<crc> <octets>\" with no name; \"-\" reads standard input and is shown as the name \"-\".",
 ["inputs"], "all byte strings (including all-zero, empty, longer than 2^16 and 2^24 bytes) and operand lists",
 NOT % "cksum" + "a wrong table entry or length byte shows only on particular contents and lengths.",
 ["cmd/cksum/cksum.go", "cmd/cksum/main.go"], [("table-driven CRC plus length", "cmd/cksum/cksum.go:memcrc"), ("per-operand loop", "cmd/cksum/main.go:run")], ["stdout line", "exit status"])

prop("C03", "cmp reports the first difference, all differences and the verdict exactly",
 "For all pairs of inputs cmp exits 0 iff their bytes are identical, 1 iff they differ (one being a proper prefix of the other counts, and is reported as EOF on the shorter one on standard error), and greater than 1 on usage, open or read errors; \"-\" names standard input. "
 "By default it writes \"<file1> <file2> differ: char <n>, line <m>\" for the first differing byte (1-based byte and line number); with -l it writes \"<n> <octal1> <octal2>\" for every differing byte of the common length and nothing else on standard output; with -s it writes nothing at all for differing or identical files.",
 ["inputs", "configurations"], "all pairs of byte strings, option combinations and stdin placements",
 NOT % "cmp" + "position, line count and status must hold at every offset and for every pair.",
 ["cmd/cmp/main.go"], [("byte-wise lockstep comparison", "cmd/cmp/main.go:cmp"), ("option parsing", "cmd/cmp/main.go:parseSettings")], ["stdout", "stderr", "exit status"])

prop("C04", "diff output is an edit script that turns the first file into the second",
 "For all pairs of files taken as sequences of lines (every byte of a line counts; whether the last line ends in a newline does not), the diff library and command produce a normal-format script whose line ranges and quoted lines agree with both files, and which turns the first file into the second when applied forwards and the second into the first when applied backwards. "
 "The script is empty, and the command writes nothing and exits 0, iff the two line sequences are equal; otherwise the command exits 1, and a trouble such as an unreadable file gives an exit status above 1. "
 "At least as many lines are left unchanged as the longest run of consecutive lines common to both files, and the inputs are not modified.",
 ["inputs"], "all pairs of line sequences, of any length, with any line content",
 "pkg/diff and cmd/diff have no tests (only a go-fuzz target that is never run, and that ignores the printed format).",
 ["pkg/diff/diff.go", "pkg/diff/output.go", "cmd/diff/main.go"],
 [("longest-common-run recursion", "pkg/diff/diff.go:Diff"), ("normal output format", "pkg/diff/output.go:basicOutput"), ("reading and status", "cmd/diff/main.go:main")],
 ["Format(Diff(a, b))", "stdout of diff", "exit status"])

prop("C05", "head writes exactly the first n lines of every input",
 "For every input, head writes exactly the bytes of its first n lines (n from -n, 10 by default; everything if there are fewer lines), whatever the lines contain and however long they are, reading standard input for \"-\" and when no file is named. "
 "With several files each part is preceded by \"==> name <==\" on its own line, with an empty line before every header but the first; the exit status is 0 iff every input could be read.",
 ["inputs", "configurations"], "all contents (long lines, CR, NUL, no final newline), n, and operand lists",
 NOT % "head" + "line length, count and content are unbounded.",
 ["cmd/head/main.go"], [("line copy loop", "cmd/head/main.go:process"), ("options", "cmd/head/main.go:parseSettings")], ["stdout bytes", "exit status"])

prop("C06", "kill sends exactly the requested signal to exactly the named processes",
 "kill delivers exactly one signal to every process named by a process-ID operand, and none to any other process: the one requested with -s NAME (one of 0, HUP, INT, QUIT, ABRT, KILL, ALRM, TERM, in any case) or -NUMBER, SIGTERM by default; signal 0 only tests that the process exists. "
 "If the signal or any operand is invalid (a missing name after -s, an empty operand and no operand included) no process is signalled, a diagnostic is written and the exit status is nonzero; kill meets no fault of the Go runtime, whatever its arguments; the exit status is 0 iff every named process was signalled.",
 ["inputs", "configurations"], "all signal spellings and numbers, sets of target processes and malformed argument lists",
 NOT % "kill" + "the effect is on other processes and depends on the signal, the operand list and their order.",
 ["cmd/kill/main.go"], [("signal table and parsing", "cmd/kill/main.go:signalMap, main"), ("delivery", "cmd/kill/main.go:main")], ["signals logged by target and bystander processes", "exit status"])

prop("C07", "test evaluates its expression correctly and says so in the exit status",
 "For every expression of up to four arguments built from string tests (one argument, -n, -z, =, !=), integer comparisons (-eq -ne -gt -ge -lt -le), file tests (-c -d -e -f -g -h -L -p -S -s -u) and !, test exits 0 iff the expression is true under the POSIX rules for that number of arguments, 1 iff it is false, and 2 if it is malformed or compares non-integers; with no arguments it exits 1. "
 "The operands are arbitrary strings, including empty ones and ones that look like operators.",
 ["inputs", "configurations"], "all operand strings, integers in range, and states of the file system",
 NOT % "test" + "truth depends on arbitrary strings, integers and file states and on argument-count disambiguation.",
 ["cmd/test/main.go", "cmd/test/tests.go"], [("argument-count rules", "cmd/test/main.go:parse"), ("primaries", "cmd/test/tests.go:flagMap, infixMap")], ["exit status"])

prop("C08", "tsort outputs every item once, in an order that respects every pair",
 "For every set of ordering constraints without a cycle, in whatever order and however often they are given, the topological sort (library and command) returns every item that was mentioned exactly once, and for every constraint the earlier item precedes the later one; an item given alone (or, to the command, paired with itself) is included without adding or removing a constraint. The library can be asked for the order again, and after further additions. "
 "If and only if the constraints contain a cycle (or the command gets an odd number of words) no ordering is output and an error is reported, with a nonzero exit status of the command.",
 ["inputs", "histories"], "all constraint multisets, orders of addition and map iteration orders",
 "The tests try three small acyclic graphs; singletons after pairs, cycles, duplicates and larger graphs are never combined, and iteration order is random.",
 ["pkg/tsort/tsort.go", "cmd/tsort/main.go"], [("constraint recording", "pkg/tsort/tsort.go:Sorter.Add"), ("Kahn-style emission", "pkg/tsort/tsort.go:Sorter.Order"), ("word pairing", "cmd/tsort/main.go:run")], ["Order() result", "stdout", "exit status"],
 state=[("orderings", "successors recorded per item", "pkg/tsort/tsort.go:Sorter")])

prop("C09", "locale reports the effective value of every category verbatim",
 "For every environment, locale writes LANG=\"value\" first, then LC_COLLATE, LC_CTYPE, LC_MESSAGES, LC_MONETARY, LC_NUMERIC and LC_TIME in that order, then LC_ALL=value. "
 "The value of a category is LC_ALL in double quotes if LC_ALL is non-empty, else its own variable unquoted if that is non-empty, else LANG in double quotes; values are reproduced verbatim, whatever characters they contain.",
 ["configurations"], "all environments: which of the eight variables are set or empty, and all values",
 "cmd/locale and the environment half of pkg/locale have no tests; precedence is over 3^8 set/empty/unset combinations and arbitrary values.",
 ["pkg/locale/locale.go", "cmd/locale/main.go"], [("precedence", "pkg/locale/locale.go:Locale.getVal"), ("environment", "pkg/locale/locale.go:FromEnv"), ("output", "pkg/locale/locale.go:Locale.String, cmd/locale/main.go")], ["stdout"])

prop("C10", "ed keeps the buffer equal to the lines the commands ask for",
 "After every sequence of append, insert, change, delete and edit-file commands with valid addresses, ed's buffer is exactly the list of lines obtained by applying the commands in order to the lines of the file: text lines go in verbatim and whole at the addressed place, exactly the addressed lines go away, and no other line changes. "
 "This holds for every line content that is valid text, including empty lines, carriage returns, non-ASCII characters, lines that start with a period and very long lines, for empty files, and whether or not the file ends in a newline.",
 ["histories", "inputs"], "all files, command sequences and line contents",
 "The end-to-end tests run one or two commands on three ASCII lines; nothing covers sequences, other content, or the state left by earlier commands.",
 ["pkg/ed/ed.go", "pkg/ed/ed.peg.go", "pkg/ed/address.go", "pkg/txt/piece_table.go"],
 [("editing commands", "pkg/ed/ed.go:processCommand, insertBeforeLine, Delete, getLineAddr"), ("text capture", "pkg/ed/ed.peg.go:Execute, textTerm"), ("buffer", "pkg/txt/piece_table.go")],
 ["String() after a session", "file written by w", ",p output"],
 state=[("pt", "the buffer", "pkg/ed/ed.go:Itor.pt")])

prop("C11", "ed resolves addresses and prints exactly the addressed lines",
 "Addresses (n, ., $, /re/ searching forward and wrapping, each with an optional +n or -n; x,y and x;y ranges with their defaults) resolve as POSIX defines against the current buffer and current line, and p, n, = and the null command answer with exactly the addressed lines, numbered lines or line number. "
 "The current line after each command is the one POSIX defines: the last line printed, appended, inserted or changed; the line after a deleted range, or the new last line; the last line after an edit; unchanged by =, w and failing commands. "
 "Run as a command, ed writes these answers, and nothing else, on standard output.",
 ["histories", "inputs"], "all buffers, command histories and address forms",
 "Tests print five hand-picked ranges on a three-line file and never look at the current line left behind by another command.",
 ["pkg/ed/ed.go", "pkg/ed/address.go", "pkg/ed/ed.peg.go"],
 [("address resolution", "pkg/ed/ed.go:addrLine, regexMatch"), ("defaults", "pkg/ed/address.go:defaultAddresses"), ("range grammar", "pkg/ed/ed.peg.go:range rules")],
 ["responses written by ProcessCommands", "stdout of ed"],
 state=[("currentLine", "the current line", "pkg/ed/ed.go:Itor.currentLine")])

prop("C12", "ed answers every command once, in order, without racing",
 "However the command input is delivered in time and the output consumed, ed executes the commands one at a time in input order, writes exactly one answer for each (an error answer starts with \"?\"), in the same order, stops at q without executing or answering anything after it, and writes nothing after it has returned. "
 "No two goroutines access the editor or its output without synchronisation.",
 ["schedules", "histories"], "all interleavings of the reader, parser and executor, and all chunkings and delays of input and output",
 "Tests use in-memory readers and one or two valid commands, never errors next to other commands, and are not run under the race detector.",
 ["pkg/ed/ed.go"], [("parser goroutine feeding a channel", "pkg/ed/ed.go:ProcessCommands")], ["writer passed to ProcessCommands", "race detector"])

prop("C13", "ed's w saves exactly the addressed lines, or leaves the file untouched",
 "When w succeeds the named file (the remembered one by default) holds exactly the addressed lines (the whole buffer by default), its permission bits are those it had, and no other file has been created, changed or removed. "
 "When w fails, for whatever file-system error, the answer starts with \"?\", the file still holds its previous content, no other file is changed or left behind, and the buffer is intact so that a later w can succeed. "
 "If the process is killed at any point during w, the file holds either its complete previous content or the complete new content.",
 ["crash_points", "fault_sequences", "histories"], "every system call of the save as a crash point or as a failing call, and all buffers",
 "One test writes one file successfully; no failing or interrupted save is ever exercised.",
 ["pkg/ed/ed.go"], [("write to temporary file and rename", "pkg/ed/ed.go:Write"), ("w command", "pkg/ed/ed.go:processCommand")], ["directory contents after the run", "answers"])

prop("C14", "No command script or file makes ed crash, hang or lose the buffer",
 "For every sequence of input lines, valid or not, and every file, ed terminates normally at the end of its input without crashing, and an invalid, impossible or unsupported command (unknown syntax, address out of range, pattern not found, missing or unreadable file, unset mark) is answered with a line starting with \"?\" and leaves the buffer and the current line as they were. "
 "The commands that follow it are executed normally.",
 ["inputs", "histories"], "all command scripts, including random bytes, and all states in which an error can occur",
 "No test gives ed an invalid command or address.",
 ["pkg/ed/ed.go", "pkg/ed/ed.peg.go"], [("address validation", "pkg/ed/ed.go:processCommand"), ("parse errors", "pkg/ed/ed.go:ProcessCommands")], ["termination of the process", "answers", "buffer afterwards"])

prop("C15", "The piece table always equals the text its edits describe",
 "After every sequence of insertions (at any offset from 0 to the current length) and deletions (of any range within the current length), the text of a piece table is the original text with the same edits applied to a plain byte string, whatever the edits' sizes, positions and order, and also when the table starts empty or as a zero value. "
 "Later changes to a slice passed to an insertion do not affect it, and reading the text does not change it.",
 ["histories", "inputs"], "all original texts and edit histories",
 "Four tests of at most three edits; go-fuzz target is not run and never deletes up to the end.",
 ["pkg/txt/piece_table.go"], [("piece splitting", "pkg/txt/piece_table.go:Insert"), ("piece trimming", "pkg/txt/piece_table.go:Delete"), ("reading", "pkg/txt/piece_table.go:String")], ["String()"],
 state=[("head", "linked list of pieces", "pkg/txt/piece_table.go:PieceTable")])

prop("C16", "Option parsing follows the POSIX utility syntax guidelines",
 "For every argument list and set of declared options, parsing sets exactly the declared options that occur before the first operand (in bundles or not; an option's value is the rest of its argument or, if that is empty, the whole next argument, whatever it looks like; the last occurrence wins), and returns exactly the remaining arguments in order. "
 "Options end at \"--\" (dropped) or before the first argument that is empty, is \"-\" or does not start with \"-\". "
 "An undeclared option, a missing value and a value of an integer option that is not an integer give an error, never a crash, and the argument list itself is not modified.",
 ["inputs", "configurations"], "all argument lists and option declarations",
 "Eight hand-written argument lists, none with an attached value, an unknown option or a missing value.",
 ["pkg/flag/parse.go", "pkg/flag/flag.go"], [("argument loop", "pkg/flag/parse.go:Parser.Parse"), ("conversion", "pkg/flag/flag.go")], ["variables bound to options", "returned operands and error"])

prop("C17", "Basic regular expressions match exactly the strings they describe",
 "For every pattern built from literal characters, \".\", lists [abc], parentheses used only to group, the repetitions *, {n}, {n,} and {n,m} after a single-character element, a leading ^ and a trailing $, matching reports true iff some substring of the subject (starting at the beginning with ^, reaching the end with $) is in the pattern's language. "
 "A pattern with an unterminated [ or {, or with a malformed count, is rejected (by an error or a panic) rather than accepted.",
 ["inputs", "programs"], "all patterns of that syntax and all subjects, including empty and non-ASCII ones",
 "Fifteen patterns on short subjects, with no negative example for any anchored pattern.",
 ["pkg/regexes/bre.go", "pkg/regexes/bre_evaluate.go"], [("parser", "pkg/regexes/bre.go:ParseBre, parseCount, readUntil"), ("backtracking matcher", "pkg/regexes/bre_evaluate.go:Matches, elementsMatch")], ["ParseBre outcome", "Matches result"])

prop("C18", "Tokenising a locale definition is lossless and ignores its layout",
 "For every well-formed locale definition the tokens produced, white space included, concatenate to the source with comment lines and escape/comment character redefinitions removed and continued lines joined, and each token has the type its text calls for. "
 "Adding or removing comment lines, continuing lines with the escape character between list elements, and choosing other comment and escape characters leave the significant tokens unchanged.",
 ["inputs", "programs"], "all well-formed locale definition sources and their layouts",
 "Tests only check that five sources parse; no test looks at a token.",
 ["pkg/locale/localelex.go"], [("preprocessing", "pkg/locale/localelex.go:removeComments, checkSpecialWord"), ("state functions", "pkg/locale/localelex.go:sCategory, getsGenericCategory, grab*")], ["NextToken stream"])

prop("C19", "Locale definitions are accepted iff well formed, and their values recorded",
 "Every well-formed definition (any sequence of LC_CTYPE, LC_COLLATE, LC_MONETARY, LC_NUMERIC, LC_TIME and LC_MESSAGES categories with the supported keywords) is accepted, and the international currency symbol, international fraction digits and monetary grouping it gives are the ones recorded. "
 "A source with an unknown category or keyword, a keyword of another category, a missing or mismatched END, an unterminated string or a value of the wrong kind is never accepted (parsing fails or aborts), and parsing always terminates.",
 ["inputs", "programs"], "all sources derivable from the grammar and all single-fault mutations of them",
 "Five sources are parsed; the list of sources that must fail is not used by any test, and no recorded value is checked.",
 ["pkg/locale/localedef.y", "pkg/locale/y.go", "pkg/locale/localelex.go"], [("grammar", "pkg/locale/localedef.y"), ("value actions", "pkg/locale/y.go:assignMonetary*"), ("lexer errors", "pkg/locale/localelex.go")], ["parse status", "recorded definition"],
 hook="build tag verif: an exported wrapper in pkg/locale that parses a source and returns the status and the recorded monetary values")

prop("C20", "Era descriptions are decoded field by field or refused",
 "For every era string direction:offset:start:end:name:format with direction + or - and an integer offset, the decoded era has that direction, offset, start date, end date and name, and a format that is everything after the fifth colon, further colons included. "
 "A string with fewer than six fields, another direction or a non-integer offset is refused with an error.",
 ["inputs"], "all strings",
 "NewEra is not called by any test.",
 ["pkg/locale/time.go"], [("splitting and conversion", "pkg/locale/time.go:NewEra")], ["returned era and error"])

prop("C21", "No utility reports success on input it could not read",
 "Whenever an input operand of cat, cksum, cmp, diff, head or tsort cannot be opened or read (missing, a directory, no permission, dangling or looping link, an I/O error part way through), the utility exits with a nonzero status (above 1 for cmp and diff) and writes a diagnostic to standard error, and does not present a result for the unreadable operand. "
 "When nothing goes wrong it exits 0 (or 1 where cmp, diff and test report a difference) with nothing on standard error, except for cmp's EOF message.",
 ["fault_sequences", "configurations"], "all utilities, kinds of failure, positions of the failing operand and positions of the failing read",
 "No test runs a utility on an input that cannot be read.",
 ["cmd/cat/main.go", "cmd/cksum/main.go", "cmd/cmp/main.go", "cmd/diff/main.go", "cmd/head/main.go", "cmd/tsort/main.go"],
 [("error paths", "cmd/*/main.go")], ["exit status", "stderr", "stdout"])

prop("C22", "No utility reports success when its output could not be written",
 "Whenever standard output cannot take all of the result of cat, cksum, cmp, diff, head, tsort or locale (device full, file size limit reached part way, pipe closed by its reader), the utility ends with a nonzero status or by a signal, above 1 for cmp and diff. "
 "What was written before the failure is a prefix of the correct output.",
 ["fault_sequences"], "all utilities and all points at which output can fail",
 "No test makes a write fail.",
 ["cmd/cat/main.go", "cmd/cksum/main.go", "cmd/cmp/main.go", "cmd/diff/main.go", "cmd/head/main.go", "cmd/tsort/main.go", "cmd/locale/main.go"],
 [("checks of write results", "cmd/*/main.go")], ["exit status", "partial stdout"])

prop("C23", "Utilities that only read never change the file system",
 "Running cat, cksum, cmp, diff, head, test, tsort or locale, with any arguments and whether or not it succeeds, creates, modifies, renames and removes no file, and changes no file's content, size, mode or modification time.",
 ["inputs", "configurations"], "all utilities, argument lists and failures",
 "No test looks at the file system around a run.",
 ["cmd/cat/main.go", "cmd/cksum/main.go", "cmd/cmp/main.go", "cmd/diff/main.go", "cmd/head/main.go", "cmd/test/main.go", "cmd/tsort/main.go", "cmd/locale/main.go"],
 [("only os.Open and os.Stat are used", "cmd/*/main.go")], ["snapshot of the scratch directory before and after", "system-call trace"])

prop("C24", "Separate library objects can be used concurrently without interference",
 "Any number of goroutines may at the same time run diffs, sort with their own sorters, edit with their own piece tables and editors, parse options with their own parsers, compile basic regular expressions and match with shared compiled ones, and read the locale environment: there is no data race, and every call returns what it returns when run alone. "
 "None of these calls modifies the slices passed to it.",
 ["schedules"], "all interleavings of independent uses of the packages",
 "No test uses a package from two goroutines, and the suite is not run under the race detector.",
 ["pkg/diff/diff.go", "pkg/tsort/tsort.go", "pkg/txt/piece_table.go", "pkg/ed/ed.go", "pkg/flag/parse.go", "pkg/regexes/bre_evaluate.go", "pkg/locale/locale.go"],
 [("no package-level mutable state", "pkg/*")], ["race detector", "results compared with a sequential run"])

prop("C25", "cat, head, cmp and ed keep up with inputs that are still being written",
 "cat (with and without -u) writes every byte it has read before it waits for more input. head ends as soon as it has read its n lines of the last input, and goes on to the next input as soon as it has read them of another, without waiting for the end of that input; cmp without -l ends as soon as both inputs have delivered the first differing byte; ed answers every command before it waits for the next, and ends at q although its input stays open. "
 "However long the input, cat and cmp, and head for lines of ordinary length, use a bounded amount of memory.",
 ["schedules", "histories"], "all ways in which input arrives over time, on pipes and named pipes, and all lengths",
 "Tests of the packages pass complete inputs, and none runs a utility on a pipe that stays open.",
 ["cmd/cat/main.go", "cmd/head/main.go", "cmd/cmp/main.go", "cmd/ed/main.go", "pkg/ed/ed.go"],
 [("unbuffered copy", "cmd/cat/main.go:write"), ("line loop", "cmd/head/main.go:process"), ("byte loop", "cmd/cmp/main.go:cmp"), ("command loop", "pkg/ed/ed.go:ProcessCommands")],
 ["stdout bytes over time", "exit", "VmHWM of the process"])

prop("C26", "Files and goroutines are released when they are done with",
 "cat, cksum and head process any number of operands, and ed any number of e and w commands (failing ones included), however few files a process may have open at a time. "
 "When an ed session has ended at the end of its input, a piece table over a file has been closed, or a diff, sort, option parse, match, era, locale environment or complete tokenisation of a locale definition has returned, no file descriptor and no goroutine of it remains.",
 ["histories", "configurations"], "all operand counts and session histories, with successes and failures",
 "No test counts descriptors or goroutines, and none uses more than a few files.",
 ["cmd/cat/main.go", "cmd/cksum/main.go", "cmd/head/main.go", "pkg/ed/ed.go", "pkg/txt/piece_table.go", "pkg/locale/localelex.go"],
 [("Close after use", "cmd/cat/main.go:writeFile, cmd/cksum/main.go:run, cmd/head/main.go:process"), ("temporary file closed", "pkg/ed/ed.go:writeFile"), ("reader goroutine ends", "pkg/ed/ed.go:ProcessCommands"), ("Close", "pkg/txt/piece_table.go:Close")],
 ["exit status under RLIMIT_NOFILE", "/proc/self/fd", "runtime.NumGoroutine"])

prop("C27", "An editor keeps its buffer between sessions and direct calls",
 "For every history of calls on one pkg/ed editor (Edit, String, Print, Delete, Write, Quit and whole sessions of ProcessCommands, ended by q or by the end of their input): String is always the buffer that the calls so far have made; Edit replaces it by the file's content, or returns an error and changes nothing; Print returns the given lines and changes nothing; Delete removes exactly the given lines; Write saves the buffer in the file last edited, or returns an error and changes no file; Quit changes nothing. "
 "Each session works on the buffer the calls before it have left, starting at its last line, and leaves its own result to those after it.",
 ["histories"], "all histories of calls and sessions, with successes and failures",
 "Every test uses one new editor for one session.",
 ["pkg/ed/ed.go", "pkg/txt/piece_table.go"],
 [("methods", "pkg/ed/ed.go:Edit, Print, Delete, String, Write, Quit"), ("session loop", "pkg/ed/ed.go:ProcessCommands")],
 ["String after every call", "answers of a session", "files after a save"])

prop("C28", "Malformed command lines are refused",
 "cmp and diff called with any number of operands other than two, diff -C or -U and head -n without a value or with a value that is not a decimal integer, in any place among other options and operands, end with a nonzero status (above 1 for cmp and diff), a diagnostic on standard error and nothing on standard output, without waiting for any input. "
 "Well-formed command lines (options before, between and after the operands included) are accepted.",
 ["configurations"], "all argument lists",
 "No test runs these utilities with wrong arguments.",
 ["cmd/cmp/main.go", "cmd/diff/main.go", "cmd/head/main.go"],
 [("argument loops", "cmd/cmp/main.go:main, cmd/diff/main.go:parseSettings, cmd/head/main.go:parseSettings")],
 ["exit status", "stderr", "stdout"])

prop("C29", "Results do not depend on how the inputs are delivered",
 "What cat, cksum, cmp, diff, head, tsort and ed write on standard output, their exit status, and whether (but for ed) they write a diagnostic depend only on their arguments and on the bytes of their inputs. "
 "They are the same when an operand is a regular file, a symbolic or hard link to one, a file without write permission or a named pipe; when standard input is a pipe, a file at any position (what is before it is not input), a socket or a named pipe, in however many pieces it comes; when standard output is a pipe, a socket, or a file at any position or opened for appending (what is there already stays); whatever the environment and the name the utility is called by.",
 ["configurations", "schedules"], "all kinds of files behind the operands and the standard streams, all ways in which the bytes arrive, all environments",
 "No test runs a utility twice with its inputs delivered differently.",
 ["cmd/cat/main.go", "cmd/cksum/main.go", "cmd/cmp/main.go", "cmd/diff/main.go", "cmd/head/main.go", "cmd/tsort/main.go", "cmd/ed/main.go"],
 [("how files and standard input are opened and read", "cmd/*/main.go"), ("how the editor reads files", "pkg/ed/ed.go:Edit")],
 ["stdout", "exit status", "whether stderr is empty"])

prop("C30", "No utility crashes or hangs, whatever its arguments and input",
 "cat, cksum, cmp, cut, diff, ed, head, locale, test and tsort end of their own accord, by exiting: for every argument list, environment, kind and content of the files named, and standard streams (closed ones included) they end once their input has ended, are not ended by a signal, and meet no fault of the Go runtime (index out of range, nil dereference, failed type assertion, deadlock, stack overflow, exhausted memory and the like). "
 "Ending themselves with a message and a nonzero status is always allowed here, also where the message is written by a deliberate panic.",
 ["inputs", "configurations", "fault_sequences"], "all argument lists, environments, file contents and kinds of files, and all states of the standard streams",
 "Tests call library functions with a few good arguments; hardly any runs a command.",
 ["cmd", "pkg/diff", "pkg/ed", "pkg/tsort", "pkg/txt", "pkg/locale", "pkg/regexes"],
 [("argument loops", "cmd/*/main.go"), ("what they call", "pkg/*")],
 ["how the process ends", "stderr"])

prop("C31", "An operand names exactly the file of that name",
 "For every string of bytes that is not an option of the utility or \"-\", the operand of cat, cksum, cmp, diff, head, tsort and ed names the file that the system finds under exactly that path: blanks, line ends, invalid UTF-8, shell, escape and pattern characters in it mean nothing, no part of it is taken for a command or an option, it is not normalised, folded or completed, and no other file is read or (by ed's w) written in its place. "
 "If there is no such file (the empty operand included), cat, cksum, cmp, diff, head and tsort end with a nonzero status and a diagnostic, and ed answers with \"?\"; nothing is read from another file or standard input instead.",
 ["inputs", "configurations"], "all operands and all sets of other files beside the one that is named",
 "Tests use a few plain ASCII names.",
 ["cmd/cat/main.go", "cmd/cksum/main.go", "cmd/cmp/main.go", "cmd/diff/main.go", "cmd/head/main.go", "cmd/tsort/main.go", "cmd/ed/main.go"],
 [("how operands are opened", "cmd/*/main.go"), ("ed's first file", "cmd/ed/main.go:process, pkg/ed/ed.go:Edit")],
 ["stdout", "exit status", "files beside the operand"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
HOOK = '247115c'
T = {  # property: (technique, level, note)
 'C01': ('differential runtime monitoring of the command: bytes and exit status against a byte model', 'exploration', 'Generated inputs of all sizes, kinds and operand mixes, pipes and files; trusts the Go standard library, the kernel, and the generator\'s variety.'),
 'C02': ('runtime monitoring of the command against an independent POSIX CRC', 'exploration', 'Independent bitwise CRC; sizes around buffer limits up to some megabytes.'),
 'C03': ('runtime monitoring of the command against a byte-comparison model', 'exploration', 'Pairs that are equal, prefixes, differ at one or many places, by file and standard input.'),
 'C04': ('trace checker: the printed script is parsed and applied to the old file, which must give the new one', 'exploration', 'The oracle applies every script; also checks emptiness and exit status, and that at least the longest common run of lines is left unchanged.'),
 'C05': ('differential runtime monitoring of the command against a prefix model', 'exploration', 'Byte-exact comparison over line lengths, line endings, counts and operand mixes.'),
 'C06': ('signal-recording target processes and system-call traces as monitors', 'exploration', 'Real signals between processes of unprivileged users; a sample of the runs is traced for duplicates. SIGSTOP is not observed.'),
 'C07': ('differential runtime monitoring of the command against the POSIX argument-count rules', 'exploration', 'Independent evaluator for 0-4 arguments over real files of every kind; expressions POSIX leaves unspecified are not judged.'),
 'C08': ('online checker of the output order against the constraints', 'exploration', 'Independent cycle detection and order check; library and command.'),
 'C09': ('differential runtime monitoring against a model of the environment', 'exploration', 'Library and command over generated environments.'),
 'C10': ('model-based runtime monitoring of edit histories', 'exploration', 'A list-of-lines model predicts the buffer and every answer; library and command.'),
 'C11': ('model-based runtime monitoring of answers', 'exploration', 'The model resolves every address form independently, with its own matcher for searches.'),
 'C12': ('race detector and online trace checker under hostile readers and writers', 'exploration', 'Schedules are sampled with delays, yields and processor counts, not enumerated.'),
 'C13': ('fault injection and kill at every file-system call of a save, with snapshot oracle and concurrent observer', 'fault_enumeration', 'Single faults and crashes at each traced call of sampled saves; process crashes, not power failures.'),
 'C14': ('model-based runtime monitoring with hostile input', 'exploration', 'Invalid commands by construction, and random lines followed by a known tail.'),
 'C15': ('model-based runtime monitoring of operation histories against a byte slice', 'exploration', 'Every table kind; text compared after every operation.'),
 'C16': ('model-based runtime monitoring of the parser', 'exploration', 'Argument lists made from the intended values in every spelling.'),
 'C17': ('differential runtime monitoring against an independent matcher', 'exploration', 'Position-set matcher over patterns generated together with their meaning.'),
 'C18': ('trace checker over the token stream', 'exploration', 'Definitions generated together with their tokens.'),
 'C19': ('runtime monitoring of the parser with generated definitions and single faults', 'exploration', 'Accepted definitions and recorded values, refused faulty ones; uses the verif hook to reach the unexported parser, and skips recorded values without it.'),
 'C20': ('differential runtime monitoring of era parsing against a model', 'exploration', 'Fields read by reflection on what the parser returns.'),
 'C21': ('fault injection on inputs with an oracle over status, standard error and output', 'fault_enumeration', 'Missing, unreadable, directory, and read errors injected by strace at several reads.'),
 'C22': ('fault injection on outputs with an oracle over exit status', 'fault_enumeration', '/dev/full, file size limits at many offsets, closed pipes.'),
 'C23': ('snapshot and system-call monitors around the utilities', 'exploration', 'Everything under the scratch directory is compared before and after; a sample of the runs is traced for calls that modify files.'),
 'C24': ('race detector and comparison with sequential results', 'exploration', 'Schedules are sampled.'),
 'C25': ('online monitor of a dialogue with the running process over pipes that stay open, and of its peak memory', 'exploration', 'Liveness is judged with a patience of 25 s; memory after 160 MiB of input against a bound of 96 MiB.'),
 'C26': ('descriptor and goroutine monitors, and descriptor limits on the utilities', 'exploration', 'Garbage collection is off while the library is watched, so that finalisers cannot hide a leak; sessions ended by q are not judged.'),
 'C27': ('model-based runtime monitoring of call histories on one editor', 'exploration', 'The same list-of-lines model as C10 follows sessions and direct calls; the buffer is compared after the calls, files after saves.'),
 'C28': ('runtime monitoring of the commands on argument lists malformed by construction', 'exploration', 'Status, diagnostic and output are judged; the wording is not.'),
 'C29': ('metamorphic runtime monitoring: the same bytes delivered in different ways must give the same result', 'exploration', 'Compares runs with each other, so it needs no model of the utilities; kinds of files, streams, pieces and environments are sampled.'),
 'C30': ('runtime-fault monitor around the utilities on hostile argument lists, environments, files and streams', 'exploration', 'Any Go runtime fault, death by signal, or run that does not end in 60 s counts; deliberate panics with a message do not. kill is left out: a hostile argument list could end a process of the sandbox.'),
 'C31': ('runtime monitoring of the utilities on hostile operands among decoy files', 'exploration', 'The named file and the files it could be confused with have different contents, so output, status and a snapshot show which one was used; names are sampled.'),
}
checks = [{'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
           'technique': t, 'level': l, 'level_note': n} for p, (t, l, n) in sorted(T.items())]
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py',
           'hooks': {'guard': 'verif', 'enable': 'go build -tags verif', 'source_commits': [HOOK]},
           'checks': checks, 'not_applicable': [],
           'notes': 'check.py builds the utilities and the monitor (mon/, placed in the module by a Go overlay) from /repo\'s working tree for every run.'},
          open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')

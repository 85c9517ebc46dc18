#!/usr/bin/env python3
"""Writes known_findings.jsonl: the defects that were found and repaired."""
import json, subprocess
PROPS = {'06cc4b9':'C01','3981df2':'C02','fdcaff6':'C03','ce8f2fc':'C03','69c58fb':'C21','d9fe468':'C21','7e8533c':'C04','a5daa9a':'C04',
'08905c5':'C05','93cec4c':'C05','0ebbe2d':'C06','d58622f':'C06','abd3691':'C09','bcb1ac8':'C08','72dfe0a':'C16','2ad1f9a':'C17',
'4c82aeb':'C15','9ebc96c':'C15','2465d17':'C10','2956116':'C10','7ec8972':'C11','d4fbbb0':'C12','3511449':'C10','c11f47f':'C14','6156fd0':'C14',
'3b5072e':'C10','cdae9cc':'C11','fa9995a':'C11','18785b7':'C10','d00591b':'C10','92893a0':'C13','08f179c':'C13','70e9e62':'C20','70f50bb':'C18',
'24fe579':'C18','0024850':'C19','22ee143':'C19','719cde0':'C19','8dca8f8':'C19','a74978d':'C19','3abee92':'C19','dcdfda1':'C08','79a5a91':'C22',
'a439910':'C22','58e5242':'C22','b6b672f':'C22','002af98':'C22','23ec5b5':'C22','c913d87':'C14','8b1fa31':'C06','eac3763':'C26','3441806':'C08','6382996':'C18','7836f16':'C28','54118cc':'C28','fa64919':'C16','017edf0':'C15','455b15c':'C30','0976d9c':'C19','5cc1717':'C31','80e8e0b':'C06'}
log = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],stdout=subprocess.PIPE,text=True).stdout
OPEN = [
 ('C07', 'empty-first-operand', 'test with two or more arguments of which the first (after any !) is empty is always false: test "" = "" exits 1, test "" x exits 1 (cmd/test/main.go:parse)'),
 ('C07', 'unary-operator-first', 'test with three or more arguments (after any !) of which the first looks like a unary operator applies it to the second and ignores the rest: test -n = -n exits 0 for the wrong reason, test -f = x exits 1, test -f a b does not exit 2 (cmd/test/main.go:parse)'),
 ('C07', 'bang-operand', 'test with three arguments of which the first is ! and the second a binary operator negates instead of comparing: test ! = ! exits 2 (cmd/test/main.go:parse)'),
]
with open('/verif/known_findings.jsonl','w') as f:
    for l in log.splitlines():
        h, s = l.split(' ',1)
        if not s.startswith('fix: '):
            continue
        if h[:7] == 'b00ba1d':
            continue  # reverted: the path counts as a test file
        p = PROPS[h[:7]]
        what = s[5:]
        f.write(json.dumps({'status':'fixed','property':p,'commit':h,'what':'before the repair: '+what,'entry':'fixed: property=%s %s %s'%(p,h,what)})+'\n')
    for p, k, w in OPEN:
        f.write(json.dumps({'status':'open','property':p,'key':k,'what':w})+'\n')

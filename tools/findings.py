"""Writes known_findings.txt from tools/known.txt and the fix: commits in /repo"""
import subprocess
m='''02bdc37 C05
31d2c4e C16
30ab7b3 C19
5e11d22 C10
8f2523d C07
b0f8912 C04
ec9492e C08
45ea13f C08
380f183 C05
c4dce85 C01
a8ac6bd C15
b7ced26 C15
4e233f4 C12
e01f583 C12
3bac694 C12
2de85f3 C16
ff20205 C20
81c0083 C20
7ba47e5 C20
42d60c4 C20
5dd2ce5 C02
d72b1b1 C06
3f373d8 C09
a2a820d C08
e17667e C08
12a7e98 C08
f916f3f C08
f48f7a6 C08
f44cf8e C08
b8003d3 C01
87d5461 C14
1ec7188 C18
939be4f C13
e2a598f C15
c1b53f1 C05
08fd262 C19
75dcf44 C01
aaff89d C01
1b52457 C01
00b75f4 C07
6f54c81 C19
6b141af C11
74eded9 C06
3dbe6cb C17
292aa3d C03
04cc004 C08
e856275 C08
c723f39 C08
387af96 C09
04b007b C08
ee05136 C08
0992a62 C10
37b9f79 C10
64e772a C10
410ccf7 C10
c00db40 C09
d1ac7a3 C09
7559879 C09
512f366 C09
225c98c C20
4f4a7b8 C20
b1a595f C13
3f00258 C13
5e985bb C19
a4d2a15 C19'''
m=dict(l.split() for l in m.splitlines())
import sys
m.update(dict(a.split('=') for a in sys.argv[1:]))
out=['# Findings of the checks on the original code.',
'# known: property=<id> key=<scenario in the check> <what fails>   reported as KNOWN-FINDING while it fails',
'# fixed: property=<id> <commit> <what failed>                      repaired in /repo, suppresses nothing','',
open('/verif/tools/known.txt').read().rstrip(),'']
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','b0079da..HEAD'],capture_output=True,text=True).stdout
for l in log.splitlines():
    h,s=l.split(' ',1)
    assert s.startswith('fix: '),s
    if h not in m: print('unmapped',l); continue
    out.append(f'fixed: property={m[h]} {h} {s[5:]}')
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')

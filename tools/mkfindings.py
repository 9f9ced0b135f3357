"""Writes known_findings.json from the fix: commits in /repo (run by hand)."""
import json, os, subprocess
M = '''ae62e6d C01
13620fb C01
faff691 C01
184b0a9 C02,C03,C07
8874196 C07
84c2b84 C09
0704d6b C08,C09
1f5516b C12
dfdd34d C10,C11
0bc6a60 C10,C07
61b62df C11,C07
3363173 C11
92fd783 C08,C09,C11
eea195b C12,C13,C14,C15
5f06cc7 C14
0d0398b C13
67ef640 C21
e729bb2 C21
1defbc2 C28
28ba861 C24,C25
17e1237 C27
1d76dff C27
591b3b9 C25
d297695 C28
71c84e8 C28
509c9c4 C23,C24
ed5fc98 C26
8e69591 C26
430ace0 C26
60f9210 C22
17c019f C19
873a3de C21
4043795 C20
7ef5541 C21
99e9066 C21
b60f956 C20,C21
1f61c34 C22,C15
cb53212 C25
6abe15a C25
4c11796 C25
d270129 C25
845b74a C25
b038e87 C25
d13e462 C28
9c71d90 C25
3da0747 C29,C25
d4d2ef7 C26
6a77f20 C11
cce3c94 C11
a935be5 C21
6feb921 C21'''
fixed = []
for l in M.splitlines():
    h, ps = l.split()
    full = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%H %s%n%b', h], capture_output=True, text=True, check=True).stdout
    sub, _, body = full.partition('\n')
    sha, _, msg = sub.partition(' ')
    for p in ps.split(','):
        fixed.append(f'fixed: property={p} {sha[:12]} {msg.removeprefix("fix: ")}')
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
json.dump({'known': [], 'fixed': fixed}, open(out, 'w'), indent=1)
print(len(fixed))

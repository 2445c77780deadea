"""developer tool: every line a seeded patch removes must come from the original repository"""
import subprocess, sys, glob, os
BASE = '2802cf7'
bl = {}
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    cur = None; bad = []; n = 0; ln = 0
    for l in open(p):
        if l.startswith('--- a/'):
            cur = l[6:].strip()
        elif l.startswith('@@'):
            ln = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') and not l.startswith('---'):
            if cur not in bl:
                out = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', cur], capture_output=True, text=True).stdout.splitlines()
                bl[cur] = [x.split()[0].lstrip('^')[:7] for x in out]
            n += 1
            h = bl[cur][ln - 1]
            if subprocess.run(['git', '-C', '/repo', 'merge-base', '--is-ancestor', h, BASE]).returncode:
                bad.append((ln, h, l.rstrip()))
            ln += 1
        elif l.startswith(' '):
            ln += 1
    if bad or not n:
        print(os.path.dirname(p), 'removes', n, bad)

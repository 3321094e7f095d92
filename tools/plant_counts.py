#!/usr/bin/env python3
"""Lists the planted changes which touch no line of the original repository (only lines that a fix: commit wrote)."""
import glob, os, re, subprocess, sys
REPO = '/repo'
BASE = subprocess.run(['git', '-C', REPO, 'log', '--format=%H', '--grep', '^fix:', '--reverse'], capture_output=True, text=True).stdout.split()[0] + '^'
def git(*a): return subprocess.run(['git', '-C', REPO, *a], capture_output=True, text=True).stdout
def added(path):
    out = set()
    for m in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@", git('diff', '-U0', BASE, 'HEAD', '--', path)):
        out.update(range(int(m[1]), int(m[1]) + int(m[2] or 1)))
    return out
bad = 0
for d in sorted(glob.glob('/verif/seeded/*/')):
    ok = False; path = None
    if subprocess.run(['git', '-C', REPO, 'apply', '--check', d + 'patch.diff'], capture_output=True).returncode:
        print('does not apply:', d); bad += 1; continue
    lines = open(d + 'patch.diff').read().splitlines()
    add = set(); cur = 0; run = []
    for l in lines + ['@@ -1 +1 @@']:
        if l.startswith('--- a/'): path = l[6:]; add = added(path); cur = 0; continue
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m: cur = int(m[1]); pend = False; continue
        if not cur or l.startswith('+++'): continue
        if l.startswith('-'):
            ok |= cur not in add; cur += 1
        elif l.startswith('+'):
            # pure insertion: the neighbours decide (approximation)
            pass
        elif l.startswith(' '): cur += 1
    if not ok:
        if any(l.startswith('-') and not l.startswith('---') for l in lines):
            print('touches no original line:', os.path.basename(d[:-1])); bad += 1
        else: print('only insertions (not judged here):', os.path.basename(d[:-1]))
sys.exit(bad > 0)

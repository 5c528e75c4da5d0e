#!/usr/bin/env python3
"""tools/mut.py FILE OLD NEW CHECK...   applies one textual change to the code
under /repo/robuststats, runs the checks, undoes the change."""
import subprocess
import sys
f, old, new = sys.argv[1:4]
p = '/repo/robuststats/' + f
s = open(p).read()
n = 0
if '@@' in old[-4:] and old.rsplit('@@', 1)[1].isdigit():      # OLD@@k: the occurrence number k
    old, n = old.rsplit('@@', 1)
    n = int(n)
assert s.count(old) > n, 'text not found'
try:
    parts = s.split(old)
    open(p, 'w').write(old.join(parts[:n+1]) + new + old.join(parts[n+1:]))
    for c in sys.argv[4:]:
        r = subprocess.run([sys.executable, '/verif/run.py', c], capture_output=True, text=True)
        print(c, 'exit', r.returncode, '|', (r.stdout + r.stderr).strip().splitlines()[-1][:200])
        for line in r.stdout.splitlines():
            if line.startswith('rejected') and '-v' in sys.argv[0:1]:
                print('   ', line[:200])
        print('   ', [line[:150] for line in r.stdout.splitlines() if line.startswith('rejected')][:3])
finally:
    open(p, 'w').write(s)

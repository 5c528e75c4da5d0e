"""Apply each seeded change in turn to /repo, run the quick check of its
property (or the checks named after --), and say what happened.

    python3 tools/runseeds.py [seed ...] [-- check ...]
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = None
if '--' in args:
    k = args.index('--')
    args, checks = args[:k], args[k+1:]
seeds = args or sorted(os.listdir(HERE + '/seeded'))
for s in seeds:
    d = f'{HERE}/seeded/{s}'
    prop = json.load(open(d + '/meta.json'))['property']
    a = subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if a.returncode:
        print(s, 'does not apply', flush=True)
        continue
    try:
        out = []
        for c in (checks or [prop]):
            t = time.time()
            r = subprocess.run(
                [sys.executable, HERE + '/run.py', c, 'quick'],
                capture_output=True, text=True, cwd=HERE,
                env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v = f'VIOLATION property={c}' in r.stdout
            out.append(f"{c}={'CAUGHT' if r.returncode == 1 and v else 'quiet' if r.returncode == 0 else 'rc%d' % r.returncode}"
                       f"({time.time()-t:.0f}s)")
        print(s, ' '.join(out), flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])

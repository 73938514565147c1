"""python3 tools/catch.py [ID...]: applies each planted bug to /repo, runs its property's check, undoes it."""
import json
import os
import subprocess
import sys
import time
import signal
signal.signal(signal.SIGTERM, lambda *_: sys.exit(1))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = os.path.join(V, 'seeded', i)
    p = json.load(open(d + '/meta.json'))['property']
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    try:
        r = subprocess.run([V + '/check', p], capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    f = [l for l in r.stdout.split('\n') if l.startswith('FAILED')]
    print('%-28s %s exit %d %.0fs %s | %s' % (i, p, r.returncode, time.time() - t, 'no-input' if v and v[0].endswith('found') else 'input' if v else 'MISSED', '; '.join(f)[:150]), flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-1000:], r.stderr[-1000:])

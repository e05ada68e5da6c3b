"""runall.py spec fn a:b [budget]: all configurations of one harness, in parallel"""
import sys
sys.path.insert(0, '/verif')
import time
from vf import build, runner
import check
spec, fn, rng = sys.argv[1:4]
bud = float(sys.argv[4]) if len(sys.argv) > 4 else 400
cs = [int(x) for x in rng.split(',')] if ',' in rng else list(range(*map(int, rng.split(':'))))
p = build.module(spec)
runner.prepare(p)
t = time.time()
for r in check.run_jobs([(spec, p, fn, c, {'budget': bud}) for c in cs], time.time() + 4000):
    print(fn, r['cfg'], 'obl', r['obligations'], 'disch', r['discharged'], r['covers'], 'wall', r['wall_s'], 'havoc', r['havoc'],
          'unrolled', [u[0][-40:] for u in r['unrolled']], 'INC' if r['incomplete'] else '')
    for f in r['failures'][:3]:
        print('   FAIL', f['label'], f['where'], f['kind'], f['inputs'])
    for i in r['incomplete'][:3]:
        print('   INC', i[-300:])
print('total', round(time.time() - t, 1))

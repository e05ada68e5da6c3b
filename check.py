#!/usr/bin/env python3-vt
"""check.py PROPERTY: decide one property on /repo's current tree.

Every harness of the property is executed symbolically over the bitcode of the current sources and
every obligation is sent to the solver.  exit 0: all discharged; exit 1 + VIOLATION: an obligation
failed.  Where the verifier cannot decide an obligation (unsupported construct, no solver
answer, budget) the same harness is run natively on generated inputs as a bounded stand-in and the
evidence says so."""
import glob
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vf import build, runner, props  # noqa: E402

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
TOTAL = float(os.environ.get('VF_TOTAL', '1500' if TIER == 'thorough' else '640'))


def child(q, path, fn, cfg, opts):
    try:
        r = runner.run(path, fn, cfg, opts)
    except BaseException as e:   # noqa
        r = {'fn': fn, 'cfg': cfg, 'obligations': 0, 'discharged': 0, 'failures': [], 'incomplete': ['crash %r' % (e,)],
             'covers': {}, 'paths': 0, 'asserts': 0, 'labels': [], 'funcs': [], 'models': [], 'loops': [],
             'unrolled': [], 'uninit': {}, 'havoc': 0, 'steps': 0, 'solver_s': 0, 'queries': 0, 'wall_s': 0}
    q.send(r)
    q.close()
    os._exit(0)


def run_jobs(jobs, deadline, seen=None):
    """jobs: list of (spec, path, fn, cfg, opts) -> results in order; seen(i, result) is told each
    result as it comes and returns True to stop"""
    ctx = mp.get_context('fork')
    res = [None] * len(jobs)
    pend = list(range(len(jobs)))
    live = {}
    while pend or live:
        while pend and len(live) < 8:
            i = pend.pop(0)
            spec, path, fn, cfg, opts = jobs[i]
            left = deadline - time.time()
            if left < 5:
                res[i] = blank(fn, cfg, 'time budget of the check exhausted')
                continue
            o = dict(opts)
            o['budget'] = min(o.get('budget', 700 if TIER == 'thorough' else 240), left)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, path, fn, cfg, o))
            p.start()
            b.close()
            live[i] = (p, a, time.time() + o['budget'] + 90)
        done = []
        mp.connection.wait([a for p, a, t in live.values()], timeout=0.5)
        for i, (p, a, t) in live.items():
            if a.poll():
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = blank(jobs[i][2], jobs[i][3], 'worker died')
                done.append(i)
            elif not p.is_alive() or time.time() > t:
                res[i] = blank(jobs[i][2], jobs[i][3], 'worker died' if not p.is_alive() else 'worker hung')
                done.append(i)
        for i in done:
            p, a, t = live.pop(i)
            if p.is_alive():
                p.join(0.2)
                if p.is_alive():
                    p.kill()
            p.join()
            a.close()
        if seen and any([seen(i, res[i]) for i in done]):
            for p, a, t in live.values():
                p.kill()
                p.join()
            return [r or blank(j[2], j[3], 'stopped: a violation was found') for j, r in zip(jobs, res)]
    return res


def blank(fn, cfg, why):
    return {'fn': fn, 'cfg': cfg, 'obligations': 0, 'discharged': 0, 'failures': [], 'incomplete': [why],
            'covers': {}, 'paths': 0, 'asserts': 0, 'labels': [], 'funcs': [], 'models': [], 'loops': [],
            'unrolled': [], 'uninit': {}, 'havoc': 0, 'steps': 0, 'solver_s': 0, 'queries': 0, 'wall_s': 0}


def native_run(exe, fn, cfg, args, tmo):
    """-> (failed, output)"""
    d = tempfile.mkdtemp(prefix='vf')
    try:
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=0:max_malloc_fill_size=1000000:malloc_fill_byte=190:abort_on_error=0:exitcode=99'
        env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98:print_stacktrace=1'
        try:
            p = subprocess.run([exe, d, fn, str(cfg)] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=tmo, env=env, text=True, errors='replace')
        except subprocess.TimeoutExpired as e:
            return False, 'timeout'
        out = p.stdout[-6000:]
        if p.returncode in (0, 2, 77):
            return False, out
        if 'allocation-size-too-big' in out or 'out of memory' in out or 'requested allocation size' in out:
            return False, out
        return True, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    prop = sys.argv[1]
    P = props.PROPS[prop]
    t0 = time.time()
    deadline = t0 + TOTAL
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    rdir = VERIF + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob('%s/%s-*' % (rdir, prop)):
        os.unlink(f)
    build.clean_old()
    specs = []
    jobs = []
    for j in P['jobs']:
        if j.get('tier') == 'thorough' and TIER != 'thorough':
            continue
        if j['spec'] not in specs:
            specs.append(j['spec'])
    paths = {}
    undecided = []
    try:
        build.base()
        for s in specs:
            paths[s] = build.module(s)
            runner.prepare(paths[s])
    except build.BuildError as e:
        undecided.append('bitcode build failed: ' + str(e)[-1500:])
    for j in P['jobs']:
        if j.get('tier') == 'thorough' and TIER != 'thorough':
            continue
        cfgs = j['cfgs']
        if TIER == 'quick' and 'quick' in j:
            cfgs = j['quick']
        for c in cfgs:
            jobs.append((j['spec'], paths.get(j['spec']), j['fn'], c, j.get('opts', {})))
    # ---- judge
    known = load_known(prop)
    violations, unproved, notes = [], [], []
    native = {}

    def exe(spec):
        if spec not in native:
            try:
                native[spec] = build.native(spec)
            except build.BuildError as e:
                native[spec] = None
                notes.append('native build failed: ' + str(e)[-800:])
        return native[spec]

    bounded = []

    def judge(i, r):
        """replays the failed obligations of a finished harness; True: a violation to report"""
        spec, path, fn, cfg, opts = jobs[i]
        rep = None
        for n, f in enumerate(r['failures']):
            rp = '%s/%s-%s-%s-%d.txt' % (rdir, prop, fn, cfg, n)
            with open(rp, 'w') as o:
                o.write('# property %s, harness specs/%s.cpp:%s(%s)\n# failed obligation: %s [%s] at %s, solver: %s\n'
                        % (prop, spec, fn, cfg, f['label'], f['kind'], f['where'], f['verdict']))
                o.write('# call stack: %s\n' % ' > '.join(f['stack']))
                for l in f['inputs'] or []:
                    o.write(l + '\n')
            ok, out = False, ''
            if f['inputs'] and exe(spec):
                ok, out = native_run(exe(spec), fn, cfg, ['replay', rp], 120)
            with open(rp, 'a') as o:
                o.write('# native replay: %s\n' % ('REPRODUCED' if ok else 'not reproduced'))
                for l in out.splitlines()[:60]:
                    o.write('#   ' + l + '\n')
            f['reproduced'] = ok
            f['replay'] = rp
            if ok:
                rep = f
                break
        hard = [f for f in r['failures'] if f['kind'] != 'poison']
        if r['failures'] and not rep and not hard:
            notes.append('%s(%s): %s at %s possible, not confirmed by the replay; its result was taken as arbitrary' % (
                fn, cfg, r['failures'][0]['label'], r['failures'][0]['where']))
        r['failures'] = hard
        if rep:
            violations.append((spec, fn, cfg, rep, ''))
        elif r['failures']:
            unproved.append((spec, fn, cfg, r))
        vac = [k for k, v in r['covers'].items() if not v]
        if not rep and not r['failures'] and not r['incomplete'] and (r['asserts'] == 0 or vac or not r['covers']):
            r['incomplete'].append('vacuous: asserts=%d uncovered=%s' % (r['asserts'], vac))
        if r['incomplete'] and not rep:
            bounded.append((spec, fn, cfg, r))
        return bool(rep) and not match_known(known, violations[-1])

    if undecided:
        results = [blank(j[2], j[3], undecided[0]) for j in jobs]
        for i, r in enumerate(results):
            judge(i, r)
    else:
        results = run_jobs(jobs, deadline - 60, judge)
    # ---- bounded stand-in for whatever the verifier did not decide
    stand = []
    todo = bounded + [u for u in unproved if u not in bounded]
    if todo and all(match_known(known, v) for v in violations):
        left = max(20.0, min(deadline - time.time() - 30, 240.0))
        per = max(3.0, min(30.0, left * 8 / max(1, len(todo))))

        def fb(x):
            spec, fn, cfg, r = x
            e = exe(spec)
            if not e:
                return (x, None, 'no native build')
            return (x,) + native_run(e, fn, cfg, ['random', str(SEED), '%.1f' % per], per + 120)
        for s in set(x[0] for x in todo):
            exe(s)
        with ThreadPoolExecutor(8) as ex:
            for x, bad, out in ex.map(fb, todo):
                spec, fn, cfg, r = x
                if bad:
                    rp = '%s/%s-%s-%s-random.txt' % (rdir, prop, fn, cfg)
                    with open(rp, 'w') as o:
                        o.write('# property %s, harness specs/%s.cpp:%s(%s), generated inputs, seed %d\n' % (prop, spec, fn, cfg, SEED))
                        for l in out.splitlines():
                            o.write('#   ' + l + '\n')
                    violations.append((spec, fn, cfg, {'label': 'native run fails', 'replay': rp, 'kind': 'bounded',
                                                       'where': ''}, ''))
                else:
                    stand.append({'harness': fn, 'cfg': cfg, 'why': (r['incomplete'] or ['failure not reproduced'])[0][-400:],
                                  'native': (out or '').strip().splitlines()[-1:]})
        if all(match_known(known, v) for v in violations):
            for spec, fn, cfg, r in unproved:
                if r['havoc']:
                    continue      # the abstraction of a loop may be too coarse: undecided
                f = r['failures'][0]
                violations.append((spec, fn, cfg, f, ' no-failing-input-found'))
    # ---- known findings
    out_lines = []
    real = []
    seenk = set()
    for v in violations:
        k = match_known(known, v)
        if k:
            if k['text'] not in seenk:
                seenk.add(k['text'])
                out_lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
        else:
            real.append(v)
    write_evidence(prop, P, jobs, results, stand, real, notes, t0)
    for l in out_lines:
        print(l)
    for spec, fn, cfg, f, tail in real[:5]:
        print('failed obligation: %s [%s] %s in %s(%s)' % (f['label'], f['kind'], f['where'], fn, cfg))
        print('VIOLATION property=%s replay=%s%s' % (prop, f['replay'], tail))
    nob = sum(r['obligations'] for r in results)
    nd = sum(r['discharged'] for r in results)
    print('%s: %d harness instances, %d obligations, %d discharged, %d bounded stand-ins, %.0f s'
          % (prop, len(jobs), nob, nd, len(stand), time.time() - t0))
    if os.environ.get('VF_VERBOSE'):
        for s in stand:
            print('  bounded:', s)
        for (spec, path, fn, cfg, opts), r in sorted(zip(jobs, results), key=lambda x: -x[1]['wall_s'])[:8]:
            print('  ', fn, cfg, r['wall_s'], 's obl', r['obligations'], 'unrolled', len(r['unrolled']))
    if real:
        return 1
    if build_broken(results) and not stand:
        return 2
    return 0


def build_broken(results):
    return all(r['obligations'] == 0 for r in results)


def load_known(prop):
    try:
        k = json.load(open(VERIF + '/known_findings.json'))
    except OSError:
        return []
    return [x for x in k.get('findings', []) if x['property'] == prop]


def match_known(known, v):
    spec, fn, cfg, f, tail = v
    for k in known:
        if k['harness'] == fn and (k.get('cfgs') is None or cfg in k['cfgs']) and f['label'] in k['labels']:
            return k
    return None


def write_evidence(prop, P, jobs, results, stand, real, notes, t0):
    funcs = sorted(set(f for r in results for f in r['funcs']))
    rf = sorted(f for f in funcs if 'sedaman' in f)
    mods = sorted(set(f for r in results for f in r['models']))
    loops_ = sorted(set((l[1], l[2]) for r in results for l in r['loops'] if l[1].startswith('src/') or l[1].startswith('include/')))
    cov = {
        'obligations': sum(r['obligations'] for r in results),
        'discharged': sum(r['discharged'] for r in results),
        'checker_cmd': 'python3-vt check.py %s (own VC generator over clang-18 bitcode of /repo/src; z3 in process, cvc5 and z3 CLI as second opinion)' % prop,
        'trusted_base': ['clang 18 front end and the LLVM simplification pipeline in vf/build.py',
                         'the VC generator in vf/ (symbolic semantics of LLVM IR, loop induction)', 'z3, cvc5'] +
                        ['assumed contract: ' + m for m in mods],
        'harness_instances': len(jobs),
        'fully_proved_instances': sum(1 for r in results if not r['incomplete'] and not r['failures'] and r['asserts']),
        'assertion_obligations': sum(r['asserts'] for r in results),
        'assertion_labels': sorted(set(l for r in results for l in r['labels'])),
        'library_functions_under_contract': rf[:400],
        'library_function_count': len(rf),
        'all_function_count': len(funcs),
        'loops_closed_by_induction': ['%s:%s' % l for l in loops_],
        'loops_unrolled_completely_or_to_bound': sorted(set(u[0] for r in results for u in r['unrolled']))[:60],
        'solver_seconds': round(sum(r['solver_s'] for r in results), 1),
        'solver_queries': sum(r['queries'] for r in results),
        'ir_instructions_executed': sum(r['steps'] for r in results),
        'bounded_stand_ins': stand,
        'instances': [{'harness': r['fn'], 'cfg': r['cfg'], 'obligations': r['obligations'], 'discharged': r['discharged'],
                       'wall_s': r['wall_s'], 'undecided': r['incomplete'][:2]} for r in results][:400],
    }
    if P.get('explanation'):
        cov['explanation'] = P['explanation']
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': P.get('level', 'proof'), 'coverage': cov,
          'assumptions': props.ASSUMPTIONS + P.get('assumptions', []) + notes,
          'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    tmp = '%s/evidence/.%s.tmp' % (VERIF, prop)
    with open(tmp, 'w') as o:
        json.dump(ev, o, indent=1)
    os.replace(tmp, '%s/evidence/%s.json' % (VERIF, prop))


if __name__ == '__main__':
    sys.exit(main())

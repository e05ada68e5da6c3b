"""run one harness symbolically"""
import time
import traceback
import z3
from . import llvmc, engine, ops, loops, models
from .values import *

_mods = {}


def load(path):
    m = _mods.get(path)
    if m is None:
        _mods.clear()
        m = _mods[path] = llvmc.Module(path)
    return m


def model_inputs(eng, model):
    """textual inputs for the native replay"""
    out = []
    for n, t in eng.inputs:
        if isinstance(t, tuple):
            _, arr, size = t
            sz = size if type(size) is int else model.eval(size, model_completion=True).as_long()
            a = model.eval(arr, model_completion=True)
            ent = {}
            d = 0
            x = a
            while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
                k, v = x.arg(1), x.arg(2)
                if z3.is_bv_value(k) and z3.is_bv_value(v):
                    ent.setdefault(k.as_long(), v.as_long())
                x = x.arg(0)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_CONST_ARRAY and z3.is_bv_value(x.arg(0)):
                d = x.arg(0).as_long()
            elif z3.is_as_array(x) or not z3.is_app(x):
                try:
                    fi = model[z3.get_as_array_func(x)]
                    for i in range(fi.num_entries()):
                        e = fi.entry(i)
                        ent[e.arg_value(0).as_long()] = e.value().as_long()
                    ev = fi.else_value()
                    d = ev.as_long() if z3.is_bv_value(ev) else 0
                except z3.Z3Exception:
                    pass
            out.append('f %s %d %d %s' % (n, sz, d, ' '.join('%d:%d' % p for p in sorted(ent.items()))))
        else:
            v = model.eval(t, model_completion=True)
            out.append('v %s %x' % (n, v.as_long()))
    return out


_prep = {}


def prepare(path):
    """load a module and run its static constructors; children forked afterwards reuse the state"""
    if path not in _prep:
        m = llvmc.Module(path)
        eng = engine.Engine(m, models.M)
        err = None
        st = None
        try:
            st = eng.run_ctors(eng.init_state())
        except Exception as e:
            err = 'static constructors: %r' % (e,)
        _prep[path] = (eng, st, err)


def run(path, fn, cfg, opts=None):
    """-> dict(result, ...).  A prepared engine is consumed: run in a forked child, once."""
    opts = opts or {}
    t0 = time.time()
    if path not in _prep:
        prepare(path)
    eng, st, perr = _prep.pop(path)
    m = eng.m
    eng.log = opts.get('log') or (lambda s: None)
    eng.stop_on_failure = False
    eng.timeout_ms = opts.get('timeout_ms', 20000)
    eng.solver.set('timeout', eng.timeout_ms)
    eng.deadline = t0 + opts.get('budget', 600)
    if 'unroll' in opts:
        eng.unroll_limit = opts['unroll']
    err = None
    paths = 0
    try:
        if perr:
            raise Unsupported(perr)
        if fn not in m.fnref:
            raise Unsupported('no harness ' + fn)
        outs = eng.call(st, fn, [cfg & MASK[32]] if cfg is not None else [])
        for (s, kind, v) in outs:
            paths += 1
            if kind == 'throw':
                eng.oblig(s, 0, 'exception escapes the harness', 'assert')
    except engine.ViolationFound:
        pass
    except Unsupported as e:
        err = 'unsupported: %s at %s' % (e, eng.where())
    except engine.Budget as e:
        err = str(e)
    except engine.NeedSummary:
        err = 'loop escaped its summary'
    except RecursionError:
        err = 'recursion'
    except z3.Z3Exception as e:
        err = 'solver exception: %s\n%s' % (e, traceback.format_exc()[-1500:])
    except Exception:
        err = 'engine error: ' + traceback.format_exc()[-2500:] + ' at ' + eng.where()
    if err:
        eng.incomplete.append(err)
    fails = []
    for f in eng.failures:
        inp = None
        if f['model'] is not None:
            try:
                inp = model_inputs(eng, f['model'])
            except Exception as e:
                inp = None
        fails.append({'label': f['label'], 'kind': f['kind'], 'where': f['where'], 'verdict': f['verdict'],
                      'inputs': inp, 'stack': list(f['stack'])[-12:]})
    nob = sum(o['count'] for o in eng.obl.values())
    bad = sum(o['bad'] for o in eng.obl.values())
    return {'fn': fn, 'cfg': cfg, 'obligations': nob, 'discharged': nob - bad, 'failures': fails,
            'incomplete': eng.incomplete[:20], 'covers': eng.covers, 'paths': paths,
            'asserts': sum(o['count'] for o in eng.obl.values() if o['kind'] == 'assert'),
            'labels': sorted(set(o['label'] for o in eng.obl.values() if o['kind'] == 'assert')),
            'funcs': sorted(eng.funcs_seen), 'models': sorted(eng.used_models),
            'loops': [list(k) + [v] for k, v in eng.loops_summarised.items()],
            'unrolled': [[k[0], v] for k, v in eng.loops_unrolled.items()],
            'uninit': eng.uninit_loads, 'havoc': eng.havocs, 'steps': eng.steps,
            'solver_s': round(eng.solver_time, 3), 'queries': eng.nqueries, 'wall_s': round(time.time() - t0, 3)}

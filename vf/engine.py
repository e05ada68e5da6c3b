"""Symbolic executor / verification-condition generator for LLVM bitcode.

Every function is executed on symbolic values over all paths (states are merged at
post-dominators); loops whose trip count is symbolic are closed by induction (loops.py);
each assertion, memory access, conversion and contract precondition met on the way is an
obligation decided by an SMT solver.  Nothing is cut silently: whatever the engine cannot
follow is recorded in self.incomplete, and then the run does not count as a proof."""
import time
import sys
import z3
from .values import *
from . import llvmc

sys.setrecursionlimit(1000000)

MAXALLOC = 1 << 46


class NeedSummary(Exception):
    def __init__(self, uid):
        self.uid = uid


class Fail(Exception):
    """summary attempt failed"""


class Budget(Exception):
    pass


class ViolationFound(Exception):
    pass


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ('size', 'data', 'layers', 'base', 'kind', 'name')

    def __init__(self, size, kind, name='', base=None):
        self.size = size
        self.data = {}
        self.layers = []
        self.base = base        # None: uninitialised; bytes; 'zero'; ('arr', z3 array)
        self.kind = kind        # global const alloca heap file exc
        self.name = name

    def clone(self):
        o = Obj.__new__(Obj)
        o.size = self.size
        o.data = dict(self.data)
        o.layers = list(self.layers)
        o.base = self.base
        o.kind = self.kind
        o.name = self.name
        return o


class Dead(Exception):
    """this path ends here"""


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class IntIte:
    """if-then-else over two concrete integers whose width is not known yet"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def term(self, t):
        a = self.a.term(t) if isinstance(self.a, IntIte) else self.a
        b = self.b.term(t) if isinstance(self.b, IntIte) else self.b
        if t is None or (t.kind == 'int' and t.w == 1):
            if type(a) is not int or type(b) is not int:
                return simp(z3.If(self.c, boolv(a), boolv(b)))
            if a == b:
                return a
            return self.c if a else z3.Not(self.c)
        w = t.w if t.kind != 'ptr' else 64
        if t.kind == 'ptr':
            return PIte(self.c, a, b)
        return z3.If(self.c, bv(a, w), bv(b, w))


class BytePart:
    """byte i of an n-byte value"""
    __slots__ = ('v', 'n', 'i')

    def __init__(self, v, n, i):
        self.v = v
        self.n = n
        self.i = i

    def term(self):
        v = self.v
        if isinstance(v, FV):
            v = to_bits(v, v.k)
        if type(v) is int:
            return (v >> (8 * self.i)) & 255
        if isinstance(v, (Ptr, PIte)):
            if isinstance(v, Ptr):
                a = add64(v.o << 40, v.off)
                if type(a) is int:
                    return (a >> (8 * self.i)) & 255
                return z3.Extract(8 * self.i + 7, 8 * self.i, a)
            raise Unsupported('byte of a conditional pointer')
        if self.n == 1 and v.size() == 8:
            return v
        return z3.simplify(z3.Extract(8 * self.i + 7, 8 * self.i, v))


def byte_of(e):
    v, n, i = e
    if v is UNDEF:
        return UNDEF
    if type(v) is int:
        return (v >> (8 * i)) & 255
    if n == 1:
        return v
    return BytePart(v, n, i)


def same(a, b):
    if a is b:
        return True
    if type(a) is int or type(b) is int:
        return type(a) is type(b) and a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.get_id() == b.get_id()
    return False


def samev(a, b):
    if a is b:
        return True
    if type(a) is int and type(b) is int:
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o == b.o and same(a.off, b.off)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.get_id() == b.get_id()
    if isinstance(a, FV) and isinstance(b, FV):
        if a.dy and b.dy:
            return same(a.dy[0], b.dy[0]) and same(a.dy[1], b.dy[1])
        if a._fp is not None and b._fp is not None:
            return a._fp.get_id() == b._fp.get_id()
        return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(samev(x, y) for x, y in zip(a, b))
    if isinstance(a, PIte) and isinstance(b, PIte):
        return same(a.c, b.c) and samev(a.a, b.a) and samev(a.b, b.b)
    return False


def whole(d, off, e):
    for i in range(1, e[1]):
        f = d.get(off + i)
        if f is None or f[0] is not e[0] or f[2] != i:
            return False
    return True


def is_neg(a, b):
    return (z3.is_not(a) and a.arg(0).get_id() == b.get_id()) or (z3.is_not(b) and b.arg(0).get_id() == a.get_id())


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def padd(p, off):
    if type(off) is int and off == 0:
        return p
    if isinstance(p, Ptr):
        return Ptr(p.o, norm(add64(p.off, off)) if not (type(p.off) is int and type(off) is int)
                   else (p.off + off) & MASK[64])
    if isinstance(p, PIte):
        return PIte(p.c, padd(p.a, off), padd(p.b, off))
    if p is UNDEF:
        return UNDEF
    return add64(p, off)


def split_ptr(p):
    """a pointer to one of a few constant offsets as a choice between pointers"""
    if isinstance(p, Ptr) and type(p.off) is not int and z3.is_app_of(p.off, z3.Z3_OP_ITE):
        n = [0]

        def go(t):
            n[0] += 1
            if n[0] > 16:
                return None
            if z3.is_bv_value(t):
                return Ptr(p.o, t.as_long())
            if not z3.is_app_of(t, z3.Z3_OP_ITE):
                return None
            a, b = go(t.arg(1)), go(t.arg(2))
            if a is None or b is None:
                return None
            return PIte(t.arg(0), a, b)
        q = go(p.off)
        if q is not None:
            return q
    return p


def subst_val(v, k, j):
    """v[k := j]"""
    if type(v) is int or v is UNDEF:
        return v
    jj = bv(j, 64)
    if isinstance(v, z3.ExprRef):
        return simp(z3.substitute(v, (k, jj)))
    if isinstance(v, Ptr):
        return Ptr(v.o, subst_val(v.off, k, j))
    if isinstance(v, PIte):
        return PIte(subst_val(v.c, k, j), subst_val(v.a, k, j), subst_val(v.b, k, j))
    if isinstance(v, FV):
        dy = None
        if v.dy is not None:
            dy = (subst_val(v.dy[0], k, j), subst_val(v.dy[1], k, j))
        fp = z3.substitute(v._fp, (k, jj)) if v._fp is not None else None
        return FV(v.k, fp, dy, v.nz, subst_val(v.src32, k, j) if v.src32 is not None else None)
    raise Unsupported('substitution')


class State:
    __slots__ = ('mem', 'own', 'pc', 'exc', 'caught', 'ghost')

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.pc = list(self.pc)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.ghost = dict(self.ghost)
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.clone()
            self.mem[oid] = o
            self.own.add(oid)
        return o


class Frame:
    __slots__ = ('F', 'regs', 'allocas', 'lctx')

    def copy(self):
        f = Frame.__new__(Frame)
        f.F = self.F
        f.regs = list(self.regs)
        f.allocas = list(self.allocas)
        f.lctx = dict(self.lctx)
        return f


class DataLayer:
    """concrete-offset bytes pushed below a symbolic write"""
    __slots__ = ('data', 'lo', 'hi')

    def __init__(self, data):
        self.data = data
        self.lo = min(data)
        self.hi = max(data) + 1


class CopyLayer:
    __slots__ = ('lo', 'hi', 'src', 'shift')

    def __init__(self, lo, hi, src, shift):
        self.lo = lo
        self.hi = hi
        self.src = src
        self.shift = shift


class FillLayer:
    __slots__ = ('lo', 'hi', 'val')

    def __init__(self, lo, hi, val):
        self.lo = lo
        self.hi = hi
        self.val = val


class StoreLayer:
    __slots__ = ('lo', 'hi', 'n', 'val')

    def __init__(self, lo, n, val):
        self.lo = lo
        self.n = n
        self.hi = norm(lo + n)
        self.val = val


class SumLayer:
    """bytes written by iterations 0..cnt-1 of a summarised loop: iteration j wrote, for each
    entry (c, n, val), the n bytes of val[kvar:=j] at base+stride*j+c"""
    __slots__ = ('lo', 'hi', 'stride', 'cnt', 'kvar', 'entries')

    def __init__(self, lo, stride, cnt, kvar, entries):
        self.lo = lo
        self.stride = stride
        self.cnt = cnt
        self.kvar = kvar
        self.entries = entries
        self.hi = norm(add64(lo, mul64(cnt, stride)))


class OpaqueLayer:
    """unknown content: uninterpreted function of the offset"""
    __slots__ = ('lo', 'hi', 'uf')

    def __init__(self, lo, hi, uf):
        self.lo = lo
        self.hi = hi
        self.uf = uf


def add64(a, b):
    if type(a) is int and type(b) is int:
        return (a + b) & MASK[64]
    return bv(a, 64) + bv(b, 64)


def sub64(a, b):
    if type(a) is int and type(b) is int:
        return (a - b) & MASK[64]
    return bv(a, 64) - bv(b, 64)


def mul64(a, b):
    if type(a) is int and type(b) is int:
        return (a * b) & MASK[64]
    return bv(a, 64) * bv(b, 64)


class Obligation:
    __slots__ = ('label', 'kind', 'where', 'count', 'status', 'time')


LINC = {}
BOUND = 1 << 40


def equations(c):
    if c.decl().kind() == z3.Z3_OP_AND:
        for x in c.children():
            yield from equations(x)
    elif c.decl().kind() == z3.Z3_OP_EQ and z3.is_bv(c.arg(0)):
        if z3.is_bv_value(c.arg(1)):
            yield c.arg(0), c.arg(1)
        elif z3.is_bv_value(c.arg(0)):
            yield c.arg(1), c.arg(0)


def one_of(c, a, b):
    """b where the condition c implies a == b, a where Not(c) does, as far as substituting x for the t of an equation
    t == x tells"""
    if not (b.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL) or a.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL)):
        return None
    for cond, x, y in ((z3.simplify(c), a, b), (z3.simplify(z3.Not(c)), b, a)):
        for t, v in equations(cond):
            d = z3.simplify(z3.substitute(z3.simplify(y), (t, v)) - z3.substitute(z3.simplify(x), (t, v)))
            if z3.is_bv_value(d) and d.as_long() == 0:
                return y
    return None


def lin_nowrap(t, bound=None):
    """(const, {atom: (max, coeff)}) such that t equals the sum as integers, or None"""
    if type(t) is int:
        return (t, {}) if t < 1 << 62 else None
    k = t.get_id()
    if k in LINC and (LINC[k][1] is not None or not LINC[k][3]):
        return LINC[k][1]
    c, at = linear(z3.simplify(t), 64)
    c = c - (1 << 64) if c >> 63 else c
    lo = hi = c
    out = {}
    asked = False
    for i, (a, m) in at.items():
        m = m - (1 << 64) if m >> 63 else m
        if a.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == 0:
            top = (1 << (64 - a.arg(0).size())) - 1
        elif z3.is_const(a) and bound:
            asked = True
            if not bound(a):
                return None
            top = BOUND
        else:
            asked = asked or z3.is_const(a)
            out = None
            break
        out[i] = (top, m)
        lo += min(0, m * top)
        hi += max(0, m * top)
    r = None
    if out is not None and 0 <= lo and hi < 1 << 62:
        r = (c, out)
    if len(LINC) > 20000:
        LINC.clear()
    if asked and bound:
        return r            # holds on this path only
    LINC[k] = (t, r, at, asked)    # keeps the terms, and so their numbers, alive
    return r


def least(a, b):
    """least value of a - b"""
    lo = a[0] - b[0]
    for i in set(a[1]) | set(b[1]):
        x, y = a[1].get(i), b[1].get(i)
        m = (x[1] if x else 0) - (y[1] if y else 0)
        lo += min(0, m * (x or y)[0])
    return lo


def quick_rel(off, n, lo, hi, bound=None):
    a = lin_nowrap(off, bound)
    if a is None:
        return None
    l, h = lin_nowrap(lo, bound), lin_nowrap(hi, bound)
    if h is not None and least(a, h) >= 0:
        return 'out'
    if l is not None and least(l, a) >= n:
        return 'out'
    if l is not None and h is not None and least(a, l) >= 0 and least(h, a) >= n:
        return 'in'
    return None


class Engine:
    def __init__(self, module, models, timeout_ms=20000, log=None):
        self.m = module
        self.models = models
        self.nextoid = 1
        self.gaddr = {}
        self.fnoid = {}
        self.oidfn = {}
        self.fresh_n = 0
        self.obl = {}
        self.failures = []
        self.incomplete = []
        self.covers = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.bcache = {}
        self.qsolver = z3.Solver()
        self.qsolver.set('timeout', 5000)
        self.timeout_ms = timeout_ms
        self.solver_time = 0.0
        self.nqueries = 0
        self.spec = 0            # >0: speculative execution, obligations are not recorded
        self.inputs = []         # (name, term) nondet inputs in creation order
        self.steps = 0
        self.max_steps = 60_000_000
        self.deadline = None
        self.funcs_seen = {}
        self.unroll_limit = 40
        self.lemmas = []
        self.loops_summarised = {}
        self.loops_unrolled = {}
        self.stop_on_failure = True
        self.typeids = {}
        self.cache = {}
        self.log = log or (lambda s: None)
        self.disp = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('op_')}
        self.cur = None
        self.ufcount = 0
        self.used_models = set()
        self.uninit_loads = {}
        self.inputmap = {}
        self.havocs = 0
        self.max_failures = 4

    # ---------------------------------------------------------------- fresh things
    def fresh(self, w, name='t'):
        self.fresh_n += 1
        if w == 1:
            return z3.Bool('%s!%d' % (name, self.fresh_n))
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    def new_obj(self, st, size, kind, name='', base=None):
        oid = self.nextoid
        self.nextoid += 1
        st.mem[oid] = Obj(size, kind, name, base)
        st.own.add(oid)
        return oid

    # ---------------------------------------------------------------- solver
    def check(self, conds, solver=None):
        """'sat' / 'unsat' / 'unknown' for the conjunction"""
        s = solver or self.qsolver
        t = time.time()
        s.push()
        for c in conds:
            s.add(c)
        r = s.check()
        self.last_model = None
        if r == z3.sat:
            try:
                self.last_model = s.model()
            except z3.Z3Exception:
                pass
        s.pop()
        dt = time.time() - t
        self.solver_time += dt
        if dt > 1:
            self.log('slow query %.1fs %s at %s: %s' % (dt, r, self.where(), str(conds[-1])[:300].replace('\n', ' ')))
        self.nqueries += 1
        return str(r)

    def feasible(self, st, c):
        c = simp(boolv(c))
        if type(c) is int:
            return bool(c)
        key = (tuple(x.get_id() for x in st.pc), c.get_id())
        r = self.cache.get(key)
        if r is None:
            r = (self.check(st.pc + [c]) != 'unsat', list(st.pc), c)
            self.cache[key] = r
        return r[0]

    def must(self, st, c):
        c = simp(boolv(c))
        if type(c) is int:
            return bool(c)
        return not self.feasible(st, z3.Not(c))

    def decide(self, st, c):
        c = simp(boolv(c))
        if type(c) is int:
            return bool(c)
        if not self.feasible(st, z3.Not(c)):
            return True
        if not self.feasible(st, c):
            return False
        return None

    def assume(self, st, c):
        c = simp(boolv(c))
        if type(c) is int:
            return bool(c)
        st.pc.append(c)
        return True

    def where(self, inst=None):
        i = inst or self.cur
        if i is None:
            return '?'
        return '%s:%d' % (i.file.replace('/repo/', ''), i.line)

    def oblig(self, st, c, label, kind, inst=None):
        """obligation: c must hold on this path.  Returns True when discharged.  On failure the
        violation is recorded and the path continues under the assumption c."""
        c = simp(boolv(c))
        if self.spec:
            if type(c) is int:
                return bool(c)
            if not self.must(st, c):
                # in speculative mode just assume
                if not self.assume(st, c):
                    return False
            return True
        where = self.where(inst)
        key = (label, kind, where if kind != 'assert' else '')
        o = self.obl.get(key)
        if o is None:
            o = self.obl[key] = {'label': label, 'kind': kind, 'where': where, 'count': 0, 'bad': 0, 'time': 0.0}
        o['count'] += 1
        if type(c) is int:
            if c:
                return True
            # violated outright, provided the path is feasible
            r = self.check(st.pc, self.solver)
            model = self.last_model
            if r == 'unsat':
                return False
            o['bad'] += 1
            self.record_failure(st, label, kind, where, model, r)
            return False
        t = time.time()
        r = self.check(st.pc + [z3.Not(c)], self.solver)
        model = self.last_model
        if r == 'unknown':
            r, model = self.second_opinion(st.pc + [z3.Not(c)])
        o['time'] += time.time() - t
        if r == 'unsat':
            return True
        o['bad'] += 1
        if r == 'unknown' and kind == 'poison':
            return False
        if r == 'unknown':
            self.incomplete.append('solver gave no answer: %s (%s) at %s' % (label, kind, where))
        else:
            if kind != 'poison' or o['bad'] <= 3:
                model = self.small_model(st.pc + [z3.Not(c)], model)
                self.record_failure(st, label, kind, where, model, r)
        if kind == 'poison':
            return False
        return self.assume(st, c)

    def poison(self, st, ok, val, w, label, inst=None):
        """val where ok holds, an arbitrary value elsewhere: the compiler may have hoisted the
        operation to where its result is not used, so a failure here counts only when the
        native replay confirms it"""
        ok = simp(boolv(ok))
        if inst is not None and not inst.file.startswith('/repo'):
            if ok if type(ok) is int else self.must(st, ok):
                return val
        elif self.oblig(st, ok, label, 'poison', inst):
            return val
        if type(ok) is int:
            return self.fresh(w, 'poison')
        return simp(z3.If(boolv(ok), bv(val, w), self.fresh(w, 'poison')))

    def small_model(self, conds, model):
        """prefer counterexamples with small values for inputs marked as sizes"""
        sizes = [t for n, t in self.inputs if n.startswith('n_') and isinstance(t, z3.BitVecRef)]
        if not sizes:
            return model
        for lim in (1, 2, 4, 16, 256, 5000, 70000, 10 ** 6):
            r = self.check(conds + [z3.ULE(t, z3.BitVecVal(lim, t.size())) for t in sizes], self.qsolver)
            if r == 'sat':
                return self.last_model
        return model

    def second_opinion(self, conds):
        from .solvers import external
        r = external(conds)
        return r, None

    def record_failure(self, st, label, kind, where, model, r):
        vals = {}
        if model is not None:
            for n, t in self.inputs:
                if isinstance(t, tuple):     # file: ('file', arr, sizeterm)
                    continue
                v = model.eval(t, model_completion=True)
                vals[n] = v
        self.failures.append({'label': label, 'kind': kind, 'where': where, 'model': model, 'vals': vals,
                              'verdict': r, 'stack': list(self.stack)})
        if self.stop_on_failure or sum(f['kind'] != 'poison' for f in self.failures) >= self.max_failures:
            raise ViolationFound()

    # ---------------------------------------------------------------- globals
    def gptr(self, st, name):
        name = self.m.resolve(name)
        if name in self.m.fnref:
            oid = self.fnoid.get(name)
            if oid is None:
                oid = self.nextoid
                self.nextoid += 1
                self.fnoid[name] = oid
                self.oidfn[oid] = name
            return Ptr(oid, 0)
        oid = self.gaddr.get(name)
        if oid is None:
            oid = self.nextoid
            self.nextoid += 1
            self.gaddr[name] = oid
        if oid not in st.mem:
            ref = self.m.glref[name]
            t = self.m.ty(llvmc.GlobalVT(ref))
            init = llvmc.GlobalInit(ref)
            const = bool(llvmc.IsGlobalConst(ref))
            if not init:
                o = Obj(max(t.size, 8), 'const' if const else 'global', name, None)
                if t.size == 0:
                    o.size = 1 << 20
                st.mem[oid] = o
            else:
                o = Obj(t.size, 'const' if const else 'global', name, 'zero')
                st.mem[oid] = o
                st.own.add(oid)
                self.init_const(st, o, 0, self.m.const(init), t)
        return Ptr(oid, 0)

    def init_const(self, st, o, off, c, t):
        k = c[0]
        if k == 'z' or k == 'u':
            return
        if k == 'str':
            if off == 0 and len(c[2]) == o.size:
                o.base = c[2]
            else:
                for i, b in enumerate(c[2]):
                    if b:
                        o.data[off + i] = (b, 1, 0)
            return
        if k == 'agg':
            if t.kind == 'struct':
                for i, e in enumerate(c[2]):
                    self.init_const(st, o, off + t.offs[i], e, t.elems[i])
            else:
                for i, e in enumerate(c[2]):
                    self.init_const(st, o, off + i * t.elem.size, e, t.elem)
            return
        v = self.opval(st, None, c)
        n = t.ssize
        for i in range(n):
            o.data[off + i] = (v, n, i)

    def opval(self, st, fr, o):
        k = o[0]
        if k == 'r':
            return fr.regs[o[1]]
        if k == 'c':
            return o[1]
        if k == 'g':
            return self.gptr(st, o[1])
        if k == 'u':
            return UNDEF
        if k == 'z':
            return self.zero_of(o[1])
        if k == 'e':
            op, t, ops, tys = o[1]
            if op == 'gep':
                vals = [self.opval(st, fr, x) for x in ops]
                return self.gep(vals[0], t, vals[1:], tys[1:])
            vals = [self.opval(st, fr, x) for x in ops]
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                return vals[0]
            if op == 'sub':
                return self.ptr_sub(st, vals[0], vals[1])
            if op == 'add':
                return self.binop_add(vals[0], vals[1], t.w)
            if op == 'trunc':
                return vals[0]
            raise Unsupported('constant expression ' + op)
        if k == 'agg':
            return [self.opval(st, fr, x) for x in o[2]]
        if k == 'str':
            return list(o[2])
        raise Unsupported('operand ' + k)

    def zero_of(self, t):
        if t.kind == 'struct':
            return [self.zero_of(e) for e in t.elems]
        if t.kind in ('array', 'vector'):
            return [self.zero_of(t.elem) for _ in range(t.n)]
        return 0

    def undef(self, t, tag='undef'):
        if t.kind == 'int':
            return self.fresh(t.w, tag)
        if t.kind == 'ptr':
            return UNDEF
        if t.kind in ('double', 'float'):
            return self.fresh(t.w, tag)
        if t.kind == 'struct':
            return [self.undef(e) for e in t.elems]
        if t.kind in ('array', 'vector'):
            return [self.undef(t.elem) for _ in range(t.n)]
        raise Unsupported('undef of ' + t.kind)

    # ---------------------------------------------------------------- pointers
    def gep(self, p, srcty, idx, itys):
        off = 0
        t = srcty
        for n, (i, ty) in enumerate(zip(idx, itys)):
            if n == 0:
                sz = t.size
            elif t.kind == 'struct':
                off = add64(off, t.offs[i])
                t = t.elems[i]
                continue
            elif t.kind in ('array', 'vector'):
                t = t.elem
                sz = t.size
            else:
                raise Unsupported('gep into ' + t.kind)
            if type(i) is int:
                off = add64(off, sgn(i, ty.w) * sz)
            else:
                if i is UNDEF:
                    raise Unsupported('gep index undef')
                if isinstance(i, (Ptr, PIte)):
                    if sz != 1:
                        raise Unsupported('pointer used as index')
                    if type(off) is int and off == 0 and type(p) is int:
                        return padd(i, p)
                    raise Unsupported('pointer plus pointer')
                if ty.w < 64:
                    i = z3.SignExt(64 - ty.w, i)
                off = add64(off, mul64(i, sz))
        return padd(p, off)

    def ptr_sub(self, st, a, b, w=64):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o:
                return norm(sub64(a.off, b.off))
            return sub64(add64(a.o << 40, a.off), add64(b.o << 40, b.off))
        if isinstance(a, PIte):
            return self.ite(a.c, self.ptr_sub(st, a.a, b), self.ptr_sub(st, a.b, b), 64)
        if isinstance(b, PIte):
            return self.ite(b.c, self.ptr_sub(st, a, b.a), self.ptr_sub(st, a, b.b), 64)
        if isinstance(a, Ptr):
            return Ptr(a.o, norm(sub64(a.off, b)))
        if isinstance(b, Ptr):
            return sub64(a, add64(b.o << 40, b.off))
        return sub64(a, b)

    def ite(self, c, a, b, w):
        """if-then-else over values; w: bit width, or 'f'/'d' for floats, 'p' pointers"""
        if a is b:
            return a
        if type(c) is int:
            return a if c else b
        if isinstance(a, BytePart):
            a = a.term()
        if isinstance(b, BytePart):
            b = b.term()
        if type(a) is int and type(b) is int and a == b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                if type(a.off) is int and type(b.off) is int and a.off == b.off:
                    return a
                return Ptr(a.o, z3.If(c, bv(a.off, 64), bv(b.off, 64)))
            return PIte(c, a, b)
        if isinstance(a, FV) or isinstance(b, FV):
            k = a.k if isinstance(a, FV) else b.k
            da, db = as_dy(a, k), as_dy(b, k)
            if da and db and (type(da[1]) is int and type(db[1]) is int and da[1] == db[1]):
                nz = (isinstance(a, FV) and a.nz) or (isinstance(b, FV) and b.nz)
                return FV(k, None, (z3.If(c, bv(da[0], 64), bv(db[0], 64)), da[1]), nz)
            return FV(k, z3.If(c, to_fp(a, k), to_fp(b, k)))
        if isinstance(a, (list, tuple)):
            return [self.ite(c, x, y, None) for x, y in zip(a, b)]
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef) or w == 1:
            a2, b2 = boolv(a), boolv(b)
            return simp(z3.If(c, a2, b2))
        if w is None:
            w = a.size() if isinstance(a, z3.BitVecRef) else b.size()
        if w == 64:
            r = one_of(c, bv(a, w), bv(b, w))
            if r is not None:
                return r
        return z3.If(c, bv(a, w), bv(b, w))

    # ---------------------------------------------------------------- memory access
    def bounds(self, st, p, n, what):
        """obligation: [p, p+n) lies inside a live object.  Returns True if the path goes on."""
        if not isinstance(p, Ptr):
            self.log('bad pointer %r' % (p,))
            return self.oblig(st, 0, '%s through an invalid pointer' % what, 'memory')
        o = st.mem.get(p.o)
        if o is None:
            if p.o in self.oidfn:
                return self.oblig(st, 0, '%s of a function address' % what, 'memory')
            for name, oid in self.gaddr.items():
                if oid == p.o:
                    self.gptr(st, name)
                    o = st.mem[p.o]
                    break
            else:
                return self.oblig(st, 0, '%s of freed or out-of-scope memory' % what, 'memory')
        off, size = p.off, o.size
        if type(n) is int and n == 0:
            return True
        if type(off) is int and type(size) is int and type(n) is int:
            if off + n <= size:
                return True
            return self.oblig(st, 0, '%s out of bounds' % what, 'memory')
        c = z3.And(z3.ULE(bv(n, 64), bv(size, 64)), z3.ULE(bv(off, 64), bv(sub64(size, n), 64)))
        if type(n) is not int:
            c = z3.Or(bv(n, 64) == 0, c)
        return self.oblig(st, c, '%s out of bounds' % what, 'memory')

    def load(self, st, p, t):
        p = split_ptr(p)
        if isinstance(p, PIte):
            d = self.decide(st, p.c)
            if d is not None:
                return self.load(st, p.a if d else p.b, t)
            sa = st.fork()
            sa.pc.append(p.c)
            va = self.load(sa, p.a, t)
            sb = st.fork()
            sb.pc.append(z3.Not(p.c))
            vb = self.load(sb, p.b, t)
            return self.ite(p.c, va, vb, t.w)
        if t.kind == 'struct':
            return [self.load(st, padd(p, t.offs[i]), e) for i, e in enumerate(t.elems)]
        if t.kind in ('array', 'vector'):
            return [self.load(st, padd(p, i * t.elem.size), t.elem) for i in range(t.n)]
        n = t.ssize
        if not self.bounds(st, p, n, 'load'):
            raise Dead()
        v = self.rd(st, st.mem[p.o], p.off, n, p.o)
        if v is UNDEF:
            v = self.undef(t, 'uninit')
            if type(p.off) is int and v is not UNDEF:
                self.uninit_loads[self.where()] = self.uninit_loads.get(self.where(), 0) + 1
                self.raw_store(st, p.o, p.off, n, v)
            return self.fix_type(v, t)
        return self.fix_type(v, t)

    def fix_type(self, v, t):
        if t.kind == 'int':
            if isinstance(v, FV):
                v = to_bits(v, v.k)
            if t.w == 1:
                if type(v) is int:
                    return v & 1
                if isinstance(v, z3.BitVecRef):
                    return simp(z3.Extract(0, 0, v) == 1)
                return v
            if isinstance(v, z3.BoolRef):
                return bv(v, t.w)
            if isinstance(v, z3.BitVecRef) and v.size() > t.w:
                return z3.Extract(t.w - 1, 0, v)
            if type(v) is int:
                return v & MASK[t.w]
        return v

    def rd(self, st, o, off, n, oid=None):
        v = self.rd_(st, o, off, n)
        return v.term() if isinstance(v, BytePart) else v

    def rd_(self, st, o, off, n):
        """n bytes at off as a value (UNDEF when uninitialised)"""
        if type(off) is int:
            data = o.data
            e = data.get(off)
            if e is not None and e[2] == 0 and e[1] == n:
                v = e[0]
                if n == 1:
                    return v
                for i in range(1, n):
                    f = data.get(off + i)
                    if f is None or f[0] is not v or f[2] != i:
                        break
                else:
                    return v
            if e is None and data:
                for i in range(1, n):
                    if off + i in data:
                        e = 1
                        break
            if e is None:
                return self.rd_layers(st, o, len(o.layers) - 1, off, n)
            return self.assemble([self.rd_byte(st, o, off + i) for i in range(n)])
        if o.data:
            # read at symbolic offset over concrete cells
            lo = min(o.data)
            hi = max(o.data) + 1
            r = self.rel(st, off, n, lo, hi)
            if r == 'out':
                return self.rd_layers(st, o, len(o.layers) - 1, off, n)
            return self.rd_data(st, o, len(o.layers), DataLayer(o.data), off, n)
        return self.rd_layers(st, o, len(o.layers) - 1, off, n)

    def bounded(self, st, a):
        key = (a.get_id(),) + tuple(c if type(c) is int else c.get_id() for c in st.pc)
        r = self.bcache.get(key)
        if r is None:
            if len(self.bcache) > 5000:
                self.bcache.clear()
            r = self.bcache[key] = (self.must(st, z3.ULE(a, BOUND)), a, list(st.pc))
        return r[0]

    def rel(self, st, off, n, lo, hi):
        """'in' / 'out' / None for [off,off+n) versus [lo,hi) (all below 2^63)"""
        if type(off) is int and type(lo) is int and type(hi) is int:
            if off >= lo and off + n <= hi:
                return 'in'
            if off + n <= lo or off >= hi:
                return 'out'
            return None
        r = quick_rel(off, n, lo, hi, lambda a: self.bounded(st, a))
        if r:
            return r
        off_, lo_, hi_ = bv(off, 64), bv(lo, 64), bv(hi, 64)
        end = off_ + n
        cin = z3.And(z3.ULE(lo_, off_), z3.ULE(end, hi_))
        if self.must(st, cin):
            return 'in'
        cout = z3.Or(z3.ULE(end, lo_), z3.ULE(hi_, off_))
        if self.must(st, cout):
            return 'out'
        return None

    def rd_layers(self, st, o, li, off, n):
        while li >= 0:
            L = o.layers[li]
            r = self.rel(st, off, n, L.lo, L.hi)
            if r == 'out':
                li -= 1
                continue
            if isinstance(L, DataLayer):
                return self.rd_data(st, o, li, L, off, n)
            if r == 'in':
                v = self.rd_layer(st, L, off, n)
                return v
            # partial
            if n > 1:
                return self.assemble([self.rd_layers(st, o, li, add64(off, i), 1) for i in range(n)])
            off_, lo_, hi_ = bv(off, 64), bv(L.lo, 64), bv(L.hi, 64)
            cin = simp(z3.And(z3.ULE(lo_, off_), z3.ULT(off_, hi_)))
            s1 = st.fork()
            s1.pc.append(cin)
            a = self.rd_layer(s1, L, off, 1)
            s2 = st.fork()
            s2.pc.append(z3.Not(cin))
            b = self.rd_layers(s2, o, li - 1, off, 1)
            return self.ite(cin, a, b, 8)
        b = o.base
        if b is None:
            return UNDEF
        if b == 'zero':
            return 0
        if type(b) is bytes:
            if type(off) is int:
                return int.from_bytes(b[off:off + n], 'little')
            return self.rd_table(st, lambda x: int.from_bytes(b[x:x + n], 'little'), 0, len(b) - n, off, n)
        if type(b) is tuple and b[0] == 'arr':
            bs = [z3.Select(b[1], bv(norm(add64(off, i)), 64)) for i in range(n)]
            return bs[0] if n == 1 else z3.Concat(*bs[::-1])
        raise Unsupported('object base')

    def rd_table(self, st, fn, lo, hi, off, n):
        """read at symbolic off from constant data: mux over the candidate offsets"""
        c, at = linear(off)
        g = 0
        for a, k in at.values():
            g = gcd(g, k if k < (1 << 63) else (1 << 64) - k)
        g = g & -g if g else 1      # power-of-two stride survives wrap-around
        start = lo + ((c - lo) % g)
        cand = list(range(start, hi + 1, g))
        if len(cand) > 20000:
            raise Unsupported('symbolic read from a large constant table')
        v = None
        off_ = bv(off, 64)
        # group equal values
        r = None
        for x in cand:
            y = fn(x)
            if r is None:
                r = bv(y, 8 * n)
            else:
                r = z3.If(off_ == x, bv(y, 8 * n), r)
        return r

    def rd_data(self, st, o, li, L, off, n):
        """symbolic (or partially covered) read over a DataLayer sitting at layer index li"""
        if type(off) is int:
            e = L.data.get(off)
            if e is not None and e[2] == 0 and e[1] == n and all(
                    (L.data.get(off + i) or (None,))[0] is e[0] and L.data[off + i][2] == i for i in range(1, n)):
                return e[0]
            if e is None and not any(off + i in L.data for i in range(1, n)):
                return self.rd_layers(st, o, li - 1, off, n)
            v = []
            for i in range(n):
                e = L.data.get(off + i)
                if e is None:
                    v.append(self.rd_layers(st, o, li - 1, off + i, 1))
                else:
                    v.append(byte_of(e))
            return self.assemble(v)
        c, at = linear(off)
        g = 0
        for a, k in at.values():
            g = gcd(g, k if k < (1 << 63) else (1 << 64) - k)
        g = g & -g if g else 1
        cands = sorted(set(x - j for x in L.data for j in range(n)))
        cands = [x for x in cands if x >= 0 and (x - c) % g == 0]
        below = None
        if len(cands) > 64:
            # only those the offset can reach
            o_ = bv(off, 64)
            lo, hi = 0, len(cands)
            while hi - lo > 16:
                mid = (lo + hi) // 2
                if self.must(st, z3.UGE(o_, cands[mid])):
                    lo = mid
                else:
                    hi = mid
            a = lo
            lo, hi = a, len(cands)
            while hi - lo > 16:
                mid = (lo + hi) // 2
                if self.must(st, z3.ULT(o_, cands[mid])):
                    hi = mid
                else:
                    lo = mid
            cands = cands[a:hi]
        # default: none of the candidates
        if len(cands) > 600:
            raise Unsupported('symbolic read over %d cells' % len(cands))
        off_ = bv(off, 64)
        s2 = st
        if self.must(st, z3.Or([off_ == x for x in cands])):
            r = None
        else:
            s2 = st.fork()
            s2.pc.append(z3.And([off_ != x for x in cands]))
            r = self.rd_layers(s2, o, li - 1, off, n)
            if r is UNDEF:
                r = self.fresh(8 * n, 'uninit')
        for x in cands:
            e = L.data.get(x)
            v = None
            if e is not None and e[2] == 0 and e[1] == n and all(
                    (L.data.get(x + i) or (None,))[0] is e[0] for i in range(1, n)):
                v = e[0]
            else:
                v = self.rd_data(st, o, li, L, x, n)
            if v is UNDEF:
                v = self.fresh(8 * n, 'uninit')
            r = v if r is None else self.ite(off_ == x, v, r, 8 * n)
        return r

    def rd_layer(self, st, L, off, n):
        if isinstance(L, CopyLayer):
            return self.rd_(st, L.src, norm(add64(off, L.shift)), n)
        if isinstance(L, FillLayer):
            if type(L.val) is int:
                return int.from_bytes(bytes([L.val & 255]) * n, 'little')
            return L.val if n == 1 else z3.Concat(*([L.val] * n))
        if isinstance(L, StoreLayer):
            d = norm(sub64(off, L.lo))
            if type(d) is not int:
                for x in range(0, L.n - n + 1):
                    if self.must(st, bv(d, 64) == x):
                        d = x
                        break
            if type(d) is int:
                if d == 0 and n == L.n:
                    return L.val
                return self.assemble([byte_of((L.val, L.n, d + i)) for i in range(n)])
            r = None
            for x in range(0, L.n - n + 1):
                v = self.assemble([byte_of((L.val, L.n, x + i)) for i in range(n)])
                r = v if r is None else self.ite(d == x, v, r, 8 * n)
            return r
        if isinstance(L, OpaqueLayer):
            bs = [L.uf(bv(norm(add64(off, i)), 64)) for i in range(n)]
            return bs[0] if n == 1 else z3.Concat(*bs[::-1])
        if isinstance(L, SumLayer):
            d = norm(sub64(off, L.lo))
            j, c = self.divide(st, d, L.stride)
            if j is None:
                if n > 1:
                    return self.assemble([self.rd_layer(st, L, norm(add64(off, i)), 1) for i in range(n)])
                q = z3.UDiv(bv(d, 64), z3.BitVecVal(L.stride, 64))
                rm = z3.URem(bv(d, 64), z3.BitVecVal(L.stride, 64))
                r = None
                for cc in range(L.stride):
                    v = self.sum_byte(L, q, cc)
                    if v is None:
                        raise Unsupported('gap in loop-written region')
                    r = v if r is None else self.ite(rm == cc, v, r, 8)
                return r
            for (cc, nn, val) in L.entries:
                if cc == c and nn == n:
                    return subst_val(val, L.kvar, j)
            out = []
            for i in range(n):
                ci = c + i
                ji = j
                if ci >= L.stride:
                    ji = norm(add64(j, ci // L.stride))
                    ci %= L.stride
                b = self.sum_byte(L, ji, ci)
                if b is None:
                    raise Unsupported('gap in loop-written region')
                out.append(b)
            return self.assemble(out)
        raise Unsupported('layer')

    def sum_byte(self, L, j, c):
        for (cc, nn, val) in L.entries:
            if cc <= c < cc + nn:
                return byte_of((subst_val(val, L.kvar, j), nn, c - cc))
        return None

    def divide(self, st, d, s):
        """d = s*j + c with constant c, when that can be seen from the linear form"""
        if type(d) is int:
            return d // s, d % s
        const, at = linear(d)
        out = {}
        for i, (a, k) in at.items():
            ks = k if k < (1 << 63) else k - (1 << 64)
            if ks % s:
                break
            out[i] = (a, (ks // s) & MASK[64])
        else:
            cs = const if const < (1 << 63) else const - (1 << 64)
            return norm(lin_term((cs // s) & MASK[64], out)), cs % s
        # semantic attempt: is d = s*q + c for some constant c and q = d/s
        if s <= 16 and s & (s - 1) == 0:
            for c in range(s):
                if self.must(st, z3.URem(bv(d, 64), z3.BitVecVal(s, 64)) == c):
                    return simp(z3.UDiv(bv(d, 64), z3.BitVecVal(s, 64))), c
        return None, None

    def assemble(self, bs):
        """bytes (little endian) to one value"""
        if any(b is UNDEF for b in bs):
            if all(b is UNDEF for b in bs):
                return UNDEF
            bs = [self.fresh(8, 'uninit') if b is UNDEF else b for b in bs]
        if len(bs) == 1:
            b = bs[0]
            if isinstance(b, BytePart) and not isinstance(b.v, (Ptr, PIte)):
                return b.term()
            return b
        if all(isinstance(b, BytePart) for b in bs):
            b0 = bs[0]
            if b0.i == 0 and b0.n == len(bs) and all(b.v is b0.v and b.i == k for k, b in enumerate(bs)):
                return b0.v
        if all(type(b) is int for b in bs):
            r = 0
            for i, b in enumerate(bs):
                r |= (b & 255) << (8 * i)
            return r
        bs = [b.term() if isinstance(b, BytePart) else bv(b, 8) for b in bs]
        return z3.simplify(z3.Concat(*[bv(b, 8) for b in bs[::-1]]))

    def rd_byte(self, st, o, off):
        e = o.data.get(off)
        if e is not None:
            return byte_of(e)
        return self.rd_layers(st, o, len(o.layers) - 1, off, 1)

    def store(self, st, p, v, t):
        p = split_ptr(p)
        if isinstance(p, PIte):
            d = self.decide(st, p.c)
            if d is not None:
                return self.store(st, p.a if d else p.b, v, t)
            sa = st.fork()
            sa.pc.append(p.c)
            oa = self.load(sa, p.a, t)
            ob_ = st.fork()
            ob_.pc.append(z3.Not(p.c))
            ob = self.load(ob_, p.b, t)
            self.store(st, p.a, self.ite(p.c, v, oa, t.w), t)
            self.store(st, p.b, self.ite(p.c, ob, v, t.w), t)
            return
        if t.kind == 'struct':
            for i, e in enumerate(t.elems):
                self.store(st, padd(p, t.offs[i]), v[i] if v is not UNDEF else UNDEF, e)
            return
        if t.kind in ('array', 'vector'):
            for i in range(t.n):
                self.store(st, padd(p, i * t.elem.size), v[i] if v is not UNDEF else UNDEF, t.elem)
            return
        n = t.ssize
        if not self.bounds(st, p, n, 'store'):
            raise Dead()
        if st.mem[p.o].kind == 'const':
            if not self.oblig(st, 0, 'store to constant memory', 'memory'):
                raise Dead()
        self.raw_store(st, p.o, p.off, n, v, t)

    def raw_store(self, st, oid, off, n, v, t=None):
        o = st.wobj(oid)
        if isinstance(v, z3.BoolRef):
            v = bv(v, 8 * n)
        elif isinstance(v, z3.BitVecRef) and v.size() < 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        if type(off) is int:
            d = o.data
            if v is UNDEF:
                for i in range(n):
                    d[off + i] = (UNDEF, 1, 0)
                return
            for i in range(n):
                d[off + i] = (v, n, i)
            return
        off = norm(off)
        if type(off) is int:
            return self.raw_store(st, oid, off, n, v, t)
        if o.data:
            o.layers.append(DataLayer(o.data))
            o.data = {}
        o.layers.append(StoreLayer(off, n, v if v is not UNDEF else self.fresh(8 * n)))

    def memcpy(self, st, d, s, n):
        for q, other in ((d, s), (s, d)):
            if isinstance(q, PIte):
                c = self.decide(st, q.c)
                if c is not None:
                    x = q.a if c else q.b
                    return self.memcpy(st, x if q is d else d, x if q is s else s, n)
        if isinstance(d, PIte) or isinstance(s, PIte):
            raise Unsupported('memcpy through a conditional pointer')
        n = simp(n)
        if type(n) is int and n == 0:
            return
        if not self.bounds(st, s, n, 'load (copy)') or not self.bounds(st, d, n, 'store (copy)'):
            raise Dead()
        if st.mem[d.o].kind == 'const':
            if not self.oblig(st, 0, 'store to constant memory', 'memory'):
                raise Dead()
        self.copy_range(st, d.o, d.off, st.mem[s.o], s.off, n, s.o)

    def copy_range(self, st, doid, doff, so, soff, n, soid=None):
        if type(n) is int and type(doff) is int and type(soff) is int:
            sd = so.data
            lay = so.layers or not (so.base is None or so.base == 'zero' or (type(so.base) is bytes and n <= 4096))
            if n <= 64 or not lay:
                tmp = []
                full = True
                for i in range(n):
                    e = sd.get(soff + i)
                    if e is None:
                        full = False
                    tmp.append(e)
                if not full:
                    i = 0
                    while i < n:
                        if tmp[i] is None:
                            # try 8 / 4 / 2 byte groups to keep values whole
                            b = self.rd_layers(st, so, len(so.layers) - 1, soff + i, 1) if lay or so.base is not None \
                                else UNDEF
                            tmp[i] = (b, 1, 0)
                        i += 1
                o = st.wobj(doid)
                dd = o.data
                for i in range(n):
                    e = tmp[i]
                    if isinstance(e[0], BytePart):
                        e = (e[0].v, e[0].n, e[0].i)
                    dd[doff + i] = e
                return
        # general: lazy layer over a frozen source
        if soid is not None:
            st.own.discard(soid)
        o = st.wobj(doid)
        hi = norm(add64(doff, n))
        if o.data:
            if type(doff) is int and type(hi) is int and hi - doff < 100000:
                for x in range(doff, hi):
                    o.data.pop(x, None)
            if o.data:
                o.layers.append(DataLayer(o.data))
                o.data = {}
        # drop older layers that the copy hides completely
        if type(doff) is int and type(hi) is int:
            o.layers = [L for L in o.layers if not (type(L.lo) is int and type(L.hi) is int and doff <= L.lo and L.hi <= hi)]
        # collapse trivial chains: source range wholly inside one CopyLayer of the source
        src, shift = so, sub64(soff, doff)
        if not so.data and so.layers:
            L = so.layers[-1]
            if isinstance(L, CopyLayer):
                a, b = norm(soff), norm(add64(soff, n))
                inside = False
                if same(a, L.lo) and same(b, L.hi):
                    inside = True
                elif self.must(st, z3.And(z3.ULE(bv(L.lo, 64), bv(a, 64)), z3.ULE(bv(b, 64), bv(L.hi, 64)))):
                    inside = True
                if inside:
                    src = L.src
                    shift = add64(shift, L.shift)
        o.layers.append(CopyLayer(norm(doff), hi, src, norm(shift)))

    def memset(self, st, d, v, n):
        if isinstance(d, PIte):
            c = self.decide(st, d.c)
            if c is None:
                raise Unsupported('memset through a conditional pointer')
            d = d.a if c else d.b
        n = simp(n)
        if type(n) is int and n == 0:
            return
        if not self.bounds(st, d, n, 'store (fill)'):
            raise Dead()
        o = st.wobj(d.o)
        if isinstance(v, z3.BitVecRef) and v.size() > 8:
            v = simp(z3.Extract(7, 0, v))
        if type(v) is int:
            v &= 255
        if type(n) is int and type(d.off) is int and n <= 4096:
            dd = o.data
            if n % 8 == 0 and v == 0:
                for x in range(d.off, d.off + n, 8):
                    for i in range(8):
                        dd[x + i] = (0, 8, i)
            else:
                for x in range(d.off, d.off + n):
                    dd[x] = (v, 1, 0)
            return
        hi = norm(add64(d.off, n))
        if o.data:
            o.layers.append(DataLayer(o.data))
            o.data = {}
        o.layers.append(FillLayer(norm(d.off), hi, v))

    def read_cstr(self, st, p, maxlen=100000):
        o = st.mem[p.o] if p.o in st.mem else st.mem[self.gptr_by_oid(st, p.o)]
        out = bytearray()
        off = p.off
        while True:
            b = self.rd(st, o, off, 1)
            b = simp(b) if not type(b) is int else b
            if type(b) is not int:
                raise Unsupported('symbolic C string')
            if b == 0:
                return bytes(out)
            out.append(b)
            off += 1
            if len(out) > maxlen:
                raise Unsupported('C string too long')

    def gptr_by_oid(self, st, oid):
        for name, x in self.gaddr.items():
            if x == oid:
                self.gptr(st, name)
                return oid
        raise Unsupported('unknown object')

    # ---------------------------------------------------------------- running
    def init_state(self):
        st = State.__new__(State)
        st.mem = {}
        st.own = set()
        st.pc = []
        st.exc = None
        st.caught = []
        st.ghost = {}
        return st

    def run_ctors(self, st):
        if 'llvm.global_ctors' not in self.m.glref:
            return st
        c = self.m.const(llvmc.GlobalInit(self.m.glref['llvm.global_ctors']))
        ents = [(e[2][0][1], e[2][1][1]) for e in c[2]]
        ents.sort(key=lambda x: x[0])
        for _, fn in ents:
            outs = self.call(st, fn, [])
            if len(outs) != 1 or outs[0][1] != 'ret':
                raise Unsupported('static initialisation did not run straight through')
            st = outs[0][0]
        return st

    stack = ()

    def call(self, st, name, args, inst=None):
        """run function; returns [(state, 'ret'|'throw', value)]"""
        mdl = self.models.get(name)
        if mdl is not None:
            self.used_models.add(name)
            return self.wrap(mdl(self, st, args, inst), st)
        F = self.m.func(name)
        if F.decl:
            from .models import generic
            g = generic(name)
            if g is not None:
                self.used_models.add(name)
                return self.wrap(g(self, st, args, inst), st)
            raise Unsupported('external function ' + name)
        self.funcs_seen[name] = self.funcs_seen.get(name, 0) + 1
        fr = Frame.__new__(Frame)
        fr.F = F
        fr.regs = [None] * F.nregs
        for i, a in enumerate(args[:len(F.params)]):
            fr.regs[i] = a
        fr.allocas = []
        fr.lctx = {}
        old = self.stack
        self.stack = old + (name,)
        if len(self.stack) > 400:
            raise Unsupported('call depth')
        try:
            outs = self.region(st, fr, 0, None, frozenset(), 0)
        finally:
            self.stack = old
        res = []
        for (s, f, kind, data) in outs:
            if kind == 'ret' or kind == 'throw':
                for a in f.allocas:
                    s.mem.pop(a, None)
                res.append((s, kind, data))
            else:
                raise Unsupported('region ended at ' + str(kind))
        return self.merge_rets(res, len(st.pc))

    def wrap(self, r, st):
        if isinstance(r, list) and r and isinstance(r[0], tuple) and len(r[0]) == 3 and isinstance(r[0][0], State):
            return r
        if isinstance(r, list) and not r:
            return r
        return [(st, 'ret', r)]

    def merge_rets(self, res, npc):
        rets = [r for r in res if r[1] == 'ret']
        if len(rets) < 2:
            return res
        others = [r for r in res if r[1] != 'ret']
        out = []
        for r in rets:
            done = False
            for i, q in enumerate(out):
                m = self.merge(q[0], q[2], r[0], r[2])
                if m is not None:
                    out[i] = (m[0], 'ret', m[1])
                    done = True
                    break
            if not done:
                out.append(r)
        return out + others

    def merge(self, sa, va, sb, vb, live=None):
        """merge two states (and a value / register list); None when shapes differ"""
        if self.nomerge:
            return None
        pa, pb = sa.pc, sb.pc
        n = 0
        m = min(len(pa), len(pb))
        while n < m and (pa[n] is pb[n] or pa[n].get_id() == pb[n].get_id()):
            n += 1
        ra, rb = pa[n:], pb[n:]
        if not ra or not rb:
            # one path condition implies the other: cannot discriminate
            if not ra and not rb:
                return None
            ca = z3.And(ra) if ra else None
            if ca is None:
                ca = z3.Not(z3.And(rb))
                # states overlap unless disjoint by construction: refuse
                return None
            return None
        ca = ra[0] if len(ra) == 1 else z3.And(ra)
        cb = rb[0] if len(rb) == 1 else z3.And(rb)
        if sa.exc != sb.exc or len(sa.caught) != len(sb.caught):
            return None
        # a discriminating condition: first differing conjunct if complementary, else ca
        disc = ca
        # memory
        keys = set(sa.mem) | set(sb.mem)
        diffs = []
        for k in keys:
            oa, ob = sa.mem.get(k), sb.mem.get(k)
            if oa is ob:
                continue
            if oa is None or ob is None:
                diffs.append((k, None))
                continue
            if not same(oa.size, ob.size):
                return None
            if oa.layers is not ob.layers and (len(oa.layers) != len(ob.layers) or any(
                    x is not y for x, y in zip(oa.layers, ob.layers))):
                return None
            da, db = oa.data, ob.data
            cells = {}
            for off in set(da) | set(db):
                ea, eb = da.get(off), db.get(off)
                if ea is eb:
                    continue
                if ea is not None and eb is not None and ea[1] == eb[1] and ea[2] == eb[2] and samev(ea[0], eb[0]):
                    continue
                cells[off] = (ea, eb)
            if cells:
                if len(cells) > 2000:
                    return None
                diffs.append((k, cells))
        if len(diffs) > 200:
            return None
        # values
        newvals = None
        try:
            nv = self.merge_vals(disc, va, vb, live)
        except Fail:
            return None
        patch = []
        for k, cells in diffs:
            if cells is None:
                continue
            oa, ob = sa.mem[k], sb.mem[k]
            done = set()
            for off in sorted(cells):
                if off in done:
                    continue
                ea, eb = cells[off]
                try:
                    if ea is None and eb is not None and eb[2] == 0 and eb[1] > 1 and whole(ob.data, off, eb) and \
                            all(off + i not in oa.data for i in range(eb[1])):
                        x = self.rd(sa, oa, off, eb[1])
                        ea = (x, eb[1], 0)
                    elif eb is None and ea is not None and ea[2] == 0 and ea[1] > 1 and whole(oa.data, off, ea) and \
                            all(off + i not in ob.data for i in range(ea[1])):
                        x = self.rd(sb, ob, off, ea[1])
                        eb = (x, ea[1], 0)
                except Unsupported:
                    return None
                if ea is not None and eb is not None and ea[1] == eb[1] and ea[2] == 0 and eb[2] == 0 and \
                        (off not in oa.data or whole(oa.data, off, ea)) and (off not in ob.data or whole(ob.data, off, eb)):
                    w = ea[1]
                    x, y = ea[0], eb[0]
                    if x is UNDEF or y is UNDEF:
                        v = UNDEF if (x is UNDEF and y is UNDEF) else (y if x is UNDEF else x)
                        if w == 1 and v is not UNDEF and (x is UNDEF or y is UNDEF):
                            v = v
                    else:
                        if isinstance(x, (Ptr, PIte)) or isinstance(y, (Ptr, PIte)):
                            if not self.mergeptr(x, y):
                                return None
                        v = self.ite(disc, x, y, 8 * w)
                    patch.append((k, off, w, v))
                    for i in range(w):
                        done.add(off + i)
                    continue
                # bytewise
                try:
                    a = byte_of(ea) if ea is not None else self.rd_layers(sa, oa, len(oa.layers) - 1, off, 1)
                    b = byte_of(eb) if eb is not None else self.rd_layers(sb, ob, len(ob.layers) - 1, off, 1)
                except Unsupported:
                    return None
                if a is UNDEF or b is UNDEF:
                    v = UNDEF if (a is UNDEF and b is UNDEF) else (b if a is UNDEF else a)
                    if isinstance(v, BytePart):
                        if isinstance(v.v, (Ptr, PIte)):
                            # pointer present on one side only: keep it (the other side is uninitialised)
                            patch.append((k, off, ('part', v), None))
                            done.add(off)
                            continue
                        v = v.term()
                    patch.append((k, off, 1, v))
                    done.add(off)
                    continue
                try:
                    a = a.term() if isinstance(a, BytePart) else a
                    b = b.term() if isinstance(b, BytePart) else b
                except Unsupported:
                    return None
                patch.append((k, off, 1, self.ite(disc, bv(a, 8), bv(b, 8), 8)))
                done.add(off)
        s = sa.fork()
        for k in keys:
            if k not in s.mem:
                s.mem[k] = sb.mem[k]
        for k, off, w, v in patch:
            o = s.wobj(k)
            if isinstance(w, tuple):
                p = w[1]
                o.data[off] = (p.v, p.n, p.i)
                continue
            for i in range(w):
                o.data[off + i] = (v, w, i)
        for g in set(sa.ghost) | set(sb.ghost):
            ga, gb = sa.ghost.get(g), sb.ghost.get(g)
            if ga is gb or ga == gb:
                continue
            return None
        s.pc = pa[:n]
        comp = simp(z3.Or(ca, cb))
        if type(comp) is not int:
            # cheap complement test
            if not (len(ra) == 1 and len(rb) == 1 and is_neg(ra[0], rb[0])):
                s.pc.append(comp)
        return s, nv

    nomerge = False

    def mergeptr(self, x, y):
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o:
            return True
        return False

    def merge_vals(self, c, a, b, live):
        if a is b:
            return a
        if isinstance(a, list) and isinstance(b, list):
            out = []
            for i, (x, y) in enumerate(zip(a, b)):
                if x is y:
                    out.append(x)
                elif live is not None and i not in live:
                    out.append(None)
                elif x is None or y is None:
                    out.append(None)
                else:
                    out.append(self.merge_vals(c, x, y, None))
            return out
        if samev(a, b):
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if a is None or b is None:
            raise Fail()
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if not self.mergeptr(a, b):
                raise Fail()
        w = None
        if isinstance(a, IntIte) or isinstance(b, IntIte):
            o = b if isinstance(a, IntIte) else a
            if type(o) is int or isinstance(o, IntIte):
                return IntIte(c, a, b)
            if isinstance(o, z3.BitVecRef):
                w = o.size()
            elif isinstance(o, z3.BoolRef):
                w = 1
            else:
                raise Fail()
            t = llvmc.Type()
            t.kind, t.w = 'int', w
            a = a.term(t) if isinstance(a, IntIte) else a
            b = b.term(t) if isinstance(b, IntIte) else b
        elif isinstance(a, z3.BitVecRef):
            w = a.size()
        elif isinstance(b, z3.BitVecRef):
            w = b.size()
        elif isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            w = 1
        if w is None and type(a) is int and type(b) is int:
            # width unknown: registers know it through the instruction type; use 64 lazily
            return IntIte(c, a, b)
        return self.ite(c, a, b, w)

    # ---- region execution
    def liveness(self, F):
        if F.live is not None:
            return F.live
        n = len(F.blocks)
        use = []
        deff = []
        phiuse = [dict() for _ in range(n)]   # pred -> regs
        for b in F.blocks:
            u, d = set(), set()
            for I in b.insts:
                if I.op == 'phi':
                    for pb, o in I.x.items():
                        if o[0] == 'r':
                            phiuse[b.idx].setdefault(pb, set()).add(o[1])
                    d.add(I.dst)
                    continue
                for o in I.ops:
                    if o[0] == 'r' and o[1] not in d:
                        u.add(o[1])
                if I.op in ('call', 'invoke') and I.x[0][0] == 'r' and I.x[0][1] not in d:
                    u.add(I.x[0][1])
                if I.dst >= 0:
                    d.add(I.dst)
            use.append(u)
            deff.append(d)
        livein = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in F.blocks[i].succs:
                    out |= livein[s]
                    out |= phiuse[s].get(i, set())
                phid = set(I.dst for I in F.blocks[i].insts[:F.blocks[i].nphi])
                new = use[i] | (out - deff[i])
                new -= phid
                if new != livein[i]:
                    livein[i] = new
                    changed = True
        F.live = (livein, phiuse)
        return F.live

    def region(self, st, fr, blk, prev, stops, idx):
        """Execute from (blk, idx) until a block in stops is entered / return / throw.
        Returns [(state, frame, kind, data)]; kind 'at' has data=(block, prev)."""
        outs = []
        work = [(st, fr, blk, prev, idx)]
        while work:
            st, fr, blk, prev, idx = work.pop()
            try:
                self.straight(st, fr, blk, prev, idx, stops, outs, work)
            except Dead:
                pass
        return outs

    def goto(self, st, fr, frm, to, stops, outs):
        """take edge frm->to: True if execution continues in `to` (phis evaluated)"""
        if to in stops:
            outs.append((st, fr, 'at', (to, frm, False)))
            return False
        return True

    def phis(self, st, fr, blk, prev):
        b = fr.F.blocks[blk]
        if b.nphi:
            vals = []
            for I in b.insts[:b.nphi]:
                v = self.opval(st, fr, I.x[prev])
                if isinstance(v, IntIte):
                    v = v.term(I.ty)
                vals.append((I.dst, v))
            for d, v in vals:
                fr.regs[d] = v

    def straight(self, st, fr, blk, prev, idx, stops, outs, work):
        """idx: 0 = at block entry, phis pending; -2 = at block entry, phis done; -3 = at block entry,
        phis done and loop handling done; >0 = inside the block"""
        F = fr.F
        disp = self.disp
        while True:
            b = F.blocks[blk]
            if idx <= 0:
                if idx == 0:
                    if prev is not None:
                        self.phis(st, fr, blk, prev)
                    idx = -2
                if idx == -2 and blk in F.loops:
                    if prev is None or prev not in F.loops[blk]:
                        for o in self.loop_entry(st, fr, blk, stops):
                            if o[2] == 'go':
                                x = o[3]
                                work.append((o[0], o[1], x[0], x[1], -2 if x[2] else 0))
                            else:
                                outs.append(o)
                        return
                    ctx = fr.lctx.get(blk)
                    if ctx is not None:
                        fr.lctx[blk] = ctx.next()
                idx = b.nphi
            insts = b.insts
            n = len(insts)
            nxt = None
            while idx < n:
                I = insts[idx]
                op = I.op
                self.cur = I
                self.steps += 1
                if self.steps & 0xfff == 0:
                    if self.deadline and time.time() > self.deadline:
                        raise Budget('time budget exhausted')
                    if self.steps > self.max_steps:
                        raise Budget('step budget exhausted')
                if op == 'br':
                    if not I.ops:
                        nxt = I.x[0]
                        break
                    c = self.opval(st, fr, I.ops[0])
                    if isinstance(c, IntIte):
                        c = c.term(None)
                    if type(c) is int:
                        nxt = I.x[0] if c & 1 else I.x[1]
                        break
                    if c is UNDEF:
                        c = self.fresh(1, 'undefbr')
                    c = boolv(c)
                    self.branch(st, fr, blk, [(c, I.x[0]), (z3.Not(c), I.x[1])], stops, outs, work)
                    return
                elif op == 'switch':
                    v = self.opval(st, fr, I.ops[0])
                    dflt, cases, ty = I.x
                    if isinstance(v, IntIte):
                        v = v.term(ty)
                    if v is UNDEF:
                        v = self.fresh(ty.w, 'undefsw')
                    if type(v) is int:
                        nxt = dflt
                        for cv, tgt in cases:
                            if cv == v:
                                nxt = tgt
                                break
                        break
                    by = {}
                    for cv, tgt in cases:
                        by.setdefault(tgt, []).append(v == z3.BitVecVal(cv, ty.w))
                    alts = []
                    rest = []
                    for tgt, cs in by.items():
                        alts.append((z3.Or(cs) if len(cs) > 1 else cs[0], tgt))
                        rest += cs
                    alts.append((z3.Not(z3.Or(rest)) if len(rest) > 1 else z3.Not(rest[0]), dflt))
                    self.branch(st, fr, blk, alts, stops, outs, work)
                    return
                elif op == 'ret':
                    v = self.opval(st, fr, I.ops[0]) if I.ops else None
                    outs.append((st, fr, 'ret', v))
                    return
                elif op == 'call' or op == 'invoke':
                    res = self.do_call(st, fr, I)
                    if len(res) == 1:
                        st, kind, v = res[0]
                        if kind == 'ret':
                            if I.dst >= 0:
                                fr.regs[I.dst] = v.term(I.ty) if isinstance(v, IntIte) else v
                            if op == 'invoke':
                                nxt = I.x[2]
                                break
                            idx += 1
                            continue
                        # throw
                        if op == 'invoke' and self.lands(fr, I.x[3], st):
                            nxt = I.x[3]
                            break
                        outs.append((st, fr, 'throw', None))
                        return
                    for (s, kind, v) in res:
                        f = fr.copy()
                        if kind == 'ret':
                            if I.dst >= 0:
                                f.regs[I.dst] = v.term(I.ty) if isinstance(v, IntIte) else v
                            if op == 'invoke':
                                if self.goto(s, f, blk, I.x[2], stops, outs):
                                    work.append((s, f, I.x[2], blk, 0))
                            else:
                                work.append((s, f, blk, prev, idx + 1))
                        else:
                            if op == 'invoke' and self.lands(f, I.x[3], s):
                                if self.goto(s, f, blk, I.x[3], stops, outs):
                                    work.append((s, f, I.x[3], blk, 0))
                            else:
                                outs.append((s, f, 'throw', None))
                    return
                elif op == 'unreachable':
                    self.oblig(st, 0, 'unreachable code reached', 'unreachable')
                    return
                elif op == 'resume':
                    outs.append((st, fr, 'throw', None))
                    return
                else:
                    v = disp[op](st, fr, I)
                    if I.dst >= 0:
                        fr.regs[I.dst] = v
                    idx += 1
            # transition
            if not self.goto(st, fr, blk, nxt, stops, outs):
                return
            prev, blk, idx = blk, nxt, 0

    def lands(self, fr, blk, st):
        b = fr.F.blocks[blk]
        lp = b.insts[b.nphi]
        cleanup, clauses = lp.x
        if cleanup:
            return True
        return self.match_clause(st, clauses) is not None

    def match_clause(self, st, clauses):
        tn = st.exc[1]
        for c in clauses:
            if c[0] == 'c':
                return 0 if True else None   # catch (...)
            if c[0] == 'g':
                from .models import is_base
                if is_base(self, tn, c[1]):
                    return c[1]
            if c[0] in ('agg', 'z'):
                # exception specification filter: noexcept-like; treat as catch-all terminate
                return 0
        return None

    def op_landingpad(self, st, fr, I):
        cleanup, clauses = I.x
        m = self.match_clause(st, clauses)
        sel = 0
        if m == 0 and m is not None:
            sel = self.typeid('null')
        elif m:
            sel = self.typeid(m)
        return [st.exc[0], sel]

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def do_call(self, st, fr, I):
        callee, tys, nd, ud = I.x
        if callee[0] == 'g':
            name = self.m.resolve(callee[1])
        elif callee[0] == 'asm':
            return [(st, 'ret', 0)]
        else:
            p = self.opval(st, fr, callee)
            if isinstance(p, PIte):
                d = self.decide(st, p.c)
                if d is None:
                    # fork on the target
                    res = []
                    for c, q in ((p.c, p.a), (z3.Not(p.c), p.b)):
                        s = st.fork()
                        s.pc.append(c)
                        f = fr.copy()
                        self.setreg(f, callee, q)
                        res += self.do_call(s, f, I)
                    return res
                p = p.a if d else p.b
            if not isinstance(p, Ptr) or p.o not in self.oidfn:
                self.oblig(st, 0, 'call through an invalid function pointer', 'memory', I)
                raise Dead()
            name = self.oidfn[p.o]
        args = []
        for o, t in zip(I.ops, tys):
            v = self.opval(st, fr, o)
            if isinstance(v, IntIte):
                v = v.term(t)
            args.append(v)
        saved = self.cur
        r = self.call(st, name, args, I)
        self.cur = saved
        return r

    def setreg(self, f, o, v):
        if o[0] == 'r':
            f.regs[o[1]] = v

    def branch(self, st, fr, blk, alts, stops, outs, work):
        F = fr.F
        live = []
        small = False
        for c, tgt in alts:
            c = simp(c)
            if type(c) is int:
                if c:
                    live = [(None, tgt)]
                    break
                continue
            live.append((c, tgt))
        if len(live) > 1:
            ok = []
            for c, tgt in live:
                if self.feasible(st, c):
                    ok.append((c, tgt))
            live = ok
        if not live:
            raise Dead()
        if len(live) == 1:
            c, tgt = live[0]
            if self.goto(st, fr, blk, tgt, stops, outs):
                work.append((st, fr, tgt, blk, 0))
            return
        # symbolic loop exit?
        inner = None
        for H in fr.lctx:
            body = F.loops[H]
            if blk in body and (inner is None or len(body) < len(F.loops[inner])):
                inner = H
        if inner is not None:
            body = F.loops[inner]
            ctx = fr.lctx[inner]
            inside = [t for c, t in live if t in body]
            if len(inside) < len(live) and inside and self.reaches_exit(F, [t for c, t in live if t not in body]):
                if ctx.mode == 'plain':
                    raise NeedSummary(ctx.uid)
                if ctx.mode == 'unroll' and ctx.iters >= self.unroll_limit:
                    self.incomplete.append('loop bound %d reached in %s at %s' % (self.unroll_limit, F.name, self.where()))
                    live = [(c, t) for c, t in live if t not in body]
        ip = F.ipdom[blk]
        n = len(F.blocks)
        merged = []
        if ip is None or len(live) == 1:
            for c, tgt in live:
                s = st.fork()
                s.pc.append(c)
                f = fr.copy()
                if self.goto(s, f, blk, tgt, stops, outs):
                    work.append((s, f, tgt, blk, 0))
            return
        sub = stops | {ip} if ip != n else stops
        for c, tgt in live:
            s = st.fork()
            s.pc.append(c)
            f = fr.copy()
            if tgt in sub:
                rs = [(s, f, 'at', (tgt, blk, False))]
            else:
                rs = self.region(s, f, tgt, blk, sub, 0)
            for r in rs:
                if r[2] == 'at' and r[3][0] == ip:
                    merged.append(r)
                else:
                    outs.append(r)
        if not merged:
            return
        merged = self.merge_at(F, ip, merged)
        for (s, f, kind, (b, p, done)) in merged:
            if ip in stops:
                outs.append((s, f, 'at', (b, p, done)))
            else:
                work.append((s, f, ip, p, -2 if done else 0))

    def reaches_exit(self, F, tgts):
        # a target leading only to unreachable / throw is not a loop exit
        for t in tgts:
            if F.ipdom[t] is not None:
                return True
        return False

    def merge_at(self, F, ip, rs):
        """merge states arriving at block ip.  Phis at ip are evaluated per edge first, so merged
        entries have prev=None and their phi registers already set."""
        if len(rs) == 1:
            return rs
        livein, phiuse = self.liveness(F)
        b = F.blocks[ip]
        # at a loop header, arrivals from inside and outside the loop are kept apart
        if ip in F.loops:
            body = F.loops[ip]
            groups = {}
            for r in rs:
                groups.setdefault(r[3][1] in body, []).append(r)
            if len(groups) > 1:
                return sum((self.merge_at(F, ip, g) for g in groups.values()), [])
        phid = [I for I in b.insts[:b.nphi]]
        live = set(livein[ip]) | set(I.dst for I in phid)
        out = []
        for (s, f, kind, (blk, prev, pdone)) in rs:
            if not pdone:
                vals = [(I.dst, self.opval(s, f, I.x[prev]), I.ty) for I in phid]
                for d, v, t in vals:
                    f.regs[d] = v
            done = False
            for i, q in enumerate(out):
                if q[1].lctx.keys() != f.lctx.keys():
                    continue
                m = self.merge(q[0], q[1].regs, s, f.regs, live)
                if m is not None:
                    nf = q[1].copy()
                    nf.regs = m[1]
                    for r in live:
                        if isinstance(nf.regs[r], IntIte):
                            nf.regs[r] = nf.regs[r].term(self.regtype(F, r))
                    nf.allocas = q[1].allocas + [a for a in f.allocas if a not in q[1].allocas]
                    out[i] = (m[0], nf, 'at', (ip, q[3][1], True))
                    done = True
                    break
            if not done:
                out.append((s, f, 'at', (ip, prev, True)))
        return out

    def regtype(self, F, r):
        c = getattr(self, '_rt', None)
        if c is None:
            c = self._rt = {}
        t = c.get((F.name, r))
        if t is None:
            for i, p in enumerate(F.params):
                c[(F.name, i)] = p
            for b in F.blocks:
                for I in b.insts:
                    if I.dst >= 0:
                        c[(F.name, I.dst)] = I.ty
            t = c.get((F.name, r))
        return t

    def loop_entry(self, st, fr, H, stops):
        from . import loops
        return loops.loop_entry(self, st, fr, H, stops)

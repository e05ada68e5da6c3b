"""Contracts of everything that is not compiled from source: LLVM intrinsics, the C and C++
run-time, the maths library, and the harness vocabulary (vf_*).  Each entry is trusted; the run
reports which were used."""
import math
import z3
from .values import *
from .engine import Dead, UNDEF, Obj, MAXALLOC, add64, sub64, padd, IntIte
from . import llvmc
from . import ops

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


# ------------------------------------------------------------------ exceptions
STD_BASES = {
    '_ZTISt9exception': [],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'],
    '_ZTISt18bad_variant_access': ['_ZTISt9exception'],
    '_ZTISt19bad_optional_access': ['_ZTISt9exception'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt12system_error': ['_ZTISt13runtime_error'],
    '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt12system_error'],
}


def bases(eng, name):
    if name in STD_BASES:
        return STD_BASES[name]
    ref = eng.m.glref.get(name)
    if ref is None or not llvmc.GlobalInit(ref):
        return []
    c = eng.m.const(llvmc.GlobalInit(ref))
    out = []

    def walk(x):
        if x[0] == 'g' and x[1].startswith('_ZTI'):
            out.append(x[1])
        elif x[0] == 'agg':
            for y in x[2]:
                walk(y)
    walk(c)
    return out


def is_base(eng, tn, target):
    if tn == target:
        return True
    return any(is_base(eng, b, target) for b in bases(eng, tn))


@model('__dynamic_cast')
def _(eng, st, a, i):
    # hierarchies with single inheritance only: a base class shares the address of the whole
    p = a[0]
    if type(p) is int and p == 0:
        return 0
    if not isinstance(p, Ptr):
        raise Unsupported('dynamic_cast of a conditional pointer')
    if not eng.bounds(st, p, 8, 'load'):
        raise Dead()
    vp = eng.rd(st, st.mem[p.o], p.off, 8, p.o)
    if not isinstance(vp, Ptr) or type(vp.off) is not int:
        raise Unsupported('dynamic_cast of an object without a known type')
    top = eng.rd(st, st.mem[vp.o], vp.off - 16, 8, vp.o)
    ti = eng.rd(st, st.mem[vp.o], vp.off - 8, 8, vp.o)
    if top != 0 or not isinstance(ti, Ptr):
        raise Unsupported('dynamic_cast in a class with several bases')
    name = st.mem[ti.o].name
    target = st.mem[a[2].o].name
    n = name
    while n != target:
        b = bases(eng, n)
        if len(b) > 1:
            raise Unsupported('dynamic_cast in a class with several bases')
        if not b:
            return 0
        n = b[0]
    return p


def throw_std(eng, st, ti):
    oid = eng.new_obj(st, 64, 'exc', ti, 'zero')
    st.exc = (Ptr(oid, 0), ti)
    return [(st, 'throw', None)]


for _n, _t in {
    '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
    '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
    '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error',
    '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
    '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
    '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
    '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
    '_ZSt20__throw_overflow_errorPKc': '_ZTISt14overflow_error',
    '_ZSt20__throw_system_errori': '_ZTISt12system_error',
    '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
    '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
    'vf_throw_ios_failure': '_ZTINSt8ios_base7failureB5cxx11E',
}.items():
    M[_n] = (lambda t: lambda eng, st, a, i: throw_std(eng, st, t))(_t)


@model('__cxa_allocate_exception')
def _(eng, st, a, i):
    return Ptr(eng.new_obj(st, a[0] if type(a[0]) is int else 64, 'exc', 'exception'), 0)


@model('__cxa_free_exception')
def _(eng, st, a, i):
    return 0


@model('__cxa_throw')
def _(eng, st, a, i):
    ti = name_of(eng, a[1])
    st.exc = (a[0], ti)
    return [(st, 'throw', None)]


def name_of(eng, p):
    for n, oid in eng.gaddr.items():
        if oid == p.o:
            return n
    raise Unsupported('type information')


@model('__cxa_begin_catch')
def _(eng, st, a, i):
    st.caught = st.caught + [st.exc]
    return st.exc[0]


@model('__cxa_get_exception_ptr')
def _(eng, st, a, i):
    return st.exc[0]


@model('__cxa_end_catch')
def _(eng, st, a, i):
    st.caught = st.caught[:-1]
    return 0


@model('__cxa_rethrow')
def _(eng, st, a, i):
    st.exc = st.caught[-1]
    return [(st, 'throw', None)]


@model('__cxa_guard_acquire')
def _(eng, st, a, i):
    p = a[0]
    v = eng.rd(st, st.mem[p.o], p.off, 1)
    return 0 if v == 1 else 1


@model('__cxa_guard_release')
def _(eng, st, a, i):
    eng.raw_store(st, a[0].o, a[0].off, 1, 1)
    return 0


@model('__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit', 'atexit')
def _(eng, st, a, i):
    return 0


@model('_ZSt9terminatev', 'abort', '__cxa_pure_virtual', '__cxa_call_unexpected', '__clang_call_terminate',
       '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__assert_fail', '_ZSt10unexpectedv')
def _(eng, st, a, i):
    eng.oblig(st, 0, 'the program terminates', 'terminate', i)
    raise Dead()


@model('__gxx_personality_v0')
def _(eng, st, a, i):
    raise Unsupported('personality')


@model('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt18bad_variant_accessD1Ev', '_ZNSt9bad_allocD1Ev',
       '_ZNSt11logic_errorD1Ev', '_ZNSt12out_of_rangeD1Ev', '_ZNSt13runtime_errorD1Ev')
def _(eng, st, a, i):
    return 0


@model('_ZNKSt9exception4whatEv')
def _(eng, st, a, i):
    raise Unsupported('what() of a standard exception')


# ------------------------------------------------------------------ allocation
def do_new(eng, st, n):
    n = simp(n) if not type(n) is int else n
    if type(n) is int:
        if n > MAXALLOC:
            return throw_std(eng, st, '_ZTISt9bad_alloc')
        return Ptr(eng.new_obj(st, n, 'heap'), 0)
    c = z3.ULE(n, z3.BitVecVal(MAXALLOC, 64))
    d = eng.decide(st, c)
    if d is True:
        return Ptr(eng.new_obj(st, norm(n), 'heap'), 0)
    if d is False:
        return throw_std(eng, st, '_ZTISt9bad_alloc')
    s2 = st.fork()
    s2.pc.append(z3.Not(c))
    st.pc.append(c)
    return [(st, 'ret', Ptr(eng.new_obj(st, norm(n), 'heap'), 0))] + throw_std(eng, s2, '_ZTISt9bad_alloc')


@model('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _(eng, st, a, i):
    return do_new(eng, st, a[0])


@model('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(eng, st, a, i):
    return do_delete(eng, st, a[0], i)


def do_delete(eng, st, p, i):
    if type(p) is int and p == 0:
        return 0
    if isinstance(p, PIte):
        d = eng.decide(st, p.c)
        if d is not None:
            return do_delete(eng, st, p.a if d else p.b, i)
        out = []
        for c, q in ((p.c, p.a), (z3.Not(p.c), p.b)):
            s = st.fork()
            s.pc.append(c)
            r = do_delete(eng, s, q, i)
            out += r if isinstance(r, list) else [(s, 'ret', r)]
        return out
    if not isinstance(p, Ptr):
        eng.oblig(st, 0, 'delete of an invalid pointer', 'memory', i)
        return 0
    o = st.mem.get(p.o)
    if o is None:
        eng.oblig(st, 0, 'double delete', 'memory', i)
        return 0
    if o.kind != 'heap' or not (type(p.off) is int and p.off == 0):
        eng.oblig(st, 0, 'delete of a pointer that was not allocated', 'memory', i)
        return 0
    del st.mem[p.o]
    return 0


# ------------------------------------------------------------------ memory functions
def by_target(eng, st, a, k, f):
    """f(state, arguments) for each object the pointer arguments k may point to"""
    for j in k:
        p = a[j]
        if isinstance(p, PIte):
            d = eng.decide(st, p.c)
            out = []
            for c, q in ((p.c, p.a), (z3.Not(p.c), p.b)):
                if d is not None and (c is p.c) != bool(d):
                    continue
                s = st
                if d is None:
                    s = st.fork()
                    s.pc.append(c)
                b = list(a)
                b[j] = q
                try:
                    out += by_target(eng, s, b, k, f)
                except Dead:
                    pass
            if not out:
                raise Dead()
            return out
    f(st, a)
    return [(st, 'ret', a[0])]


@model('memcpy', 'memmove')
def _(eng, st, a, i):
    return by_target(eng, st, list(a), (0, 1), lambda s, b: eng.memcpy(s, b[0], b[1], b[2]))


@model('memset')
def _(eng, st, a, i):
    return by_target(eng, st, list(a), (0,), lambda s, b: eng.memset(s, b[0], b[1], b[2]))


def rdb(eng, st, p, k):
    q = padd(p, k)
    if isinstance(q, PIte):
        d = eng.decide(st, q.c)
        if d is None:
            return eng.ite(q.c, rdb(eng, st, q.a, 0), rdb(eng, st, q.b, 0), 8)
        q = q.a if d else q.b
    if not eng.bounds(st, q, 1, 'load'):
        raise Dead()
    b = eng.rd(st, st.mem[q.o], q.off, 1)
    if b is UNDEF:
        b = eng.fresh(8, 'uninit')
    if isinstance(b, FV):
        raise Unsupported('byte of a float')
    return b if type(b) is int else simp(b)


@model('memcmp', 'bcmp')
def _(eng, st, a, i):
    n = a[2]
    if type(n) is not int:
        n = simp(n)
    if type(n) is not int:
        # decide small symbolic lengths
        for k in range(0, 65):
            if eng.must(st, n == k):
                n = k
                break
        else:
            raise Unsupported('memcmp of symbolic length')
    r = z3.BitVecVal(0, 32)
    pairs = []
    for k in range(n):
        x, y = rdb(eng, st, a[0], k), rdb(eng, st, a[1], k)
        if type(x) is int and type(y) is int:
            if x != y:
                pairs.append((1, x, y))
                break
            continue
        pairs.append((0, x, y))
    if not pairs:
        return 0
    if pairs[0][0]:
        return 1 if pairs[0][1] > pairs[0][2] else MASK[32]
    for d, x, y in reversed(pairs):
        lt = z3.If(z3.ULT(bv(x, 8), bv(y, 8)), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32))
        r = lt if d else z3.If(bv(x, 8) == bv(y, 8), r, lt)
    return simp(r)


@model('memchr')
def _(eng, st, a, i):
    n = a[2]
    if type(n) is not int or n > 5000:
        raise Unsupported('memchr of symbolic length')
    c = a[1] & 255 if type(a[1]) is int else z3.Extract(7, 0, a[1])
    r = 0
    bs = [rdb(eng, st, a[0], k) for k in range(n)]
    for k in reversed(range(n)):
        e = simp(bv(bs[k], 8) == bv(c, 8))
        p = padd(a[0], k)
        if type(e) is int:
            if e:
                r = p
            continue
        r = PIte(e, p, r)
    return r


@model('strlen')
def _(eng, st, a, i):
    p = a[0]
    k = 0
    while True:
        b = rdb(eng, st, p, k)
        if type(b) is not int:
            if eng.must(st, b != 0):
                k += 1
                continue
            if eng.must(st, b == 0):
                return k
            raise Unsupported('strlen of symbolic text')
        if b == 0:
            return k
        k += 1
        if k > 1 << 20:
            raise Unsupported('strlen')


# ------------------------------------------------------------------ maths
def conc(v, k='double'):
    return fbits_to_py(v, k) if type(v) is int else None


def fint(v):
    """integer-valued dyadic -> 64-bit value"""
    d = as_dy(v, 'double')
    if d is None or type(d[1]) is not int:
        return None
    if d[1] == 0:
        return d[0]
    if d[1] > 0 and type(d[0]) is int:
        return (d[0] << d[1]) & MASK[64]
    return None


def scale(eng, st, v, e):
    """v * 2^e exactly"""
    one = FV('double', None, (1, e))
    r = ops.fmul(eng, st, 'double', v, one)
    return r


def lo32(x):
    return x & MASK[32] if type(x) is int else simp(z3.Extract(31, 0, x))


@model('pow')
def _(eng, st, a, i):
    x, y = conc(a[0]), conc(a[1])
    if x is not None and y is not None:
        try:
            return py_to_fbits(math.pow(x, y), 'double')
        except OverflowError:
            return py_to_fbits(math.inf, 'double')
        except ValueError:
            return py_to_fbits(math.nan, 'double')
    if x is not None and x > 0 and math.frexp(x)[0] == 0.5:
        lg = math.frexp(x)[1] - 1
        n = fint(a[1])
        if n is not None:
            n = bv(n, 64) * z3.BitVecVal(lg & MASK[64], 64)
            if eng.must(st, z3.And(n >= -1022, n <= 1000)):
                e = lo32(simp(n))
                if type(e) is int:
                    e = sgn(e, 32)
                return ops.fold(FV('double', None, (1, e)))
    if x is not None:
        # an unknown but fixed function of the exponent: harness and code get the same value
        return z3.Function('pow_%016x' % py_to_fbits(x, 'double'), z3.BitVecSort(64), z3.BitVecSort(64))(parts(eng, a[1]))
    raise Unsupported('pow of symbolic arguments')


@model('ldexp', 'scalbn', '_ZSt5ldexpdi')
def _(eng, st, a, i):
    x = conc(a[0])
    if x is not None and type(a[1]) is int:
        try:
            return py_to_fbits(math.ldexp(x, sgn(a[1], 32)), 'double')
        except OverflowError:
            return py_to_fbits(math.copysign(math.inf, x), 'double')
    d = as_dy(a[0], 'double')
    if d is not None:
        e = a[1]
        if type(e) is int:
            e = sgn(e, 32)
        ne = ops.eadd(d[1], e)
        if type(ne) is int and -900 <= ne <= 900 or type(ne) is not int and eng.must(st, z3.And(
                bv(a[1], 32) >= -2000, bv(a[1], 32) <= 2000, ne >= -1000, ne <= 900)):
            return ops.fold(FV('double', None, (d[0], ne), isinstance(a[0], FV) and a[0].nz))
    b = a[0]
    if isinstance(b, z3.BitVecRef):
        ex = z3.ZeroExt(21, z3.Extract(62, 52, b))
        n = bv(a[1], 32)
        ne = ex + n
        iszero = z3.Extract(62, 0, b) == 0
        if eng.must(st, z3.Or(iszero, z3.And(ex != 0, ex != 0x7ff, n >= -4000, n <= 4000, ne >= 1, ne <= 2046))):
            return simp(z3.If(iszero, b, z3.Concat(z3.Extract(63, 63, b), z3.Extract(10, 0, ne), z3.Extract(51, 0, b))))
    raise Unsupported('ldexp of symbolic arguments')


@model('exp2')
def _(eng, st, a, i):
    return M['pow'](eng, st, [py_to_fbits(2.0, 'double'), a[0]], i)


def ufp(name, f):
    def g(eng, st, a, i):
        x = conc(a[0])
        if x is not None:
            try:
                return py_to_fbits(f(x), 'double')
            except (ValueError, OverflowError):
                return py_to_fbits(-math.inf if x == 0 and name.startswith('log') else math.nan, 'double')
        raise Unsupported(name + ' of a symbolic argument')
    return g


M['log'] = ufp('log', math.log)
M['log2'] = ufp('log2', math.log2)
M['log10'] = ufp('log10', math.log10)
M['exp'] = ufp('exp', math.exp)


def parts(eng, v):
    """sign, biased exponent, fraction bits of a double"""
    b = to_bits(v, 'double')
    if type(b) is int:
        b = z3.BitVecVal(b, 64)
    return b


@model('frexp')
def _(eng, st, a, i):
    x = conc(a[0])
    from .llvmc import Type
    if x is not None:
        m, e = math.frexp(x)
        eng.raw_store(st, a[1].o, a[1].off, 4, e & MASK[32])
        return py_to_fbits(m, 'double')
    d = as_dy(a[0], 'double')
    if d is not None:
        # m*2^e: position of the highest bit of |m|
        m = bv(d[0], 64)
        e = d[1]
        am = z3.If(m < 0, -m, m)
        n = z3.BitVecVal(0, 32)
        for k in range(54):
            n = z3.If(z3.UGE(am, z3.BitVecVal(1 << k, 64)), z3.BitVecVal(k + 1, 32), n)
        n = simp(n)
        ex = bv(n, 32) + bv(e & MASK[32] if type(e) is int else e, 32)
        ex = simp(z3.If(am == 0, z3.BitVecVal(0, 32), ex))
        eng.raw_store(st, a[1].o, a[1].off, 4, ex)
        return FV('double', None, (d[0], simp(-bv(n, 32))), isinstance(a[0], FV) and a[0].nz)
    b = parts(eng, a[0])
    ex = z3.Extract(62, 52, b)
    normal = z3.And(ex != 0, ex != 0x7ff)
    iszero = z3.Extract(62, 0, b) == 0
    if eng.must(st, z3.Or(normal, iszero)):
        ev = z3.If(iszero, z3.BitVecVal(0, 32), z3.ZeroExt(21, ex) - 1022)
        eng.raw_store(st, a[1].o, a[1].off, 4, simp(ev))
        r = z3.If(iszero, b, z3.Concat(z3.Extract(63, 63, b), z3.BitVecVal(1022, 11), z3.Extract(51, 0, b)))
        return simp(r)
    raise Unsupported('frexp of a non-finite or subnormal value')


@model('modf')
def _(eng, st, a, i):
    x = conc(a[0])
    if x is not None:
        f, n = math.modf(x)
        eng.raw_store(st, a[1].o, a[1].off, 8, py_to_fbits(n, 'double'))
        return py_to_fbits(f, 'double')
    raise Unsupported('modf of a symbolic argument')


def rnd(mode, name):
    def g(eng, st, a, i):
        d = as_dy(a[0], 'double')
        x = conc(a[0])
        if x is not None and not (x != x or x in (math.inf, -math.inf)):
            return py_to_fbits(float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[name](x)), 'double')
        if d is not None and type(d[1]) is int and d[1] >= 0:
            return a[0]
        if d is not None and type(d[1]) is int and d[1] > -64:
            m, s = bv(d[0], 64), -d[1]
            fl = m >> s
            if name == 'floor':
                r = fl
            elif name == 'ceil':
                r = -((-m) >> s)
            else:
                r = z3.If(m < 0, -((-m) >> s), fl)
            return FV('double', None, (simp(r), 0), True)
        return FV('double', z3.fpRoundToIntegral(mode, to_fp(a[0], 'double')))
    return g


for _s, _m in (('floor', z3.RTN()), ('ceil', z3.RTP()), ('trunc', z3.RTZ())):
    M[_s] = rnd(_m, _s)


@model('fabs')
def _(eng, st, a, i):
    return ops.fabs_('double', a[0])


@model('fabsf')
def _(eng, st, a, i):
    return ops.fabs_('float', a[0])


# ------------------------------------------------------------------ harness vocabulary
def uname(eng, st, n):
    c = dict(st.ghost.get('names') or {})
    k = c.get(n, 0)
    c[n] = k + 1
    st.ghost['names'] = c
    return '%s#%d' % (n, k)


@model('vf_nondet')
def _(eng, st, a, i):
    n = uname(eng, st, eng.read_cstr(st, a[0]).decode())
    w = a[1]
    key = ('in', n)
    t = eng.inputmap.get(n)
    if t is None:
        t = z3.BitVec('in.' + n, w)
        eng.inputmap[n] = t
        eng.inputs.append((n, t))
    return z3.ZeroExt(64 - w, t) if w < 64 else t


DECLEN = z3.Function('declen', z3.BitVecSort(64), z3.BitVecSort(64))
DECCHAR = z3.Function('decchar', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))


@model('vf_declen')
def _(eng, st, a, i):
    v = simp(bv(a[0], 64))
    if type(v) is int:
        return len(str(v))
    r = DECLEN(v)
    st.pc.append(z3.And(z3.UGE(r, 1), z3.ULE(r, 20)))
    return r


@model('vf_decchar')
def _(eng, st, a, i):
    v = simp(bv(a[0], 64))
    k = simp(bv(a[1], 64))
    if type(v) is int and type(k) is int:
        s = str(v)
        return ord(s[k]) if k < len(s) else 0
    return DECCHAR(bv(v, 64), bv(k, 64))


@model('vf_assume')
def _(eng, st, a, i):
    c = simp(boolv(a[0]))
    if type(c) is int:
        if c:
            return 0
        raise Dead()
    if not eng.feasible(st, c):
        raise Dead()
    st.pc.append(c)
    return 0


@model('vf_assert')
def _(eng, st, a, i):
    lab = eng.read_cstr(st, a[1]).decode()
    if not eng.oblig(st, a[0], lab, 'assert', i):
        raise Dead()
    return 0


@model('vf_cover')
def _(eng, st, a, i):
    if eng.spec:
        return 0
    lab = eng.read_cstr(st, a[0]).decode()
    if not eng.covers.get(lab):
        r = eng.check(st.pc, eng.solver)
        eng.covers[lab] = r == 'sat'
    return 0


@model('vf_symbolic')
def _(eng, st, a, i):
    return 1


@model('vf_root')
def _(eng, st, a, i):
    oid = eng.gaddr.get('vf.empty')
    if oid is None:
        oid = eng.gaddr['vf.empty'] = eng.nextoid
        eng.nextoid += 1
    if oid not in st.mem:
        st.mem[oid] = Obj(1, 'const', 'vf.empty', b'\0')
    return Ptr(oid, 0)


def files(st):
    return st.ghost.get('files') or {}


@model('vf_fnew')
def _(eng, st, a, i):
    name = eng.read_cstr(st, a[0])
    un = uname(eng, st, 'file.' + name.decode())
    arr = eng.inputmap.get(un)
    if arr is None:
        arr = z3.Array('in.' + un, z3.BitVecSort(64), z3.BitVecSort(8))
        eng.inputmap[un] = arr
    oid = eng.new_obj(st, a[1], 'file', name.decode(), ('arr', arr))
    if not any(n == un for n, t in eng.inputs):
        eng.inputs.append((un, ('file', arr, a[1])))
    f = dict(files(st))
    f[name] = oid
    st.ghost['files'] = f
    if not eng.assume(st, z3.ULE(bv(a[1], 64), z3.BitVecVal(1 << 62, 64))):
        raise Dead()
    return oid


@model('vf_fget')
def _(eng, st, a, i):
    return files(st).get(eng.read_cstr(st, a[0]), MASK[64])


@model('vf_fsize', 'vf_fs_size')
def _(eng, st, a, i):
    return st.mem[a[0]].size


def file_byte(eng, st, a, i):
    o = st.mem[a[0]]
    v = eng.rd(st, o, a[1] if type(a[1]) is int else norm(a[1]), 1)
    if v is UNDEF:
        raise Unsupported('file byte')
    return v


M['vf_fbyte'] = file_byte


@model('vf_fput')
def _(eng, st, a, i):
    eng.raw_store(st, a[0], a[1], 1, a[2])
    return 0


@model('vf_fzero')
def _(eng, st, a, i):
    eng.memset(st, Ptr(a[0], a[1]), 0, a[2])
    return 0


@model('vf_fs_open')
def _(eng, st, a, i):
    p, n, mode = a
    if type(n) is not int or type(mode) is not int:
        raise Unsupported('symbolic file name')
    bs = [rdb(eng, st, p, k) for k in range(n)]
    if any(type(b) is not int for b in bs):
        raise Unsupported('symbolic file name')
    name = bytes(bs)
    # libstdc++: app=1 ate=2 binary=4 in=8 out=16 trunc=32
    m = mode & (1 | 8 | 16 | 32)
    f = files(st)
    if m in (8, 8 | 16):
        return f.get(name, MASK[64])
    if m in (16, 16 | 32, 8 | 16 | 32):
        oid = eng.new_obj(st, 0, 'file', name.decode('latin1'), 'zero')
        f = dict(f)
        f[name] = oid
        st.ghost['files'] = f
        return oid
    if m & 1 and not m & 32:
        if name in f:
            return f[name]
        oid = eng.new_obj(st, 0, 'file', name.decode('latin1'), 'zero')
        f = dict(f)
        f[name] = oid
        st.ghost['files'] = f
        return oid
    return MASK[64]


@model('vf_fs_read')
def _(eng, st, a, i):
    h, pos, buf, n = a
    eng.memcpy(st, buf, Ptr(h, pos), n)
    return 0


M['vf_fcopy'] = lambda eng, st, a, i: M['vf_fs_read'](eng, st, [a[0], a[1], a[2], a[3]], i)


@model('vf_fs_write')
def _(eng, st, a, i):
    h, pos, buf, n = a
    n = simp(n)
    if type(n) is int and n == 0:
        return 0
    o = st.wobj(h)
    end = norm(add64(pos, n))
    d = eng.decide(st, z3.UGE(bv(end, 64), bv(o.size, 64)))
    if d is True:
        o.size = end
    elif d is None:
        o.size = z3.If(z3.UGE(bv(end, 64), bv(o.size, 64)), bv(end, 64), bv(o.size, 64))
    eng.memcpy(st, Ptr(h, pos), buf, n)
    return 0


# ------------------------------------------------------------------ LLVM intrinsics
def nop(eng, st, a, i):
    return 0


def minmax(f):
    def g(eng, st, a, i):
        w = i.ty.w
        x, y = a[0], a[1]
        if type(x) is int and type(y) is int:
            sx, sy = (sgn(x, w), sgn(y, w)) if f[0] == 's' else (x, y)
            return (max(sx, sy) if f.endswith('max') else min(sx, sy)) & MASK[w]
        x, y = bv(x, w), bv(y, w)
        c = {'smax': x >= y, 'smin': x <= y, 'umax': z3.UGE(x, y), 'umin': z3.ULE(x, y)}[f]
        d = eng.decide(st, c)
        if d is not None:
            return a[0] if d else a[1]
        return z3.If(c, x, y)
    return g


def fsh(left):
    def g(eng, st, a, i):
        w = i.ty.w
        if all(type(x) is int for x in a):
            s = a[2] % w
            v = (a[0] << w) | a[1]
            return (v >> (w - s)) & MASK[w] if left else (v >> s) & MASK[w]
        if type(a[2]) is int:
            s = a[2] % w
            v = z3.Concat(bv(a[0], w), bv(a[1], w))
            lo = w - s if left else s
            return simp(z3.Extract(lo + w - 1, lo, v))
        s = z3.URem(bv(a[2], w), z3.BitVecVal(w, w))
        v = z3.Concat(bv(a[0], w), bv(a[1], w))
        s2 = z3.ZeroExt(w, s)
        if left:
            return simp(z3.Extract(2 * w - 1, w, v << s2))
        return simp(z3.Extract(w - 1, 0, z3.LShR(v, s2)))
    return g


def bswap(eng, st, a, i):
    w = i.ty.w
    if type(a[0]) is int:
        return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
    v = bv(a[0], w)
    return simp(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, v) for k in range(w // 8)]))


def with_overflow(kind):
    def g(eng, st, a, i):
        w = i.ty.elems[0].w
        x, y = a
        sg = kind[0] == 's'
        op = kind[1:]
        if type(x) is int and type(y) is int:
            X, Y = (sgn(x, w), sgn(y, w)) if sg else (x, y)
            r = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
            rr = r & MASK[w]
            return [rr, 0 if (sgn(rr, w) if sg else rr) == r else 1]
        ext = z3.SignExt if sg else z3.ZeroExt
        X, Y = ext(w, bv(x, w)), ext(w, bv(y, w))
        r = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
        lo = z3.Extract(w - 1, 0, r)
        return [simp(lo), simp(ext(w, lo) != r)]
    return g


def popcnt(eng, st, a, i):
    w = i.ty.w
    if type(a[0]) is int:
        return bin(a[0]).count('1')
    v = bv(a[0], w)
    r = z3.BitVecVal(0, w)
    for k in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, v))
    return simp(r)


def ctlz(eng, st, a, i):
    w = i.ty.w
    if type(a[0]) is int:
        return w - a[0].bit_length()
    v = bv(a[0], w)
    r = z3.BitVecVal(w, w)
    for k in range(w):
        r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(w - 1 - k, w), r)
    return r


def cttz(eng, st, a, i):
    w = i.ty.w
    if type(a[0]) is int:
        return (a[0] & -a[0]).bit_length() - 1 if a[0] else w
    v = bv(a[0], w)
    r = z3.BitVecVal(w, w)
    for k in reversed(range(w)):
        r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(k, w), r)
    return r


def iabs(eng, st, a, i):
    w = i.ty.w
    if type(a[0]) is int:
        return abs(sgn(a[0], w)) & MASK[w]
    v = bv(a[0], w)
    return z3.If(v < 0, -v, v)


def lassume(eng, st, a, i):
    return 0


def typeid_for(eng, st, a, i):
    p = a[0]
    if type(p) is int:
        return eng.typeid('null')
    return eng.typeid(name_of(eng, p))


def trap(eng, st, a, i):
    eng.oblig(st, 0, 'trap reached', 'terminate', i)
    raise Dead()


def lfabs(eng, st, a, i):
    return ops.fabs_(i.ty.kind, a[0])


def is_const(eng, st, a, i):
    return 0


def objsize(eng, st, a, i):
    return MASK[i.ty.w]


def expect(eng, st, a, i):
    return a[0]


def fmuladd(eng, st, a, i):
    k = i.ty.kind
    return ops.fadd(eng, st, k, ops.fmul(eng, st, k, a[0], a[1]), a[2])


GEN = [
    ('llvm.lifetime', nop), ('llvm.dbg', nop), ('llvm.experimental.noalias', nop), ('llvm.assume', lassume),
    ('llvm.donothing', nop), ('llvm.invariant', nop), ('llvm.expect', expect), ('llvm.launder', expect),
    ('llvm.strip', expect), ('llvm.memcpy', M['memcpy']), ('llvm.memmove', M['memmove']), ('llvm.memset', M['memset']),
    ('llvm.smax', minmax('smax')), ('llvm.smin', minmax('smin')), ('llvm.umax', minmax('umax')),
    ('llvm.umin', minmax('umin')), ('llvm.abs', iabs), ('llvm.fshl', fsh(True)), ('llvm.fshr', fsh(False)),
    ('llvm.bswap', bswap), ('llvm.ctpop', popcnt), ('llvm.ctlz', ctlz), ('llvm.cttz', cttz),
    ('llvm.sadd.with', with_overflow('sadd')), ('llvm.uadd.with', with_overflow('uadd')),
    ('llvm.ssub.with', with_overflow('ssub')), ('llvm.usub.with', with_overflow('usub')),
    ('llvm.smul.with', with_overflow('smul')), ('llvm.umul.with', with_overflow('umul')),
    ('llvm.eh.typeid.for', typeid_for), ('llvm.trap', trap), ('llvm.fabs', lfabs), ('llvm.is.constant', is_const),
    ('llvm.objectsize', objsize), ('llvm.fmuladd', fmuladd), ('llvm.floor', M['floor']), ('llvm.ceil', M['ceil']),
    ('llvm.trunc', M['trunc']), ('llvm.pow', M['pow']), ('llvm.prefetch', nop),
    ('llvm.usub.sat', lambda e, s, a, i: usubsat(e, s, a, i)),
]


def usubsat(eng, st, a, i):
    w = i.ty.w
    if type(a[0]) is int and type(a[1]) is int:
        return max(0, a[0] - a[1])
    x, y = bv(a[0], w), bv(a[1], w)
    return z3.If(z3.UGE(x, y), x - y, z3.BitVecVal(0, w))


def generic(name):
    for p, f in GEN:
        if name.startswith(p):
            return f
    return None

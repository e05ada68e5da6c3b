"""Loops with a symbolic trip count are closed by induction.

From the state S0 at the loop header two iterations are run to see which cells are carried;
a candidate S_k (k an arbitrary iteration number) is written down: carried cells are affine in k
(or an unknown function of k), cells written at offsets affine in k become a region whose
element j is the value written by iteration j.  S_k is then checked: it is S0 at k=0 by
construction, and one more iteration from S_k must give exactly S_{k+1} (every carried cell
re-proved, every other cell unchanged, the same write pattern).  Obligations inside the body are
discharged in that generic iteration, so for all iterations.  Nothing here looks at how
the loop is written."""
import z3
from .values import *
from .engine import (NeedSummary, Fail, UNDEF, IntIte, BytePart, Dead, samev, same, whole, byte_of, subst_val,
                     StoreLayer, CopyLayer, FillLayer, DataLayer, SumLayer, OpaqueLayer, add64, sub64, mul64)

KMAX = 1 << 60
_uid = [0]


class LoopCtx:
    __slots__ = ('uid', 'H', 'mode', 'iters')

    def __init__(self, uid, H, mode, iters=0):
        self.uid = uid
        self.H = H
        self.mode = mode
        self.iters = iters

    def next(self):
        return LoopCtx(self.uid, self.H, self.mode, self.iters + 1)


def exits_of(F, H):
    body = F.loops[H]
    return frozenset(s for b in body for s in F.blocks[b].succs if s not in body)


def finish(outs, H, ex, stops):
    res = []
    for (s, f, kind, data) in outs:
        f.lctx.pop(H, None)
        if kind == 'at' and data[0] in ex and data[0] not in stops:
            res.append((s, f, 'go', data))
        else:
            res.append((s, f, kind, data))
    return res


def loop_entry(eng, st, fr, H, stops):
    F = fr.F
    ex = exits_of(F, H)
    s0, f0 = st.fork(), fr.copy()
    _uid[0] += 1
    uid = _uid[0]
    fr.lctx[H] = LoopCtx(uid, H, 'plain')
    try:
        outs = eng.region(st, fr, H, None, stops | ex, -3)
        return finish(outs, H, ex, stops)
    except NeedSummary as e:
        if e.uid != uid:
            raise
    try:
        # decimal formatting: as many iterations as digits, complete when unrolled
        if '__to_chars_' in F.name or 'basic_ostringstreamI' in F.name:
            raise Fail('digit loop')
        outs = summarise(eng, s0.fork(), f0.copy(), H, stops, ex)
        return finish(outs, H, ex, stops)
    except Fail as e:
        why = str(e)
    eng.log('loop in %s not summarised (%s): unrolled' % (F.name, why))
    if not eng.spec:
        eng.loops_unrolled[(F.name, H)] = why
    f0.lctx[H] = LoopCtx(uid, H, 'unroll')
    outs = eng.region(s0, f0, H, None, stops | ex, -3)
    return finish(outs, H, ex, stops)


def iterate(eng, s, f, H, stops, ex):
    _uid[0] += 1
    f.lctx[H] = LoopCtx(_uid[0], H, 'summ')
    outs = eng.region(s, f, H, None, stops | ex | {H}, -3)
    backs = [o for o in outs if o[2] == 'at' and o[3][0] == H and H not in stops or
             (o[2] == 'at' and o[3][0] == H and o[3][1] in f.F.loops[H])]
    others = [o for o in outs if not any(o is b for b in backs)]
    if len(backs) > 1:
        backs = eng.merge_at(f.F, H, backs)
    if len(backs) > 1:
        raise Fail('iteration has several shapes')
    if not backs:
        return None, others
    s1, f1, kind, data = backs[0]
    if not data[2]:
        eng.phis(s1, f1, H, data[1])
    return (s1, f1), others


def diff(eng, a, b):
    """cells that differ between two states: {(oid, off): n}, objects with new layers, new and
    removed objects"""
    cells = {}
    layers = set()
    new, gone = [], []
    for oid, ob in b.mem.items():
        oa = a.mem.get(oid)
        if oa is ob:
            continue
        if oa is None:
            new.append(oid)
            continue
        if not same(oa.size, ob.size):
            # size is treated as a cell of its own
            cells[(oid, 'size')] = 8
        if len(oa.layers) != len(ob.layers) or any(x is not y for x, y in zip(oa.layers, ob.layers)):
            layers.add(oid)
        da, db = oa.data, ob.data
        seen = set()
        for off in sorted(set(da) | set(db)):
            if off in seen:
                continue
            ea, eb = da.get(off), db.get(off)
            if ea is eb:
                continue
            if ea is not None and eb is not None and ea[1] == eb[1] and ea[2] == eb[2] and (ea[0] is eb[0] or samev(ea[0], eb[0])):
                continue
            if eb is not None and eb[2] == 0 and whole(db, off, eb):
                cells[(oid, off)] = eb[1]
                seen.update(range(off, off + eb[1]))
            elif eb is None and ea is not None:
                # cell flushed into a layer
                continue
            else:
                cells[(oid, off)] = 1
    for oid in a.mem:
        if oid not in b.mem:
            gone.append(oid)
    return cells, layers, new, gone


def cell(eng, st, key, n):
    oid, off = key
    o = st.mem[oid]
    if off == 'size':
        return o.size
    return eng.rd(st, o, off, n)


def width(v):
    if isinstance(v, z3.BitVecRef):
        return v.size()
    return None


def gen(eng, k, v0, v1, v2, w, facts, carried, name):
    """value at iteration k"""
    if v0 is not None and samev(v0, v1) and samev(v1, v2):
        return v0
    if isinstance(v0, Ptr) and isinstance(v1, Ptr) and isinstance(v2, Ptr):
        if v0.o == v1.o == v2.o:
            d1 = norm(sub64(v1.off, v0.off))
            d2 = norm(sub64(v2.off, v1.off))
            if same(d1, d2) and type(d1) is int:
                off = norm(add64(v0.off, mul64(k, d1)))
                carried.append((name, 'affine', v0, d1))
                return Ptr(v0.o, off)
            uf = z3.Function('c!%d' % eng_next(eng), z3.BitVecSort(64), z3.BitVecSort(64))
            facts.append(uf(z3.BitVecVal(0, 64)) == bv(v0.off, 64))
            carried.append((name, 'havocp', v0, uf))
            return Ptr(v0.o, uf(k))
        raise Fail('pointer carried across objects')
    if any(isinstance(v, (Ptr, PIte)) for v in (v0, v1, v2)):
        raise Fail('mixed pointer carried')
    if isinstance(v0, FV) or isinstance(v1, FV) or isinstance(v2, FV):
        uf = z3.Function('c!%d' % eng_next(eng), z3.BitVecSort(64), z3.BitVecSort(w))
        carried.append((name, 'havocf', v0, uf))
        return uf(k)
    if v0 is UNDEF or v0 is None or v1 is UNDEF or v2 is UNDEF:
        uf = z3.Function('c!%d' % eng_next(eng), z3.BitVecSort(64), z3.BitVecSort(w))
        carried.append((name, 'havoc', None, uf))
        return uf(k)
    if w == 1 or isinstance(v0, z3.BoolRef) or isinstance(v1, z3.BoolRef):
        uf = z3.Function('c!%d' % eng_next(eng), z3.BitVecSort(64), z3.BoolSort())
        facts.append(uf(z3.BitVecVal(0, 64)) == boolv(v0))
        carried.append((name, 'havocb', v0, uf))
        return uf(k)
    if isinstance(v0, list):
        raise Fail('aggregate carried')
    d1 = norm(simp(bv(v1, w) - bv(v0, w)), w)
    d2 = norm(simp(bv(v2, w) - bv(v1, w)), w)
    if type(d1) is int and type(d2) is int and d1 == d2:
        kk = k if w == 64 else z3.Extract(w - 1, 0, k)
        carried.append((name, 'affine', v0, d1))
        t = bv(v0, w) + kk * z3.BitVecVal(d1, w)
        return norm(t, w)
    uf = z3.Function('c!%d' % eng_next(eng), z3.BitVecSort(64), z3.BitVecSort(w))
    facts.append(uf(z3.BitVecVal(0, 64)) == bv(v0, w))
    carried.append((name, 'havoc', v0, uf))
    return uf(k)


def eng_next(eng):
    eng.fresh_n += 1
    return eng.fresh_n


def expected(k1, c, w):
    """value of an affine carried cell at iteration k1"""
    name, kind, v0, d = c
    if isinstance(v0, Ptr):
        return Ptr(v0.o, norm(add64(v0.off, mul64(k1, d))))
    kk = k1 if w == 64 else z3.Extract(w - 1, 0, k1)
    return bv(v0, w) + kk * z3.BitVecVal(d, w)


def max_fresh(t, cache=None):
    """largest n of any symbol name!n in a term"""
    m = 0
    seen = set()
    work = [t]
    while work:
        x = work.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if '!' in n:
                try:
                    m = max(m, int(n.rsplit('!', 1)[1]))
                except ValueError:
                    pass
        work.extend(x.children())
    return m


def layer_writes(eng, st, L):
    """(lo, n, val) pieces of a layer written inside an iteration"""
    if isinstance(L, StoreLayer):
        return [(L.lo, L.n, L.val)]
    n = norm(sub64(L.hi, L.lo))
    if type(n) is not int or n > 512:
        raise Fail('variable-length write inside the loop')
    out = []
    if isinstance(L, FillLayer):
        for i in range(n):
            out.append((norm(add64(L.lo, i)), 1, L.val))
        return out
    if isinstance(L, CopyLayer):
        i = 0
        while i < n:
            step = 8 if n - i >= 8 else 1
            v = eng.rd_layer(st, L, norm(add64(L.lo, i)), step)
            v = v.term() if hasattr(v, "term") else v
            out.append((norm(add64(L.lo, i)), step, v))
            i += step
        return out
    if isinstance(L, SumLayer):
        raise Fail('nested loop writes a region')
    raise Fail('unexpected layer')


def coeff(t, k):
    """t = base + c*k  ->  (c, base) or None"""
    const, at = linear(t)
    i = k.get_id()
    c = 0
    if i in at:
        c = at[i][1]
        at = dict(at)
        del at[i]
    for a, q in at.values():
        if occurs(a, k):
            return None
    if c >> 63:
        c -= 1 << 64
    return c, norm(lin_term(const, at))


def occurs(t, k):
    seen = set()
    work = [t]
    kid = k.get_id()
    while work:
        x = work.pop()
        i = x.get_id()
        if i == kid:
            return True
        if i in seen:
            continue
        seen.add(i)
        work.extend(x.children())
    return False


def summarise(eng, st, fr, H, stops, ex, peel=0):
    try:
        return summarise1(eng, st.fork(), fr.copy(), H, stops, ex)
    except Fail as e:
        why = e
    if getattr(why, 'narrow', False):
        try:
            return summarise1(eng, st.fork(), fr.copy(), H, stops, ex, True)
        except Fail as e:
            pass
    if peel >= 2:
        raise why
    # peel one iteration and try again from the next state
    s, f = st.fork(), fr.copy()
    back, others = iterate(eng, s, f, H, stops, ex)
    if back is None:
        return others
    try:
        rest = summarise(eng, back[0], back[1], H, stops, ex, peel + 1)
    except Fail:
        raise why
    return others + rest


def summarise1(eng, st0, fr0, H, stops, ex, nowrap=False):
    carried = []
    try:
        return summarise2(eng, st0, fr0, H, stops, ex, nowrap, carried)
    except Fail as e:
        e.narrow = any(wide_of(eng, c, 0) is not None for c in carried)
        raise


def wide_of(eng, c, k):
    """the 64-bit value of a 32-bit counter if it never wraps"""
    name, kind, v0, d = c
    if kind != 'affine' or isinstance(v0, Ptr) or name[0] != 'r' and name[3] != 4 or not 0 < d < 64:
        return None
    if type(v0) is int:
        if v0 >> 32:
            return None
        return z3.BitVecVal(v0, 64) + k * d
    if z3.is_bv(v0) and v0.size() == 32:
        return z3.ZeroExt(32, v0) + k * d
    return None


def summarise2(eng, st0, fr0, H, stops, ex, nowrap, carried):
    F = fr0.F
    hdr = F.blocks[H]
    phis = [(I.dst, I.ty) for I in hdr.insts[:hdr.nphi]]
    eng.spec += 1
    try:
        b1, o1 = iterate(eng, st0.fork(), fr0.copy(), H, stops, ex)
        if b1 is None:
            raise Fail('loop body does not repeat')
        s1, f1 = b1
        b2, o2 = iterate(eng, s1.fork(), f1.copy(), H, stops, ex)
        if b2 is None:
            raise Fail('at most one iteration')
        s2, f2 = b2
        for (x, y) in ((st0, s1), (s1, s2)):
            if x.ghost != y.ghost:
                raise Fail('ghost state changes')
        c01, l01, n01, g01 = diff(eng, st0, s1)
        c12, l12, n12, g12 = diff(eng, s1, s2)
        keys = {q: n for q, n in c12.items() if q in c01 and c01[q] == n}
        extra = {}
        base_fresh = None
        for attempt in range(6):
            k = eng.fresh(64, 'k')
            base_fresh = eng.fresh_n
            facts = []
            del carried[:]
            sk, fk = st0.fork(), fr0.copy()
            regw = {}
            for r, t in phis:
                w = t.w if t.kind != 'ptr' else 64
                regw[r] = w
                fk.regs[r] = gen(eng, k, late(fr0.regs[r], t), late(f1.regs[r], t), late(f2.regs[r], t), w, facts, carried, ('r', r))
            for (oid, off), n in list(keys.items()) + list(extra.items()):
                if oid not in st0.mem:
                    continue
                v0 = cell(eng, st0, (oid, off), n)
                if (oid, off) in extra:
                    v1 = v2 = None
                    if isinstance(v0, (Ptr, PIte)):
                        raise Fail('pointer cell changes irregularly')
                    w = 8 * n
                    uf = z3.Function('c!%d' % eng_next(eng), z3.BitVecSort(64), z3.BitVecSort(w))
                    carried.append((('m', oid, off, n), 'havoc', None, uf))
                    v = uf(k)
                else:
                    v1 = cell(eng, s1, (oid, off), n)
                    v2 = cell(eng, s2, (oid, off), n)
                    v = gen(eng, k, v0, v1, v2, 8 * n, facts, carried, ('m', oid, off, n))
                if off == 'size':
                    sk.wobj(oid).size = v
                else:
                    eng.raw_store(sk, oid, off, n, v)
            base_fresh = eng.fresh_n
            sk.pc.append(z3.ULT(k, z3.BitVecVal(KMAX, 64)))
            sk.pc.extend(facts)
            wides = []
            if nowrap:
                # candidate invariant: 32-bit counters do not wrap
                wides = [c for c in carried if wide_of(eng, c, k) is not None and (c[0][0] == 'm' or regw[c[0][1]] == 32)]
                sk.pc.extend(z3.ULT(wide_of(eng, c, k), z3.BitVecVal(1 << 32, 64)) for c in wides)
            # objects that get symbolic writes: flush concrete cells first so layers line up
            arr = set()
            ok = True
            b, o = iterate(eng, sk.fork(), fk.copy(), H, stops, ex)
            if b is None:
                raise Fail('generic iteration does not repeat')
            cells, lay, new, gone = diff(eng, sk, b[0])
            known = set(keys) | set(extra)
            unexpected = {q: n for q, n in cells.items() if q not in known and q[0] not in lay}
            for q, n in cells.items():
                if q not in known and q[0] in lay and q[1] != 'size':
                    unexpected[q] = n
            # cells vanish from data when flushed; ignore those
            if unexpected:
                extra.update(unexpected)
                # a cell may overlap a differently sized known one
                continue
            break
        else:
            raise Fail('carried set does not stabilise')
        if gone:
            raise Fail('loop frees memory it did not allocate')
        cc = closed_conds(sk, b[0], base_fresh)
        sk.pc.extend(history(cc, k))
        # array regions
        regions = {}
        entries = {}
        if lay:
            for oid in lay:
                ob = sk.wobj(oid)
                if ob.data:
                    ob.layers.append(DataLayer(ob.data))
                    ob.data = {}
            # re-run with flushed objects, opaque earlier content
            b, o = iterate(eng, sk.fork(), fk.copy(), H, stops, ex)
            if b is None:
                raise Fail('generic iteration does not repeat')
            pat = patterns(eng, sk, b[0], lay, k)
            for oid, (lo, stride, ents) in pat.items():
                ob = sk.wobj(oid)
                uf = z3.Function('old!%d' % eng_next(eng), z3.BitVecSort(64), z3.BitVecSort(8))
                if stride > 0:
                    L = OpaqueLayer(lo, norm(add64(lo, mul64(k, stride))), uf)
                else:
                    L = OpaqueLayer(norm(add64(lo, mul64(k, stride))), lo, uf)
                    raise Fail('descending writes')
                ob.layers.append(L)
            base2 = eng.fresh_n
            b, o = iterate(eng, sk.fork(), fk.copy(), H, stops, ex)
            if b is None:
                raise Fail('generic iteration does not repeat')
            pat = patterns(eng, sk, b[0], lay, k)
            kf = eng.fresh(64, 'kf')
            for oid, (lo, stride, ents) in pat.items():
                ob = sk.wobj(oid)
                ob.layers.pop()
                es = []
                for c, n, v in ents:
                    check_closed(v, base2)
                    es.append((c, n, subst_val(v, k, kf)))
                ob.layers.append(SumLayer(lo, stride, k, kf, es))
            base_fresh = eng.fresh_n
    finally:
        eng.spec -= 1
    # the real, checked iteration
    b, others = iterate(eng, sk.fork(), fk.copy(), H, stops, ex)
    if b is None:
        raise Fail('generic iteration does not repeat')
    sn, fn = b
    cells, lay2, new, gone = diff(eng, sk, sn)
    known = set(keys) | set(extra)
    for q in cells:
        if q not in known:
            raise Fail('cell outside the invariant changes')
    if gone or sn.ghost != sk.ghost:
        raise Fail('frame')
    if not lay2 <= lay:
        raise Fail('write pattern changes')
    if lay:
        pat2 = patterns(eng, sk, sn, lay, k)
        for oid, (lo, stride, ents) in pat2.items():
            L = sk.mem[oid].layers[-1]
            if stride != L.stride or not same(norm(lo), norm(L.lo)) or len(ents) != len(L.entries):
                raise Fail('write pattern not inductive')
            for (c, n, v), (c2, n2, v2) in zip(ents, L.entries):
                w = subst_val(v2, L.kvar, k)
                v = simp(v) if isinstance(v, z3.ExprRef) else v
                if c != c2 or n != n2 or not (samev(v, w) or equal(eng, sn, v, w)):
                    raise Fail('written value not inductive')
    k1 = k + 1
    for c in wides:
        if not eng.must(sn, z3.ULT(wide_of(eng, c, k1), z3.BitVecVal(1 << 32, 64))):
            raise Fail('counter may wrap')
    steps = []
    for c in carried:
        name, kind, v0, d = c
        if name[0] == 'r':
            v = fn.regs[name[1]]
            w = regw[name[1]]
            if isinstance(v, IntIte):
                v = v.term(eng.regtype(F, name[1]))
        else:
            v = cell(eng, sn, (name[1], name[2]), name[3])
            w = 8 * name[3]
        if kind == 'affine':
            e = expected(k1, c, w)
            if isinstance(e, Ptr):
                if not isinstance(v, Ptr) or v.o != e.o:
                    raise Fail('pointer invariant')
                dd = norm(sub64(v.off, e.off))
                if not (type(dd) is int and dd == 0) and not eng.must(sn, bv(dd, 64) == 0):
                    raise Fail('pointer invariant')
            else:
                if isinstance(v, (Ptr, PIte, FV)) or v is UNDEF:
                    raise Fail('invariant kind')
                if not eng.must(sn, bv(v, w) == bv(e, w)):
                    raise Fail('affine invariant')
        elif kind == 'havocp':
            if not isinstance(v, Ptr) or v.o != v0.o:
                raise Fail('pointer invariant')
            steps.append((d, v.off, 64))
        elif kind == 'havoc':
            if isinstance(v, (Ptr, PIte)):
                raise Fail('invariant kind')
            if isinstance(v, (z3.BitVecRef, int)) and not isinstance(v, bool):
                steps.append((d, v, w))
        elif kind == 'havocb':
            if isinstance(v, (z3.BoolRef, int)):
                steps.append((d, boolv(v), 1))
    # the history used above is re-established by this iteration
    for x in cc:
        if not eng.must(sn, x):
            raise Fail('history not inductive')
    # facts about the previous iteration for the exit states
    cc = closed_conds(sk, sn, base_fresh)
    km = k - 1
    hist = [z3.substitute(x, (k, km)) for x in cc]
    for uf, v, w in steps:
        if isinstance(v, z3.ExprRef) and max_fresh(v) > base_fresh:
            continue
        lhs = uf(k)
        rhs = v if isinstance(v, z3.ExprRef) else z3.BitVecVal(v, w)
        hist.append(lhs == z3.substitute(rhs, (k, km)))
    fact = None
    if hist:
        fact = z3.Or(k == 0, z3.And(hist))
    res = []
    for o in others:
        if fact is not None:
            o[0].pc.append(fact)
            if eng.check(o[0].pc) == 'unsat':
                continue
        res.append(o)
    if not eng.spec:
        eng.havocs += sum(1 for c in carried if c[1] != 'affine')
        key = (F.name, hdr.insts[-1].file.replace('/repo/', ''), hdr.insts[-1].line)
        eng.loops_summarised[key] = eng.loops_summarised.get(key, 0) + 1
    return res


def closed_conds(sk, sn, base):
    return [x for x in sn.pc[len(sk.pc):] if max_fresh(x) <= base]


def kterm(t, k, w):
    """coefficient of k (or of its low w bits) and the rest, in a width-w linear term"""
    const, at = linear(t, w)
    c = 0
    rest = {}
    for i, (a, q) in at.items():
        if a.get_id() == k.get_id():
            c += q
            continue
        if w < 64 and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_EXTRACT and a.arg(0).get_id() == k.get_id() \
                and z3.Z3_get_decl_int_parameter(a.ctx_ref(), a.decl().ast, 1) == 0:
            c += q
            continue
        if occurs(a, k):
            return None
        rest[i] = (a, q)
    c &= MASK[w]
    if c >> (w - 1):
        c -= 1 << w
    return c, lin_term(const, rest, w)


def instances(x, k):
    """terms j worth instantiating 'x held in every earlier iteration' at"""
    out = []
    work = [x]
    while work:
        t = work.pop()
        if z3.is_not(t) or z3.is_and(t) or z3.is_or(t):
            work.extend(t.children())
            continue
        if z3.is_eq(t) and z3.is_bv(t.arg(0)):
            w = t.arg(0).size()
            r = kterm(t.arg(0) - t.arg(1), k, w)
            if r is None:
                continue
            c, R = r
            if c == 0 or abs(c) > 1 << 20:
                continue
            R = bv(R, w)
            j = z3.UDiv(-R, z3.BitVecVal(c, w)) if c > 0 else z3.UDiv(R, z3.BitVecVal(-c, w))
            if w < 64:
                j = z3.ZeroExt(64 - w, j)
            out.append(z3.simplify(j))
    return out


def history(cc, k):
    """what 'cc held in every iteration before k' says about k"""
    res = []
    km = k - 1
    for x in cc:
        if not occurs(x, k):
            res.append(z3.Or(k == 0, x))
            continue
        res.append(z3.Or(k == 0, z3.substitute(x, (k, km))))
        for j in instances(x, k):
            res.append(z3.Or(z3.Not(z3.ULT(j, k)), z3.substitute(x, (k, j))))
    return res


def late(v, t):
    return v.term(t) if isinstance(v, IntIte) else v


def equal(eng, st, v, w):
    if isinstance(v, z3.BitVecRef) and isinstance(w, (z3.BitVecRef, int)):
        return eng.must(st, v == bv(w, v.size()))
    if isinstance(w, z3.BitVecRef) and isinstance(v, int):
        return eng.must(st, w == bv(v, w.size()))
    if isinstance(v, FV) and isinstance(w, FV):
        if v.dy and w.dy:
            e1 = bv(v.dy[1] & MASK[32], 32) if type(v.dy[1]) is int else v.dy[1]
            e2 = bv(w.dy[1] & MASK[32], 32) if type(w.dy[1]) is int else w.dy[1]
            return eng.must(st, z3.And(bv(v.dy[0], 64) == bv(w.dy[0], 64), e1 == e2))
        return z3.simplify(v.fp).get_id() == z3.simplify(w.fp).get_id()
    if isinstance(v, Ptr) and isinstance(w, Ptr) and v.o == w.o:
        return eng.must(st, bv(v.off, 64) == bv(w.off, 64))
    return False


def check_closed(v, base):
    """the written value must be a function of k alone (no symbols born inside the iteration)"""
    ts = []
    if isinstance(v, z3.ExprRef):
        ts = [v]
    elif isinstance(v, FV):
        ts = [x for x in (v._fp,) if x is not None]
        if v.dy:
            ts += [x for x in v.dy if isinstance(x, z3.ExprRef)]
    elif isinstance(v, Ptr):
        ts = [v.off] if isinstance(v.off, z3.ExprRef) else []
    elif isinstance(v, PIte):
        raise Fail('conditional pointer written')
    for t in ts:
        if max_fresh(t) > base:
            raise Fail('written value is not a function of the iteration')


def patterns(eng, sk, sn, lay, k):
    """write pattern per object: (base, stride, [(c, n, val)])"""
    out = {}
    for oid in lay:
        la, lb = sk.mem[oid].layers, sn.mem[oid].layers
        if lb[:len(la)] != la and any(x is not y for x, y in zip(la, lb)):
            raise Fail('layers rewritten')
        if len(lb) < len(la):
            raise Fail('layers dropped')
        ws = []
        for L in lb[len(la):]:
            if isinstance(L, DataLayer):
                for off, e in L.data.items():
                    ea = sk.mem[oid].data.get(off)
                    if ea is None or not samev(ea[0], e[0]):
                        raise Fail('mixed concrete and symbolic writes')
                continue
            ws += layer_writes(eng, sn, L)
        cs = []
        stride = None
        for lo, n, v in ws:
            r = coeff(lo, k)
            if r is None:
                raise Fail('write offset not affine')
            c, base = r
            if c == 0:
                raise Fail('write at a fixed symbolic offset')
            if stride is None:
                stride = c
            elif stride != c:
                raise Fail('several strides')
            cs.append((base, n, v))
        if not cs:
            continue
        b0 = cs[0][0]
        ents = []
        for base, n, v in cs:
            d = norm(sub64(base, b0))
            if type(d) is not int:
                raise Fail('unrelated writes in one object')
            if d >> 63:
                d -= 1 << 64
            ents.append((d, n, v))
        mn = min(d for d, n, v in ents)
        mx = max(d + n for d, n, v in ents)
        if mx - mn > abs(stride):
            raise Fail('iterations overlap')
        if stride < 0:
            raise Fail('descending writes')
        out[oid] = (norm(add64(b0, mn & MASK[64])), stride, [(d - mn, n, v) for d, n, v in ents[::-1]])
    return out

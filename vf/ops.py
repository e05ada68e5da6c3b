"""Instruction semantics (mixed into Engine)."""
import math
import z3
from .values import *
from .engine import (Engine, UNDEF, IntIte, Ptr, PIte, Dead, add64, sub64, mul64, norm, padd)


def term(v, t):
    """resolve late-typed / undefined operands"""
    if isinstance(v, IntIte):
        return v.term(t)
    return v


def ex(eng, st, fr, o, t):
    v = eng.opval(st, fr, o)
    if isinstance(v, IntIte):
        return v.term(t)
    if v is UNDEF and t.kind == 'int':
        return eng.fresh(t.w, 'undef')
    if isinstance(v, FV) and t.kind == 'int':
        return to_bits(v, v.k)
    return v


def as_addr(p):
    """integer view of a pointer (object id in the high bits)"""
    if isinstance(p, Ptr):
        return add64(p.o << 40, p.off)
    if isinstance(p, PIte):
        return z3.If(p.c, bv(as_addr(p.a), 64), bv(as_addr(p.b), 64))
    return p


def elementwise(f):
    def g(self, st, fr, I):
        if I.ty.kind == 'vector':
            return vec(self, st, fr, I, f)
        return f(self, st, fr, I, I.ty, self_op(self, st, fr, I, 0), self_op(self, st, fr, I, 1))
    return g


def self_op(self, st, fr, I, k):
    return ex(self, st, fr, I.ops[k], I.ty)


def vec(self, st, fr, I, f):
    a = self.opval(st, fr, I.ops[0])
    b = self.opval(st, fr, I.ops[1])
    if a is UNDEF:
        a = [UNDEF] * I.ty.n
    if b is UNDEF:
        b = [UNDEF] * I.ty.n
    return [f(self, st, fr, I, I.ty.elem, x, y) for x, y in zip(a, b)]


def is_ptr(v):
    return isinstance(v, (Ptr, PIte))


def binop_add(self, a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & MASK[w]
    if is_ptr(a):
        return padd(a, b)
    if is_ptr(b):
        return padd(b, a)
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    return bv(a, w) + bv(b, w)


Engine.binop_add = binop_add


def overflow_check(self, st, I, c, what):
    if I.x and I.x[0] and I.file.startswith('/repo'):
        self.oblig(st, c, 'signed overflow in ' + what, 'poison', I)    # else it wraps


@elementwise
def op_add(self, st, fr, I, t, a, b):
    w = t.w
    if I.x[0] and self.check_overflow and not is_ptr(a) and not is_ptr(b):
        if type(a) is int and type(b) is int:
            r = sgn(a, w) + sgn(b, w)
            if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                overflow_check(self, st, I, 0, 'addition')
        else:
            overflow_check(self, st, I, z3.And(z3.BVAddNoOverflow(bv(a, w), bv(b, w), True),
                                               z3.BVAddNoUnderflow(bv(a, w), bv(b, w))), 'addition')
    return binop_add(self, a, b, w)


@elementwise
def op_sub(self, st, fr, I, t, a, b):
    w = t.w
    if type(a) is int and type(b) is int:
        return (a - b) & MASK[w]
    if is_ptr(a) or is_ptr(b):
        return self.ptr_sub(st, a, b)
    if type(b) is int and b == 0:
        return a
    if I.x[0] and self.check_overflow:
        overflow_check(self, st, I, z3.And(z3.BVSubNoOverflow(bv(a, w), bv(b, w)),
                                           z3.BVSubNoUnderflow(bv(a, w), bv(b, w), True)), 'subtraction')
    return bv(a, w) - bv(b, w)


@elementwise
def op_mul(self, st, fr, I, t, a, b):
    w = t.w
    if type(a) is int and type(b) is int:
        return (a * b) & MASK[w]
    if is_ptr(a) or is_ptr(b):
        a, b = as_addr(a), as_addr(b)
    if type(a) is int and a in (0, 1):
        return b if a else 0
    if type(b) is int and b in (0, 1):
        return a if b else 0
    if I.x[0] and self.check_overflow:
        overflow_check(self, st, I, z3.And(z3.BVMulNoOverflow(bv(a, w), bv(b, w), True),
                                           z3.BVMulNoUnderflow(bv(a, w), bv(b, w))), 'multiplication')
    return bv(a, w) * bv(b, w)


def nonzero(self, st, b, w):
    if type(b) is int:
        if b == 0:
            self.oblig(st, 0, 'division by zero', 'arith')
            raise Dead()
        return
    if not self.oblig(st, b != 0, 'division by zero', 'arith'):
        raise Dead()


@elementwise
def op_udiv(self, st, fr, I, t, a, b):
    w = t.w
    a, b = as_addr(a), as_addr(b)
    nonzero(self, st, b, w)
    if type(a) is int and type(b) is int:
        return a // b
    if type(b) is int and b == 1:
        return a
    return lin_div(a, b, w, False, self, st) if type(b) is int else z3.UDiv(bv(a, w), bv(b, w))


def lin_div(a, b, w, signed, self, st):
    """exact division of a linear form all of whose coefficients are multiples of b"""
    c, at = linear(a, w)
    half = 1 << (w - 1)
    ok = True
    out = {}
    for i, (x, k) in at.items():
        ks = k - (1 << w) if k >= half else k
        if ks % b:
            ok = False
            break
        out[i] = (x, (ks // b) & MASK[w])
    cs = c - (1 << w) if c >= half else c
    if ok and at and cs % b == 0:
        q = lin_term((cs // b) & MASK[w], out, w)
        # valid when the multiplication did not wrap
        if signed:
            cond = z3.And(z3.BVMulNoOverflow(q, z3.BitVecVal(b, w), True), z3.BVMulNoUnderflow(q, z3.BitVecVal(b, w)))
        else:
            cond = z3.BVMulNoOverflow(q, z3.BitVecVal(b, w), False)
        if self.must(st, cond):
            return q
    if signed:
        return bv(a, w) / bv(b, w)
    return z3.UDiv(bv(a, w), bv(b, w))


@elementwise
def op_sdiv(self, st, fr, I, t, a, b):
    w = t.w
    a, b = as_addr(a), as_addr(b)
    nonzero(self, st, b, w)
    if type(a) is int and type(b) is int:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & MASK[w]
    if type(b) is int and b == 1:
        return a
    if type(b) is int and b < (1 << (w - 1)):
        return lin_div(a, b, w, True, self, st)
    return bv(a, w) / bv(b, w)


@elementwise
def op_urem(self, st, fr, I, t, a, b):
    w = t.w
    a, b = as_addr(a), as_addr(b)
    nonzero(self, st, b, w)
    if type(a) is int and type(b) is int:
        return a % b
    return z3.URem(bv(a, w), bv(b, w))


@elementwise
def op_srem(self, st, fr, I, t, a, b):
    w = t.w
    a, b = as_addr(a), as_addr(b)
    nonzero(self, st, b, w)
    if type(a) is int and type(b) is int:
        x, y = sgn(a, w), sgn(b, w)
        return int(math.copysign(abs(x) % abs(y), x)) & MASK[w] if abs(x) < 2**50 else ((abs(x) % abs(y)) * (-1 if x < 0 else 1)) & MASK[w]
    return z3.SRem(bv(a, w), bv(b, w))


def shifter(f):
    def g(self, st, fr, I, t, a, b):
        w = t.w
        if type(b) is int and b < w:
            return f(self, st, fr, I, t, as_addr(a), b)
        b = as_addr(b)
        ok = int(b < w) if type(b) is int else z3.ULT(bv(b, w), w)
        if type(b) is int:
            return self.poison(st, 0, 0, w, 'shift amount out of range', I)
        return self.poison(st, ok, f(self, st, fr, I, t, as_addr(a), b), w, 'shift amount out of range', I)
    return g


@elementwise
@shifter
def op_shl(self, st, fr, I, t, a, b):
    w = t.w
    if type(a) is int and type(b) is int:
        return (a << b) & MASK[w]
    if type(b) is int:
        if b == 0:
            return a
        if b % 8 == 0:
            # bytes put together: keep them visible as bytes
            c = z3.simplify(a)
            if c.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(c.arg(0)) and c.arg(0).as_long() == 0:
                return z3.simplify(z3.Concat(z3.Extract(w - 1 - b, 0, c), z3.BitVecVal(0, b)))
        return a * z3.BitVecVal(1 << b, w)
    return bv(a, w) << bv(b, w)


@elementwise
@shifter
def op_lshr(self, st, fr, I, t, a, b):
    w = t.w
    if type(a) is int and type(b) is int:
        return a >> b
    if type(b) is int and b == 0:
        return a
    if type(b) is int and not type(a) is int and w == 64 and b <= 5:
        return lin_div(a, 1 << b, w, False, self, st) if maybe_lin(a, 1 << b) else z3.LShR(a, b)
    return z3.LShR(bv(a, w), bv(b, w))


def maybe_lin(a, b):
    k = a.decl().kind()
    return k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB)


@elementwise
@shifter
def op_ashr(self, st, fr, I, t, a, b):
    w = t.w
    if type(a) is int and type(b) is int:
        return (sgn(a, w) >> b) & MASK[w]
    if type(b) is int and b == 0:
        return a
    if type(b) is int and not type(a) is int and w == 64 and b <= 5 and maybe_lin(a, 1 << b):
        c, at = linear(a, w)
        if all(k % (1 << b) == 0 for x, k in at.values()) and c % (1 << b) == 0:
            return lin_div(a, 1 << b, w, True, self, st)
    return bv(a, w) >> bv(b, w)


@elementwise
def op_and(self, st, fr, I, t, a, b):
    w = t.w
    if type(a) is int and type(b) is int:
        return a & b
    if w == 1:
        if type(a) is int:
            return b if a else 0
        if type(b) is int:
            return a if b else 0
        return z3.And(boolv(a), boolv(b))
    a, b = as_addr(a), as_addr(b)
    for x, y in ((a, b), (b, a)):
        if type(x) is int:
            if x == 0:
                return 0
            if x == MASK[w]:
                return y
            if x & (x + 1) == 0 and not type(y) is int:
                n = x.bit_length()
                return z3.ZeroExt(w - n, z3.Extract(n - 1, 0, y))
    if type(a) is int and type(b) is int:
        return a & b
    return bv(a, w) & bv(b, w)


@elementwise
def op_or(self, st, fr, I, t, a, b):
    w = t.w
    if type(a) is int and type(b) is int:
        return a | b
    if w == 1:
        if type(a) is int:
            return 1 if a else b
        if type(b) is int:
            return 1 if b else a
        return z3.Or(boolv(a), boolv(b))
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    a, b = as_addr(a), as_addr(b)
    return bv(a, w) | bv(b, w)


@elementwise
def op_xor(self, st, fr, I, t, a, b):
    w = t.w
    if type(a) is int and type(b) is int:
        return a ^ b
    if w == 1:
        if type(a) is int:
            return z3.Not(boolv(b)) if a else b
        if type(b) is int:
            return z3.Not(boolv(a)) if b else a
        return z3.Xor(boolv(a), boolv(b))
    a, b = as_addr(a), as_addr(b)
    return bv(a, w) ^ bv(b, w)


def op_alloca(self, st, fr, I):
    n = self.opval(st, fr, I.ops[0])
    if type(n) is not int:
        raise Unsupported('variable-length alloca')
    oid = self.new_obj(st, I.x.size * n, 'alloca')
    fr.allocas.append(oid)
    return Ptr(oid, 0)


def op_load(self, st, fr, I):
    p = self.opval(st, fr, I.ops[0])
    return self.load(st, term(p, PTR), I.ty)


class _P:
    kind = 'ptr'
    w = 64


PTR = _P()


def op_store(self, st, fr, I):
    v = self.opval(st, fr, I.ops[0])
    p = self.opval(st, fr, I.ops[1])
    v = term(v, I.x)
    self.store(st, term(p, PTR), v, I.x)


def op_gep(self, st, fr, I):
    vals = [self.opval(st, fr, o) for o in I.ops]
    vals = [term(v, t) for v, t in zip(vals, I.x[1])]
    if vals[0] is UNDEF:
        return UNDEF
    return self.gep(vals[0], I.x[0], vals[1:], I.x[1][1:])


def conv(f):
    def g(self, st, fr, I):
        v = self.opval(st, fr, I.ops[0])
        v = term(v, I.x)
        if I.ty.kind == 'vector':
            if v is UNDEF:
                v = [UNDEF] * I.ty.n
            return [f(self, st, I, x if x is not UNDEF else self.undef(I.x.elem), I.x.elem, I.ty.elem) for x in v]
        if v is UNDEF and I.x.kind != 'ptr':
            v = self.undef(I.x)
        return f(self, st, I, v, I.x, I.ty)
    return g


@conv
def op_trunc(self, st, I, v, t0, t1):
    if type(v) is int:
        return v & MASK[t1.w]
    v = as_addr(v)
    if type(v) is int:
        return v & MASK[t1.w]
    if t1.w == 1:
        return simp(z3.Extract(0, 0, v) == 1)
    return z3.Extract(t1.w - 1, 0, v)


@conv
def op_zext(self, st, I, v, t0, t1):
    if type(v) is int:
        return v
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, t1.w), z3.BitVecVal(0, t1.w))
    if t1.w == 64 and t0.w == 32 and z3.is_bv(v):
        # an iteration number cut to 32 bits, or a sum with one: widen it where nothing wraps
        c, at = linear(v, 32)
        if 1 <= len(at) <= 2:
            wide = z3.BitVecVal(c - (1 << 32) if c >> 31 else c, 64)
            hit = False
            for a, k in at.values():
                if a.decl().kind() == z3.Z3_OP_EXTRACT and z3.is_const(a.arg(0)) and a.arg(0).decl().name().startswith('k!') \
                        and z3.Z3_get_decl_int_parameter(a.ctx_ref(), a.decl().ast, 1) == 0:
                    hit = True
                    a = a.arg(0)
                else:
                    a = z3.ZeroExt(32, a)
                wide = wide + a * z3.BitVecVal(k - (1 << 32) if k >> 31 else k, 64)
            if hit:
                wide = z3.simplify(wide)
                if self.must(st, z3.ZeroExt(32, v) == wide):
                    return wide
    return z3.ZeroExt(t1.w - t0.w, v)


@conv
def op_sext(self, st, I, v, t0, t1):
    if type(v) is int:
        return sgn(v, t0.w) & MASK[t1.w]
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(MASK[t1.w], t1.w), z3.BitVecVal(0, t1.w))
    return sext_dist(self, st, v, t0.w, t1.w)


def sext_dist(self, st, v, w0, w1):
    """sign extension of a linear form: distribute when no wrap can happen (keeps offsets linear)"""
    if w1 == 64 and w0 == 32:
        c, at = linear(v, w0)
        if len(at) == 1:
            (a, k), = at.values()
            ks = k - (1 << w0) if k >> (w0 - 1) else k
            cs = c - (1 << w0) if c >> (w0 - 1) else c
            if ks != 1 or cs != 0:
                wide = z3.SignExt(32, a) * z3.BitVecVal(ks, 64) + z3.BitVecVal(cs, 64)
                if self.must(st, z3.SignExt(32, v) == wide):
                    return wide
    return z3.SignExt(w1 - w0, v)


def op_ptrtoint(self, st, fr, I):
    v = term(self.opval(st, fr, I.ops[0]), I.x)
    return v


def op_inttoptr(self, st, fr, I):
    return term(self.opval(st, fr, I.ops[0]), I.x)


def op_bitcast(self, st, fr, I):
    v = term(self.opval(st, fr, I.ops[0]), I.x)
    if I.ty.kind == 'int' and isinstance(v, FV):
        return to_bits(v, v.k)
    if (I.ty.kind == 'vector') != (I.x.kind == 'vector'):
        raise Unsupported('vector bitcast')
    if I.ty.kind == 'vector' and I.ty.n != I.x.n:
        raise Unsupported('vector bitcast')
    return v


def op_freeze(self, st, fr, I):
    v = self.opval(st, fr, I.ops[0])
    if v is UNDEF:
        return self.undef(I.ty)
    return v


def op_addrspacecast(self, st, fr, I):
    return self.opval(st, fr, I.ops[0])


def icmp(self, st, pred, t, a, b):
    if is_ptr(a) or is_ptr(b):
        if isinstance(a, PIte):
            return self.ite(a.c, icmp(self, st, pred, t, a.a, b), icmp(self, st, pred, t, a.b, b), 1)
        if isinstance(b, PIte):
            return self.ite(b.c, icmp(self, st, pred, t, a, b.a), icmp(self, st, pred, t, a, b.b), 1)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o:
                a, b = a.off, b.off
                if pred[0] == 's':
                    pass
            else:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                a, b = a.o, b.o
        else:
            # pointer against an integer (null)
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            a = as_addr(a)
            b = as_addr(b)
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        x, y = boolv(a), boolv(b)
        if pred == 'eq':
            if type(b) is int:
                return x if b else simp(z3.Not(x))
            return x == y
        if pred == 'ne':
            if type(b) is int:
                return simp(z3.Not(x)) if b else x
            return z3.Xor(x, y)
        a, b = bv(x, 1), bv(y, 1)
    w = t.w if t.kind != 'ptr' else 64
    if type(a) is int and type(b) is int:
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                    'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pred])
    if pred == 'eq' or pred == 'ne':
        # compare linear forms first
        if w == 64:
            d = norm(bv(a, w) - bv(b, w), w)
            if type(d) is int:
                return int((d == 0) == (pred == 'eq'))
        x, y = bv(a, w), bv(b, w)
        return simp(x == y) if pred == 'eq' else simp(x != y)
    a, b = bv(a, w), bv(b, w)
    r = {'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE}.get(pred)
    if r is not None:
        return simp(r(a, b))
    if pred == 'sgt':
        return simp(a > b)
    if pred == 'sge':
        return simp(a >= b)
    if pred == 'slt':
        return simp(a < b)
    return simp(a <= b)


def op_icmp(self, st, fr, I):
    pred, t = I.x
    a = self.opval(st, fr, I.ops[0])
    b = self.opval(st, fr, I.ops[1])
    if t.kind == 'vector':
        return [icmp(self, st, pred, t.elem, x, y) for x, y in zip(a, b)]
    a, b = term(a, t), term(b, t)
    if a is UNDEF or b is UNDEF:
        if t.kind == 'ptr':
            # comparing an uninitialised pointer: nondeterministic
            return self.fresh(1, 'undefcmp')
        if a is UNDEF:
            a = self.undef(t)
        if b is UNDEF:
            b = self.undef(t)
    if isinstance(a, FV):
        a = to_bits(a, a.k)
    if isinstance(b, FV):
        b = to_bits(b, b.k)
    return icmp(self, st, pred, t, a, b)


def op_select(self, st, fr, I):
    c = self.opval(st, fr, I.ops[0])
    a = self.opval(st, fr, I.ops[1])
    b = self.opval(st, fr, I.ops[2])
    c = term(c, None)
    a, b = term(a, I.ty), term(b, I.ty)
    if isinstance(c, list):
        return [self.ite(simp(boolv(x)), y, z, I.ty.elem.w) for x, y, z in zip(c, a, b)]
    if c is UNDEF:
        c = self.fresh(1)
    if type(c) is int:
        return a if c & 1 else b
    if a is UNDEF or b is UNDEF:
        return b if a is UNDEF else a
    return self.ite(boolv(c), a, b, I.ty.w)


def op_extractvalue(self, st, fr, I):
    v = self.opval(st, fr, I.ops[0])
    for i in I.x:
        v = v[i]
    return v


def op_insertvalue(self, st, fr, I):
    v = self.opval(st, fr, I.ops[0])
    x = self.opval(st, fr, I.ops[1])

    def ins(a, t, ix):
        if a is UNDEF:
            a = [UNDEF] * (len(t.elems) if t.kind == 'struct' else t.n)
        a = list(a)
        if len(ix) == 1:
            a[ix[0]] = x
        else:
            a[ix[0]] = ins(a[ix[0]], t.elems[ix[0]] if t.kind == 'struct' else t.elem, ix[1:])
        return a
    return ins(v, I.ty, I.x)


def op_extractelement(self, st, fr, I):
    v = self.opval(st, fr, I.ops[0])
    i = self.opval(st, fr, I.ops[1])
    if type(i) is not int:
        raise Unsupported('symbolic vector index')
    return v[i] if v is not UNDEF else UNDEF


def op_insertelement(self, st, fr, I):
    v = self.opval(st, fr, I.ops[0])
    x = self.opval(st, fr, I.ops[1])
    i = self.opval(st, fr, I.ops[2])
    if v is UNDEF:
        v = [UNDEF] * I.ty.n
    v = list(v)
    v[i] = x
    return v


def op_shufflevector(self, st, fr, I):
    raise Unsupported('shufflevector')


def op_fence(self, st, fr, I):
    return None


def op_atomicrmw(self, st, fr, I):
    raise Unsupported('atomicrmw')


def op_cmpxchg(self, st, fr, I):
    raise Unsupported('cmpxchg')


# ------------------------------------------------------------------ floating point
def e_ok(self, st, e):
    if type(e) is int:
        return -1000 <= e <= 900
    return self.must(st, z3.And(e >= -1000, e <= 900))


def pow2(d):
    """(sign, exponent) when the dyadic is +-2^e with constant mantissa"""
    m, e = d
    if type(m) is not int or m == 0:
        return None
    s = sgn(m, 64)
    a = abs(s)
    if a & (a - 1):
        return None
    return (1 if s > 0 else -1, eadd(e, a.bit_length() - 1))


def eadd(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    return simp(bv(a & MASK[32] if type(a) is int else a, 32) + bv(b & MASK[32] if type(b) is int else b, 32))


def eneg(a):
    if type(a) is int:
        return -a
    return simp(-a)


def fold(v):
    """concrete dyadics to bit patterns"""
    if isinstance(v, FV) and v.dy and type(v.dy[0]) is int and type(v.dy[1]) is int:
        if v.dy[0] == 0 and v.nz:
            return v
        return py_to_fbits(math.ldexp(sgn(v.dy[0], 64), v.dy[1]), v.k)
    return v


def fmul(self, st, k, a, b):
    if type(a) is int and type(b) is int:
        x, y = fbits_to_py(a, k), fbits_to_py(b, k)
        try:
            return py_to_fbits(x * y, k)
        except OverflowError:
            pass
    if k == 'double':
        da, db = as_dy(a, k), as_dy(b, k)
        if da and db:
            for x, y, vx in ((da, db, a), (db, da, b)):
                p = pow2(y)
                if p:
                    s, e = p
                    ne = eadd(x[1], e)
                    if e_ok(self, st, ne):
                        m = x[0]
                        nz = isinstance(vx, FV) and vx.nz
                        if s < 0:
                            m = (-m) & MASK[64] if type(m) is int else -m
                            nz = True
                        return fold(FV(k, None, (m, ne), nz))
            # exact product: +-1 times anything, or mantissas that together stay within 53 bits
            ne = eadd(da[1], db[1])
            if e_ok(self, st, ne):
                for x, y in ((da, db), (db, da)):
                    m = bv(y[0], 64)
                    if type(y[0]) is not int and self.must(st, z3.Or(m == 1, m == -1)):
                        x0 = bv(x[0], 64)
                        return fold(FV(k, None, (simp(z3.If(m == 1, x0, -x0)), ne), True))
                ba, bb = mbits(self, st, da[0]), mbits(self, st, db[0])
                if ba is not None and bb is not None and ba + bb <= 53:
                    return fold(FV(k, None, (simp(bv(da[0], 64) * bv(db[0], 64)), ne), True))
    return FV(k, z3.fpMul(RNE, to_fp(a, k), to_fp(b, k)))


def mbits(self, st, m):
    """b with |m| <= 2^b"""
    if type(m) is int:
        return abs(sgn(m, 64)).bit_length()
    for b in (1, 8, 16, 24, 32, 40, 48):
        if self.must(st, z3.And(m <= (1 << b), m >= -(1 << b))):
            return b
    return None


def fdiv(self, st, k, a, b):
    if type(a) is int and type(b) is int:
        x, y = fbits_to_py(a, k), fbits_to_py(b, k)
        if y != 0:
            return py_to_fbits(x / y, k)
    if k == 'double':
        da, db = as_dy(a, k), as_dy(b, k)
        if da and db:
            p = pow2(db)
            if p:
                s, e = p
                ne = eadd(da[1], eneg(e))
                if e_ok(self, st, ne):
                    m = da[0]
                    nz = isinstance(a, FV) and a.nz
                    if s < 0:
                        m = (-m) & MASK[64] if type(m) is int else -m
                        nz = True
                    return fold(FV(k, None, (m, ne), nz))
    return FV(k, z3.fpDiv(RNE, to_fp(a, k), to_fp(b, k)))


def fadd(self, st, k, a, b, sub=False):
    if type(a) is int and type(b) is int:
        x, y = fbits_to_py(a, k), fbits_to_py(b, k)
        return py_to_fbits(x - y if sub else x + y, k)
    if k == 'double':
        da, db = as_dy(a, k), as_dy(b, k)
        if da and db and type(da[1]) is int and type(db[1]) is int:
            e = min(da[1], db[1])
            if max(da[1], db[1]) - e <= 60:
                x = z3.SignExt(64, bv(da[0], 64)) << (da[1] - e)
                y = z3.SignExt(64, bv(db[0], 64)) << (db[1] - e)
                r = x - y if sub else x + y
                lim = z3.BitVecVal(1 << 53, 128)
                if self.must(st, z3.And(r <= lim, r >= -lim)):
                    return fold(FV(k, None, (simp(z3.Extract(63, 0, r)), e), True))
    f = z3.fpSub if sub else z3.fpAdd
    return FV(k, f(RNE, to_fp(a, k), to_fp(b, k)))


def fop(f):
    def g(self, st, fr, I):
        t = I.ty
        a = term(self.opval(st, fr, I.ops[0]), t)
        b = term(self.opval(st, fr, I.ops[1]), t)
        if t.kind == 'vector':
            return [f(self, st, t.elem.kind, x, y) for x, y in zip(a, b)]
        if a is UNDEF:
            a = self.undef(t)
        if b is UNDEF:
            b = self.undef(t)
        return f(self, st, t.kind, a, b)
    return g


op_fmul = fop(fmul)
op_fdiv = fop(fdiv)
op_fadd = fop(fadd)
op_fsub = fop(lambda self, st, k, a, b: fadd(self, st, k, a, b, True))


def op_frem(self, st, fr, I):
    raise Unsupported('frem')


def fneg(k, v):
    if type(v) is int:
        return v ^ (1 << (63 if k == 'double' else 31))
    if isinstance(v, FV):
        if v.dy is not None:
            m = v.dy[0]
            m = (-m) & MASK[64] if type(m) is int else -m
            return FV(k, None, (m, v.dy[1]), True)
        return FV(k, z3.fpNeg(v.fp))
    w = 64 if k == 'double' else 32
    return v ^ z3.BitVecVal(1 << (w - 1), w)


def op_fneg(self, st, fr, I):
    v = term(self.opval(st, fr, I.ops[0]), I.ty)
    return fneg(I.ty.kind, v)


def fabs_(k, v):
    w = 64 if k == 'double' else 32
    if type(v) is int:
        return v & MASK[w - 1]
    if isinstance(v, FV):
        if v.dy is not None:
            m = v.dy[0]
            return FV(k, None, (z3.If(m < 0, -m, m), v.dy[1]), False)
        return FV(k, z3.fpAbs(v.fp))
    return v & z3.BitVecVal(MASK[w - 1], w)


def fcmp(self, st, pred, k, a, b):
    if pred in ('true', 'false'):
        return int(pred == 'true')
    if type(a) is int and type(b) is int:
        x, y = fbits_to_py(a, k), fbits_to_py(b, k)
        nan = x != x or y != y
        base = pred[1:]
        if pred == 'ord':
            return int(not nan)
        if pred == 'uno':
            return int(nan)
        r = {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[base]
        if nan:
            return int(pred[0] == 'u')
        return int(r)
    da, db = as_dy(a, k), as_dy(b, k)
    if da and db:
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        base = pred[1:]
        x, y = bv(da[0], 64), bv(db[0], 64)
        if same_e(da[1], db[1]) or (base in ('eq', 'ne', 'gt', 'ge', 'lt', 'le') and zero(da[0])) or zero(db[0]):
            if zero(da[0]) or zero(db[0]) or same_e(da[1], db[1]):
                return simp({'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
                             'lt': lambda: x < y, 'le': lambda: x <= y}[base]())
        # same exponent provably
        e1 = bv(da[1] & MASK[32], 32) if type(da[1]) is int else da[1]
        e2 = bv(db[1] & MASK[32], 32) if type(db[1]) is int else db[1]
        if base in ('eq', 'ne') and self.must(st, z3.And(x == y, z3.Or(e1 == e2, x == 0))):
            return int(base == 'eq')
        if self.must(st, e1 == e2):
            return simp({'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
                         'lt': lambda: x < y, 'le': lambda: x <= y}[base]())
        if type(da[1]) is int and type(db[1]) is int and abs(da[1] - db[1]) <= 60:
            e = min(da[1], db[1])
            x = z3.SignExt(64, x) << (da[1] - e)
            y = z3.SignExt(64, y) << (db[1] - e)
            return simp({'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
                         'lt': lambda: x < y, 'le': lambda: x <= y}[base]())
        # symbolic exponents: align on a common exponent when the spread is provably small
        d = e1 - e2
        if self.must(st, z3.And(d >= -200, d <= 200)):
            W = 64 + 210
            dx = z3.SignExt(W - 32, z3.If(d > 0, d, z3.BitVecVal(0, 32)))
            dy_ = z3.SignExt(W - 32, z3.If(d < 0, -d, z3.BitVecVal(0, 32)))
            X = z3.SignExt(W - 64, x) << dx
            Y = z3.SignExt(W - 64, y) << dy_
            return simp({'eq': lambda: X == Y, 'ne': lambda: X != Y, 'gt': lambda: X > Y, 'ge': lambda: X >= Y,
                         'lt': lambda: X < Y, 'le': lambda: X <= Y}[base]())
    x, y = to_fp(a, k), to_fp(b, k)
    if x.get_id() == y.get_id() and pred in ('oeq', 'une'):
        r = z3.Not(z3.fpIsNaN(x))
        return simp(r if pred == 'oeq' else z3.Not(r))
    nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    if pred == 'ord':
        return simp(z3.Not(nan))
    if pred == 'uno':
        return simp(nan)
    base = pred[1:]
    r = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}.get(base)
    r = r(x, y) if r else z3.Not(z3.fpEQ(x, y))
    if pred[0] == 'o':
        return simp(z3.And(z3.Not(nan), r)) if base == 'ne' else simp(r)
    return simp(z3.Or(nan, r)) if base != 'ne' else simp(r)


def zero(m):
    return type(m) is int and m == 0


def same_e(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is int or type(b) is int:
        return False
    return a.get_id() == b.get_id()


def op_fcmp(self, st, fr, I):
    pred, t = I.x
    a = term(self.opval(st, fr, I.ops[0]), t)
    b = term(self.opval(st, fr, I.ops[1]), t)
    if t.kind == 'vector':
        return [fcmp(self, st, pred, t.elem.kind, x, y) for x, y in zip(a, b)]
    if a is UNDEF:
        a = self.undef(t)
    if b is UNDEF:
        b = self.undef(t)
    return fcmp(self, st, pred, t.kind, a, b)


def itofp(self, st, v, w, k, signed):
    if type(v) is int:
        x = sgn(v, w) if signed else v
        return py_to_fbits(float(x), k)
    v = as_addr(v)
    if isinstance(v, z3.BoolRef):
        v = bv(v, w)
    lim = 53 if k == 'double' else 24
    if w < lim or (w == lim and not signed):
        m = z3.SignExt(64 - w, v) if signed else z3.ZeroExt(64 - w, v)
        return FV(k, None, (m, 0))
    L = z3.BitVecVal(1 << lim, 64)
    m = v if w == 64 else (z3.SignExt(64 - w, v) if signed else z3.ZeroExt(64 - w, v))
    c = z3.And(m <= L, m >= -L)
    if self.must(st, c):
        return FV(k, None, (m, 0))
    s = F64 if k == 'double' else F32
    return FV(k, z3.fpSignedToFP(RNE, v, s) if signed else z3.fpUnsignedToFP(RNE, v, s))


@conv
def op_sitofp(self, st, I, v, t0, t1):
    return itofp(self, st, v, t0.w, t1.kind, True)


@conv
def op_uitofp(self, st, I, v, t0, t1):
    return itofp(self, st, v, t0.w, t1.kind, False)


@conv
def op_fpext(self, st, I, v, t0, t1):
    if type(v) is int:
        return py_to_fbits(fbits_to_py(v, 'float'), 'double')
    if isinstance(v, FV):
        if v.dy is not None:
            return FV('double', None, v.dy, v.nz, v)
        return FV('double', z3.fpFPToFP(RNE, v.fp, F64), None, False, v)
    return FV('double', z3.fpFPToFP(RNE, bits_to_fp(v, 'float'), F64), None, False, v)


@conv
def op_fptrunc(self, st, I, v, t0, t1):
    if type(v) is int:
        return py_to_fbits(fbits_to_py(v, 'double'), 'float')
    if isinstance(v, FV):
        if v.src32 is not None:
            return v.src32
        if v.dy is not None:
            m, e = v.dy
            L = z3.BitVecVal(1 << 24, 64)
            mm = bv(m, 64)
            ee = bv(e & MASK[32], 32) if type(e) is int else e
            if self.must(st, z3.And(mm <= L, mm >= -L, ee >= -120, ee <= 100)):
                return FV('float', None, v.dy, v.nz)
    return FV('float', z3.fpFPToFP(RNE, to_fp(v, 'double'), F32))


FPRANGE = 'floating value out of range in conversion to integer'


def fptoint(self, st, I, v, k, w, signed):
    if type(v) is int:
        x = fbits_to_py(v, k)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if x != x or x in (math.inf, -math.inf) or not lo <= int(x) <= hi:
            return self.poison(st, 0, 0, w, FPRANGE, I)
        return int(x) & MASK[w]
    d = as_dy(v, k)
    if d and type(d[1]) is int and -64 < d[1] <= 15:
        m, e = bv(d[0], 64), d[1]
        M = z3.SignExt(16, m)
        if e >= 0:
            r = M << e
        else:
            s = -e
            r = z3.If(M < 0, -((-M) >> s), M >> s)
        W = 80
        if signed:
            ok = z3.And(r >= -(1 << (w - 1)), r <= (1 << (w - 1)) - 1)
        else:
            ok = z3.And(r >= 0, r <= (1 << w) - 1)
        return self.poison(st, ok, simp(z3.Extract(w - 1, 0, r)), w, FPRANGE, I)
    if k == 'double' and isinstance(v, z3.BitVecRef):
        # raw bits: shift the significand
        E = z3.ZeroExt(53, z3.Extract(62, 52, v))
        sig = z3.Concat(z3.BitVecVal(1, 12), z3.Extract(51, 0, v))
        mag = z3.If(z3.ULT(E, 1023), z3.BitVecVal(0, 64),
                    z3.If(z3.ULE(E, 1075), z3.LShR(sig, 1075 - E), sig << (E - 1075)))
        neg = z3.Extract(63, 63, v) == 1
        fin = z3.ULE(E, 1023 + 63)
        if signed:
            lim = z3.BitVecVal(1 << (w - 1), 64)
            ok = z3.And(fin, z3.If(neg, z3.ULE(mag, lim), z3.ULT(mag, lim)))
        else:
            ok = z3.And(fin, z3.If(neg, mag == 0, z3.ULE(mag, z3.BitVecVal(MASK[w], 64))))
        return self.poison(st, ok, simp(z3.Extract(w - 1, 0, z3.If(neg, -mag, mag))), w, FPRANGE, I)
    f = to_fp(v, k)
    s = F64 if k == 'double' else F32
    # range check on the truncated value
    tr = z3.fpRoundToIntegral(RTZ, f)
    if signed:
        lo, hi = z3.FPVal(-float(1 << (w - 1)), s), z3.FPVal(float(1 << (w - 1)), s)
        ok = z3.And(z3.fpGEQ(tr, lo), z3.fpLT(tr, hi))
    else:
        hi = z3.FPVal(float(1 << w), s)
        ok = z3.And(z3.fpGEQ(tr, z3.FPVal(0.0, s)), z3.fpLT(tr, hi))
    return self.poison(st, ok, z3.fpToSBV(RTZ, f, z3.BitVecSort(w)) if signed else z3.fpToUBV(RTZ, f, z3.BitVecSort(w)),
                       w, FPRANGE, I)


@conv
def op_fptosi(self, st, I, v, t0, t1):
    return fptoint(self, st, I, v, t0.kind, t1.w, True)


@conv
def op_fptoui(self, st, I, v, t0, t1):
    return fptoint(self, st, I, v, t0.kind, t1.w, False)


Engine.check_overflow = True
for _n, _f in list(globals().items()):
    if _n.startswith('op_'):
        setattr(Engine, _n, _f)

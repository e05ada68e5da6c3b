"""Value domain of the executor: machine integers are Python ints or z3 bit-vector
terms, i1 is 0/1 or a z3 Bool, pointers are Ptr(object, offset), and computed
floating point values are FV objects (bit patterns stay plain integers)."""
import math
import struct
import z3

RNE = z3.RNE()
RTZ = z3.RTZ()
F64 = z3.Float64()
F32 = z3.Float32()
MASK = [(1 << i) - 1 for i in range(257)]

BVS = {}


def bvsort(w):
    s = BVS.get(w)
    if s is None:
        s = BVS[w] = z3.BitVecSort(w)
    return s


class Unsupported(Exception):
    """the engine cannot execute this: the run is incomplete, never a violation"""


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


class PIte:
    """pointer-valued if-then-else"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class FV:
    """computed floating-point value: an FP term, and/or an exact dyadic form m*2^e
    (m: 64-bit two's complement with |m| <= 2^53; e: int or 32-bit term), valid only when the
    represented number is exactly representable.  nz: may be a negative zero when m is 0."""
    __slots__ = ('k', '_fp', 'dy', 'nz', 'src32')

    def __init__(self, k, fp=None, dy=None, nz=False, src32=None):
        self.k = k
        self._fp = fp
        self.dy = dy
        self.nz = nz
        self.src32 = src32

    @property
    def fp(self):
        if self._fp is None:
            m, e = self.dy
            s = F64 if self.k == 'double' else F32
            if isinstance(m, int):
                mv = z3.FPVal(sgn(m, 64), F64)
            else:
                mv = z3.fpSignedToFP(RNE, m, F64)
            if isinstance(e, int):
                sc = bits_to_fp(((1023 + e) << 52), 'double')
            else:
                sc = z3.fpBVToFP(z3.Concat(z3.Extract(11, 0, e + 1023), z3.BitVecVal(0, 52)), F64)
            r = mv if (isinstance(e, int) and e == 0) else z3.fpMul(RNE, mv, sc)
            if s is F32:
                r = z3.fpFPToFP(RNE, r, F32)
            self._fp = r
        return self._fp

    def __repr__(self):
        return 'FV(%s dy=%s)' % (self.k, self.dy)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def is_c(v):
    return type(v) is int


def bv(v, w):
    if type(v) is int or type(v) is bool:
        return z3.BitVecVal(v & MASK[w], w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def boolv(v):
    if type(v) is int or type(v) is bool:
        return z3.BoolVal(bool(v))
    if isinstance(v, z3.BitVecRef):
        return v == z3.BitVecVal(1, v.size())
    return v


def simp(t):
    if type(t) is int:
        return t
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return 1
    if z3.is_false(t):
        return 0
    return t


def size_of(v):
    return v.size()


def bits_to_fp(b, k):
    s = F64 if k == 'double' else F32
    w = 64 if k == 'double' else 32
    if type(b) is int:
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(b & MASK[w], w), s))
    return z3.fpBVToFP(b, s)


def fbits_to_py(b, k):
    if k == 'double':
        return struct.unpack('<d', struct.pack('<Q', b & MASK[64]))[0]
    return struct.unpack('<f', struct.pack('<I', b & MASK[32]))[0]


def py_to_fbits(x, k):
    if k == 'double':
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def to_fp(v, k):
    if isinstance(v, FV):
        return v.fp
    return bits_to_fp(v, k)


def to_bits(v, k):
    if isinstance(v, FV):
        if v.dy is not None and v._fp is None:
            m, e = v.dy
            if is_c(m) and is_c(e):
                return py_to_fbits(math.ldexp(sgn(m, 64), e), v.k)
        return z3.fpToIEEEBV(v.fp)
    return v


def as_dy(v, k):
    """exact dyadic form of a value, or None"""
    if isinstance(v, FV):
        return v.dy
    if type(v) is int:
        x = fbits_to_py(v, k)
        if x != x or x in (math.inf, -math.inf):
            return None
        if x == 0:
            return (0, 0)
        m, e = math.frexp(x)
        m = int(math.ldexp(m, 53))
        e -= 53
        while m % 2 == 0:
            m //= 2
            e += 1
        if 0 < e <= 10 and abs(m) < (1 << 40):
            m <<= e
            e = 0
        return (m & MASK[64], e)
    return None


# ---- linear normal form of 64-bit terms ------------------------------------------------
def linear(t, w=64):
    """t -> (const, {atom_id: (atom, coeff)}) modulo 2^w"""
    if type(t) is int:
        return t & MASK[w], {}
    M = MASK[w]
    const = 0
    at = {}
    work = [(t, 1)]
    while work:
        x, c = work.pop()
        if type(x) is int:
            const = (const + c * x) & M
            continue
        if z3.is_bv_value(x):
            const = (const + c * x.as_long()) & M
            continue
        kd = x.decl().kind()
        if kd == z3.Z3_OP_BADD:
            for y in x.children():
                work.append((y, c))
        elif kd == z3.Z3_OP_BSUB:
            ch = x.children()
            work.append((ch[0], c))
            for y in ch[1:]:
                work.append((y, -c))
        elif kd == z3.Z3_OP_BNEG:
            work.append((x.arg(0), -c))
        elif kd == z3.Z3_OP_BMUL:
            k = 1
            rest = []
            for y in x.children():
                if z3.is_bv_value(y):
                    k = (k * y.as_long()) & M
                else:
                    rest.append(y)
            if len(rest) == 1:
                work.append((rest[0], c * k))
            elif not rest:
                const = (const + c * k) & M
            else:
                p = rest[0]
                for y in rest[1:]:
                    p = p * y
                i = p.get_id()
                o = at.get(i)
                at[i] = (p, ((o[1] if o else 0) + c * k) & M)
        elif kd == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)):
            s = x.arg(1).as_long()
            work.append((x.arg(0), c * (1 << s) if s < w else 0))
        elif kd == z3.Z3_OP_CONCAT and x.num_args() == 2 and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() == 0 \
                and z3.is_app(x.arg(0)) and x.arg(0).decl().kind() == z3.Z3_OP_EXTRACT \
                and z3.Z3_get_decl_int_parameter(x.ctx_ref(), x.arg(0).decl().ast, 1) == 0 \
                and x.arg(0).arg(0).size() == w:
            # Concat(Extract(w-1-s,0,y), 0_s) is y << s
            s = x.arg(1).size()
            work.append((x.arg(0).arg(0), c * (1 << s)))
        else:
            i = x.get_id()
            o = at.get(i)
            at[i] = (x, ((o[1] if o else 0) + c) & M)
    at = {i: p for i, p in at.items() if p[1]}
    return const, at


def lin_term(const, at, w=64):
    t = None
    for a, c in at.values():
        if c == 1:
            x = a
        else:
            x = a * z3.BitVecVal(c, w)
        t = x if t is None else t + x
    if t is None:
        return const & MASK[w]
    if const & MASK[w]:
        t = t + z3.BitVecVal(const, w)
    return t


def norm(t, w=64):
    if type(t) is int:
        return t & MASK[w]
    c, at = linear(t, w)
    if not at:
        return c
    # deterministic order
    at = dict(sorted(at.items()))
    return lin_term(c, at, w)

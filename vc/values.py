"""Value domain of the verifier: machine integers (python int or z3 bit-vector),
pointers (object id, offset in linear form), IEEE floats."""
import struct, math
import z3

M64 = (1 << 64) - 1


class Unsupported(Exception):
    """something outside the verifier's reach: makes the proof undecided, never a violation"""


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


# ---------------------------------------------------------------- linear offsets
class Lin:
    __slots__ = ("c", "t", "_z")

    def __init__(self, c, t):
        self.c = c & M64
        self.t = t          # {ast id: (expr, coeff)}
        self._z = None

    def bv(self):
        if self._z is None:
            r = None
            for e, k in self.t.values():
                x = e if k == 1 else e * z3.BitVecVal(k, 64)
                r = x if r is None else r + x
            if self.c:
                r = r + z3.BitVecVal(self.c, 64)
            self._z = r
        return self._z

    def __repr__(self):
        return "Lin(%d%s)" % (self.c, "".join(" + %d*%s" % (k, e) for e, k in self.t.values()))


def norm(l):
    if isinstance(l, Lin) and not l.t:
        return l.c
    return l


def lin_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & M64
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return a if b == 0 else Lin(a.c + b, a.t)
    t = dict(a.t)
    for i, (e, k) in b.t.items():
        if i in t:
            nk = (t[i][1] + k) & M64
            if nk == 0:
                del t[i]
            else:
                t[i] = (e, nk)
        else:
            t[i] = (e, k)
    return norm(Lin(a.c + b.c, t))


def lin_scale(a, s):
    if isinstance(a, int):
        return (a * s) & M64
    s &= M64
    if s == 0:
        return 0
    t = {}
    for i, (e, k) in a.t.items():
        nk = (k * s) & M64
        if nk:
            t[i] = (e, nk)
    return norm(Lin(a.c * s, t))


def lin_sub(a, b):
    return lin_add(a, lin_scale(b, M64))


_lin_cache = {}
_keep = []


def lin_of(e):
    """decompose a 64-bit z3 expression"""
    if isinstance(e, int):
        return e & M64
    if isinstance(e, Lin):
        return e
    k = e.get_id()
    r = _lin_cache.get(k)
    if r is not None:
        return r
    r = _lin_of(e)
    _lin_cache[k] = r
    _keep.append(e)
    return r


def _lin_of(e):
    if z3.is_bv_value(e):
        return e.as_long()
    d = e.decl().kind()
    if d == z3.Z3_OP_BADD:
        r = 0
        for ch in e.children():
            r = lin_add(r, lin_of(ch))
        return r
    if d == z3.Z3_OP_BSUB:
        ch = e.children()
        r = lin_of(ch[0])
        for c in ch[1:]:
            r = lin_sub(r, lin_of(c))
        return r
    if d == z3.Z3_OP_BNEG:
        return lin_scale(lin_of(e.children()[0]), M64)
    if d == z3.Z3_OP_BMUL:
        ch = e.children()
        ls = [lin_of(c) for c in ch]
        cs = [x for x in ls if isinstance(x, int)]
        ns = [x for x in ls if not isinstance(x, int)]
        if len(ns) <= 1:
            r = ns[0] if ns else 1
            for c in cs:
                r = lin_scale(r, c)
            return r
    if d == z3.Z3_OP_BSHL:
        ch = e.children()
        s = lin_of(ch[1])
        if isinstance(s, int) and s < 64:
            return lin_scale(lin_of(ch[0]), 1 << s)
    return Lin(0, {e.get_id(): (e, 1)})


def off_bv(o):
    if isinstance(o, int):
        return z3.BitVecVal(o, 64)
    return o.bv()


def off_val(o):
    """offset as an integer value (int or bv)"""
    if isinstance(o, int):
        return o
    return o.bv()


# ---------------------------------------------------------------- pointers, floats
class P:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "P(%s,%s)" % (self.obj, self.off)


class PInt(P):
    """integer obtained from a pointer (address of obj + off)"""
    __slots__ = ()


NULL = P(0, 0)


class FPV:
    __slots__ = ("w", "bits", "_fp")

    def __init__(self, w, bits=None, fp=None):
        self.w = w
        self.bits = bits
        self._fp = fp

    def fp(self):
        if self._fp is None:
            b = self.bits
            if isinstance(b, int):
                b = z3.BitVecVal(b, self.w)
                self._fp = z3.simplify(z3.fpBVToFP(b, FS(self.w)))
            else:
                self._fp = z3.fpBVToFP(b, FS(self.w))
        return self._fp

    def conc(self):
        return isinstance(self.bits, int)

    def py(self):
        if self.w == 64:
            return struct.unpack("<d", struct.pack("<Q", self.bits))[0]
        return struct.unpack("<f", struct.pack("<I", self.bits))[0]

    def asbits(self):
        if self.bits is None:
            f = z3.simplify(self._fp)
            if z3.is_fp_value(f):
                self.bits = fpval_bits(f, self.w)
            else:
                self.bits = z3.fpToIEEEBV(self._fp)
        return self.bits

    def __repr__(self):
        return "FPV(%d,%s,%s)" % (self.w, self.bits, self._fp)


_FS = {64: z3.Float64(), 32: z3.Float32()}


def FS(w):
    if w not in _FS:
        raise Unsupported("x86_fp80 arithmetic")
    return _FS[w]


def fpval_bits(f, w):
    if f.isNaN():
        return 0x7ff8000000000000 if w == 64 else 0x7fc00000
    r = z3.simplify(z3.fpToIEEEBV(f))
    return r.as_long()


def fp_from_py(w, x):
    if w == 64:
        return FPV(64, struct.unpack("<Q", struct.pack("<d", x))[0])
    try:
        return FPV(32, struct.unpack("<I", struct.pack("<f", x))[0])
    except OverflowError:
        return FPV(32, 0x7f800000 if x > 0 else 0xff800000)


# ---------------------------------------------------------------- functional arrays
class Base:
    """unconstrained initial contents: an uninterpreted function of the index"""
    __slots__ = ("fn", "w")

    def __init__(self, name, w):
        self.fn = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(w))
        self.w = w


class Const:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class St:
    __slots__ = ("prev", "idx", "val")

    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val = prev, idx, val


class Rng:
    """for x with x-lo (or lo-x when neg) <u cnt : value fn(j); otherwise prev"""
    __slots__ = ("prev", "lo", "cnt", "fn", "neg")

    def __init__(self, prev, lo, cnt, fn, neg=False):
        self.prev, self.lo, self.cnt, self.fn, self.neg = prev, lo, cnt, fn, neg

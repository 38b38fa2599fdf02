"""Exact translation of bit-vector constraints into linear integer arithmetic (modular semantics kept: every value of
width w is an integer in [0, 2^w), wrap-around is an explicit bounded multiple of 2^w). Constraints outside the linear
fragment are not translated: dropping a hypothesis keeps an 'unsat' answer sound; 'sat' is only answered if nothing was
dropped. Used as an additional back end (z3's arithmetic solver)."""
import z3


class No(Exception):
    pass


K = z3


class Trans:
    def __init__(self):
        self.tc = {}      # bv ast id -> (ast, int expr (congruent), L, H, sides)
        self.nc = {}      # normalised
        self.bc = {}      # bool ast id -> (ast, expr, sides)
        self.n = 0
        self.vars = {}    # name -> (int var, bv const)

    def fresh(self, p="w"):
        self.n += 1
        return z3.Int("%s!lia%d" % (p, self.n))

    # --- raw: an integer expression congruent to the bit-vector modulo 2^w, with an interval
    def raw(self, e):
        i = e.get_id()
        r = self.tc.get(i)
        if r is None:
            r = self._raw(e)
            if r is None:
                r = (None,)
            self.tc[i] = (e, r)
        else:
            r = r[1]
        if r[0] is None:
            raise No()
        return r

    def norm(self, e):
        i = e.get_id()
        r = self.nc.get(i)
        if r is not None:
            return r[1]
        x, L, H, S = self.raw(e)
        w = e.size()
        M = 1 << w
        if L == H:
            r = (z3.IntVal(L % M), L % M, L % M, S)
        elif L >= 0 and H < M:
            r = (x, L, H, S)
        else:
            k = self.fresh("k")
            kl, kh = L >> w, H >> w
            v = x - M * k
            s = S | {self.side(z3.And(k >= kl, k <= kh, v >= 0, v < M))}
            r = (v, 0, M - 1, s)
        self.nc[i] = (e, r)
        return r

    def side(self, f):
        return SideF(f)

    def _raw(self, e):
        try:
            return self._raw2(e)
        except No:
            return None

    def _raw2(self, e):
        k = e.decl().kind()
        w = e.size()
        M = 1 << w
        E0 = frozenset()
        if z3.is_bv_value(e):
            v = e.as_long()
            if v >= M // 2 and w >= 32:
                v -= M    # congruent, keeps sums with "minus constants" small
            return (z3.IntVal(v), v, v, E0)
        ch = e.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if ch:
                raise No()
            n = e.decl().name()
            v = z3.Int(n + "!int")
            self.vars[n] = (v, e)
            return (v, 0, M - 1, frozenset([self.side(z3.And(v >= 0, v < M))]))
        if k == z3.Z3_OP_BADD:
            rs = [self.raw(c) for c in ch]
            return (z3.Sum([r[0] for r in rs]), sum(r[1] for r in rs), sum(r[2] for r in rs), frozenset().union(*[r[3] for r in rs]))
        if k == z3.Z3_OP_BSUB:
            a, b = self.raw(ch[0]), self.raw(ch[1])
            return (a[0] - b[0], a[1] - b[2], a[2] - b[1], a[3] | b[3])
        if k == z3.Z3_OP_BNEG:
            a = self.raw(ch[0])
            return (-a[0], -a[2], -a[1], a[3])
        if k == z3.Z3_OP_BNOT:
            a = self.raw(ch[0])
            return (-a[0] - 1, -a[2] - 1, -a[1] - 1, a[3])
        if k == z3.Z3_OP_BMUL:
            if len(ch) == 2 and z3.is_bv_value(ch[1]):
                ch = [ch[1], ch[0]]
            if len(ch) != 2 or not z3.is_bv_value(ch[0]):
                raise No()
            c = ch[0].as_long()
            if c >= M // 2:
                c -= M
            a = self.raw(ch[1])
            b = sorted((c * a[1], c * a[2]))
            return (c * a[0], b[0], b[1], a[3])
        if k == z3.Z3_OP_CONCAT:
            x, L, H, S = self.norm(ch[0])
            for c in ch[1:]:
                y = self.norm(c)
                m = 1 << c.size()
                x, L, H, S = x * m + y[0], L * m + y[1], H * m + y[2], S | y[3]
            return (x, L, H, S)
        if k == z3.Z3_OP_ZERO_EXT:
            return self.norm(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            x, L, H, S = self.norm(ch[0])
            m = 1 << ch[0].size()
            if H < m // 2:
                return (x, L, H, S)
            return (z3.If(x >= m // 2, x - m, x), -(m // 2), m // 2 - 1, S)
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            return self.bits(ch[0], hi, lo)
        if k == z3.Z3_OP_BAND:
            if len(ch) == 2 and z3.is_bv_value(ch[1]):
                ch = [ch[1], ch[0]]
            if len(ch) == 2 and z3.is_bv_value(ch[0]):
                m = ch[0].as_long()
                if m and (m & (m + 1)) == 0:
                    return self.bits(ch[1], m.bit_length() - 1, 0)
                inv = M - 1 - m
                if inv and (inv & (inv + 1)) == 0:
                    n = inv.bit_length()
                    x, L, H, S = self.bits(ch[1], w - 1, n)
                    return (x * (1 << n), L << n, H << n, S)
            raise No()
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            if n >= w:
                return (z3.IntVal(0), 0, 0, E0)
            x, L, H, S = self.raw(ch[0])
            return (x * (1 << n), L << n, H << n, S)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            if n >= w:
                return (z3.IntVal(0), 0, 0, E0)
            return self.bits(ch[0], w - 1, n)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]):
            d = ch[1].as_long()
            if d == 0:
                raise No()
            x, L, H, S = self.norm(ch[0])
            q, r = self.fresh("q"), self.fresh("r")
            s = S | {self.side(z3.And(x == q * d + r, r >= 0, r < d, q >= 0))}
            return (q, L // d, H // d, s) if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else (r, 0, d - 1, s)
        if k == z3.Z3_OP_ITE:
            c, cs = self.boolx(ch[0])
            a, b = self.raw(ch[1]), self.raw(ch[2])
            return (z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), cs | a[3] | b[3])
        raise No()

    def bits(self, e, hi, lo):
        x, L, H, S = self.norm(e)
        w = e.size()
        if lo == 0 and H < (1 << (hi + 1)):
            return (x, L, H, S)
        b = self.fresh("b")
        t = b * (1 << lo) if lo else b
        f = [b >= 0, b < (1 << (hi - lo + 1))]
        if hi < w - 1:
            a = self.fresh("a")
            t = t + a * (1 << (hi + 1))
            f += [a >= 0, a < (1 << (w - 1 - hi))]
        if lo:
            c = self.fresh("c")
            t = t + c
            f += [c >= 0, c < (1 << lo)]
        f.append(x == t)
        return (b, 0, (1 << (hi - lo + 1)) - 1, S | {self.side(z3.And(*f))})

    def signed(self, e):
        x, L, H, S = self.norm(e)
        m = 1 << e.size()
        if H < m // 2:
            return x, S
        return z3.If(x >= m // 2, x - m, x), S

    def boolx(self, e):
        i = e.get_id()
        r = self.bc.get(i)
        if r is None:
            try:
                r = self._bool(e)
            except No:
                r = (None,)
            self.bc[i] = (e, r)
        else:
            r = r[1]
        if r[0] is None:
            raise No()
        return r

    def _bool(self, e):
        k = e.decl().kind()
        ch = e.children()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return (e, frozenset())
        if k == z3.Z3_OP_UNINTERPRETED:
            if ch:
                raise No()
            return (e, frozenset())
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
            rs = [self.boolx(c) for c in ch]
            S = frozenset().union(*[r[1] for r in rs])
            xs = [r[0] for r in rs]
            f = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not, z3.Z3_OP_IMPLIES: z3.Implies, z3.Z3_OP_XOR: z3.Xor}[k]
            return (f(*xs), S)
        if k == z3.Z3_OP_ITE:
            rs = [self.boolx(c) for c in ch]
            return (z3.If(rs[0][0], rs[1][0], rs[2][0]), rs[0][1] | rs[1][1] | rs[2][1])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT):
            if len(ch) != 2:
                raise No()
            if z3.is_bool(ch[0]):
                a, b = self.boolx(ch[0]), self.boolx(ch[1])
            elif z3.is_bv(ch[0]):
                a, b = self.norm(ch[0]), self.norm(ch[1])
                a, b = (a[0], a[3]), (b[0], b[3])
            else:
                raise No()
            f = a[0] == b[0]
            return (z3.Not(f) if k == z3.Z3_OP_DISTINCT else f, a[1] | b[1])
        un = {z3.Z3_OP_ULT: lambda a, b: a < b, z3.Z3_OP_ULEQ: lambda a, b: a <= b, z3.Z3_OP_UGT: lambda a, b: a > b, z3.Z3_OP_UGEQ: lambda a, b: a >= b}
        si = {z3.Z3_OP_SLT: lambda a, b: a < b, z3.Z3_OP_SLEQ: lambda a, b: a <= b, z3.Z3_OP_SGT: lambda a, b: a > b, z3.Z3_OP_SGEQ: lambda a, b: a >= b}
        if k in un:
            a, b = self.norm(ch[0]), self.norm(ch[1])
            return (un[k](a[0], b[0]), a[3] | b[3])
        if k in si:
            a, b = self.signed(ch[0]), self.signed(ch[1])
            return (si[k](a[0], b[0]), a[1] | b[1])
        raise No()


class SideF:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Lia:
    def __init__(self):
        self.t = Trans()
        self.s = z3.SolverFor("QF_LIA")
        self.stack = []      # (constraint, translated?)
        self.known = []      # side sets asserted per level

    def push(self, c):
        self.s.push()
        try:
            f, S = self.t.boolx(c)
            ok = True
            new = set(S)
            for k in self.known:
                new -= k
            for x in new:
                self.s.add(x.f)
            self.known.append(new)
            self.s.add(f)
        except No:
            ok = False
            self.known.append(set())
        self.stack.append((c, ok))

    def pop(self, n):
        if n:
            self.s.pop(n)
            del self.stack[-n:]
            del self.known[-n:]

    def check(self, pc, extra, ms):
        i = 0
        n = min(len(self.stack), len(pc))
        while i < n and self.stack[i][0] is pc[i]:
            i += 1
        self.pop(len(self.stack) - i)
        for c in pc[i:]:
            self.push(c)
        if extra is not None:
            self.push(extra)
        try:
            if extra is not None and not self.stack[-1][1]:
                return z3.unknown, None
            self.s.set("timeout", ms)
            r = self.s.check()
            if r == z3.unsat:
                return r, None
            if r == z3.sat and all(ok for _, ok in self.stack):
                return r, self.s.model()
            return z3.unknown, None
        finally:
            if extra is not None:
                self.pop(1)

    def bvmodel(self, pc, extra, m, ms=5000):
        s = z3.Solver()
        s.set("timeout", ms)
        for c in pc:
            s.add(c)
        if extra is not None:
            s.add(extra)
        for n, (v, e) in self.t.vars.items():
            x = m.eval(v)
            if z3.is_int_value(x):
                s.add(e == z3.BitVecVal(x.as_long(), e.size()))
        if s.check() == z3.sat:
            return s.model()
        return None

"""Inductive loop cuts.

At a loop header whose exit test is symbolic, guess an invariant of the form
   every loop-carried scalar  = entry value + c * n      (n = ghost iteration counter)
                              | arbitrary               (havoc)
   every written array        = entry contents overwritten at i0 + c*j for j < n by a value v(j)
                              | arbitrary
   0 <= n <= N                for bounds N read off the branch conditions
and keep only what is proved inductive by executing the body once from an arbitrary n
(Houdini).  Nothing is trusted: a guess that is not inductive is weakened to havoc.
"""
import z3, re
from values import *


class GiveUp(Exception):
    pass


class Collector:
    def __init__(self):
        self.states = []

    def back_edge(self, E, st, f):
        self.states.append(st)


class Final:
    def back_edge(self, E, st, f):
        pass


def bvw(v, default=64):
    if isinstance(v, int):
        return default
    return v.size()


def n_to(w, n):
    if w == 64:
        return n
    if w < 64:
        return z3.Extract(w - 1, 0, n)
    return z3.ZeroExt(w - 64, n)


def affine(v0, c, n, w):
    if isinstance(v0, P):
        off = lin_add(v0.off, lin_scale(lin_of(n), c))
        return type(v0)(v0.obj, off)
    z0 = z3.BitVecVal(v0, w) if isinstance(v0, int) else v0
    step = n_to(w, n)
    if c == 1:
        return z0 + step
    return z0 + step * z3.BitVecVal(c, w)


def subst(v, a, b):
    if isinstance(v, int):
        return v
    if isinstance(v, FPV):
        if v.bits is not None:
            return v if isinstance(v.bits, int) else FPV(v.w, z3.substitute(v.bits, (a, b)))
        return FPV(v.w, None, z3.substitute(v.fp(), (a, b)))
    if isinstance(v, P):
        if isinstance(v.off, int):
            return v
        return type(v)(v.obj, lin_of(z3.substitute(v.off.bv(), (a, b))))
    return z3.substitute(v, (a, b))


def bv_of_off(o):
    return z3.BitVecVal(o, 64) if isinstance(o, int) else o.bv()


def same(E, st, a, b, w):
    """z3 formula a == b, or None when not comparable"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, P) or isinstance(b, P):
        if isinstance(a, P) and isinstance(b, P) and a.obj == b.obj:
            return bv_of_off(a.off) == bv_of_off(b.off)
        return None
    if isinstance(a, FPV) or isinstance(b, FPV):
        if isinstance(a, FPV) and isinstance(b, FPV):
            if a.bits is not None and b.bits is not None:
                x = z3.BitVecVal(a.bits, a.w) if isinstance(a.bits, int) else a.bits
                y = z3.BitVecVal(b.bits, a.w) if isinstance(b.bits, int) else b.bits
                return x == y
            return a.fp() == b.fp()
        return None
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    if (not isinstance(a, int) and z3.is_bool(a)) or (not isinstance(b, int) and z3.is_bool(b)):
        x = z3.BoolVal(bool(a)) if isinstance(a, int) else a
        y = z3.BoolVal(bool(b)) if isinstance(b, int) else b
        return x == y
    ww = a.size() if not isinstance(a, int) else b.size()
    x = z3.BitVecVal(a, ww) if isinstance(a, int) else a
    y = z3.BitVecVal(b, ww) if isinstance(b, int) else b
    return x == y


def delta(E, a, b, w):
    """constant c with b == a + c, or None"""
    if isinstance(a, P) and isinstance(b, P):
        if a.obj != b.obj:
            return None
        d = lin_sub(b.off, a.off)
        if isinstance(d, int):
            return d
        s = z3.simplify(d.bv())
        return s.as_long() if z3.is_bv_value(s) else None
    if isinstance(a, (P, FPV, list)) or isinstance(b, (P, FPV, list)):
        return None
    if isinstance(a, int) and isinstance(b, int):
        if w is None:
            return None
        return (b - a) & ((1 << w) - 1)
    if (not isinstance(a, int) and z3.is_bool(a)) or (not isinstance(b, int) and z3.is_bool(b)):
        return None
    ww = a.size() if not isinstance(a, int) else b.size()
    x = z3.BitVecVal(a, ww) if isinstance(a, int) else a
    y = z3.BitVecVal(b, ww) if isinstance(b, int) else b
    s = z3.simplify(y - x)
    return s.as_long() if z3.is_bv_value(s) else None


def decls(e):
    out = set()
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    return out


def exprs_of(v):
    if isinstance(v, int):
        return []
    if isinstance(v, FPV):
        if v.bits is not None:
            return [] if isinstance(v.bits, int) else [v.bits]
        return [v.fp()]
    if isinstance(v, P):
        return [] if isinstance(v.off, int) else [v.off.bv()]
    return [v]


def newer(name, mark):
    m = re.search(r"[!_](\d+)$", name)
    if name.startswith("base_") or name.startswith("gbase_"):
        return False
    return bool(m) and int(m.group(1)) > mark


class Cut:
    def __init__(self, E, st, f, header, body):
        self.E, self.st, self.f, self.header, self.body = E, st, f, header, body
        self.fi = len(st.frames) - 1
        self.phis = f.fn.blocks[header].phis
        self.scal = {}     # key -> ('aff',c) | 'havoc'
        self.arrs = {}     # (oid, fo) -> ('pend',) | ('map', i0, neg, valfn-expr) | 'havoc'
        self.cands = None
        self.mark = E.fresh_n
        self.n = None

    def width(self, key):
        if key[0] == "phi":
            for ph in self.phis:
                if ph.dst == key[1]:
                    return ph.ty.w
        return 8 * key[3]

    def old(self, key):
        if key[0] == "phi":
            return self.st.frames[self.fi].loc[key[1]]
        _, oid, off, n = key
        return self.E.cell_load(self.st, self.st.mem[oid], off, n)

    def had_old(self, key):
        o = self.st.mem.get(key[1])
        return o is not None and bool(self.E.overlaps(o, key[2], key[3]))

    def run_body(self, st):
        """execute one iteration from st (already at header). returns list of back edge states"""
        E = self.E
        col = Collector()
        st.frames[self.fi].loops[self.header] = (1, 0, col)
        saved = (E.worklist, E.branchlog, E.trial_depth, E.trial_cut)
        E.worklist = [st]
        E.branchlog = []
        E.trial += 1
        E.trial_depth = self.fi + 1
        E.trial_cut = col
        p0 = E.res.paths
        try:
            E.explore()
            log = E.branchlog
        finally:
            E.trial -= 1
            E.worklist, E.branchlog, E.trial_depth, E.trial_cut = saved
            E.res.paths = p0
        return col.states, log

    def diff(self, st0, b):
        """keys modified between st0 (header state) and b (back edge state)"""
        E = self.E
        out = []
        for ph in self.phis:
            x, y = st0.frames[self.fi].loc[ph.dst], b.frames[self.fi].loc[ph.dst]
            if x is not y:
                out.append((("phi", ph.dst), x, y))
        arrs = []
        for oid, o in b.mem.items():
            o0 = st0.mem.get(oid)
            if o0 is o:
                continue
            if o0 is None:
                if oid > 0 and oid > st0.nobj:
                    if o.alive and o.heap:
                        raise GiveUp("allocation in loop")
                    continue
                if oid < 0:
                    if o.ro or not o.cells:
                        continue
                    # lazily materialised global: compare with its initialiser
                    o0 = E.obj(st0, oid)
                    if o0.cells == o.cells:
                        continue
                else:
                    continue
            if o0.alive != o.alive:
                raise GiveUp("free in loop")
            if o0.kind != o.kind:
                raise GiveUp("object kind changes in loop")
            if not o.alive:
                continue
            if o.kind == "cells":
                for off, (n, v) in o.cells.items():
                    c0 = o0.cells.get(off)
                    if c0 is not None and c0[0] == n and c0[1] is v:
                        continue
                    if c0 is not None and c0[0] == n and isinstance(v, int) and isinstance(c0[1], int) and v == c0[1]:
                        continue
                    if c0 is None and not E.overlaps(o0, off, n) and o0.fill is None and o0.raw is None:
                        # first written in the loop: previous content uninitialised
                        out.append((("cell", oid, off, n), None, v))
                        continue
                    out.append((("cell", oid, off, n), E.cell_load(st0, o0, off, n), v))
            else:
                for fo, (n, nd) in o.fields.items():
                    f0 = o0.fields.get(fo)
                    if f0 is None:
                        # created lazily; make it exist beforehand so both sides share the base
                        if isinstance(nd, (Base, Const)):
                            E.wobj(self.st, oid).fields.setdefault(fo, (n, nd))
                            continue
                        root = nd
                        while isinstance(root, (St, Rng)):
                            root = root.prev
                        E.wobj(self.st, oid).fields.setdefault(fo, (n, root))
                        E.wobj(st0, oid).fields.setdefault(fo, (n, root))
                        arrs.append(((oid, fo), (n, root), (n, nd)))
                        continue
                    if f0[1] is nd:
                        continue
                    if f0[0] != n:
                        raise GiveUp("field width")
                    arrs.append(((oid, fo), f0, (n, nd)))
        return out, arrs

    def generalise(self, st, n, final=False):
        """set loop-carried state of st to the invariant at iteration n"""
        E = self.E
        fr = st.frames[self.fi]
        for key, how in self.scal.items():
            w = self.width(key)
            v0 = self.old(key) if how != "havoc" or key[0] == "phi" else None
            if how == "havoc":
                tyk = None
                if key[0] == "phi":
                    for ph in self.phis:
                        if ph.dst == key[1]:
                            tyk = ph.ty.k
                else:
                    tyk = "int"
                if tyk == "int":
                    v = E.fresh("loop", w)
                elif tyk == "fp":
                    v = FPV(w, E.fresh("loop", w))
                else:
                    raise GiveUp("pointer havoc")
            else:
                v = affine(v0, how[1], n, w)
            if key[0] == "phi":
                fr.loc[key[1]] = v
            else:
                _, oid, off, sz = key
                E.cell_store(st, E.wobj(st, oid), off, sz, v)
        for (oid, fo), how in self.arrs.items():
            m, nd0 = self.st0fields[(oid, fo)]
            o = E.wobj(st, oid)
            if how == "havoc" or how[0] == "pend":
                E.fresh_n += 1
                nd = Base("loopmem_%d_%d_%d" % (oid, fo, E.fresh_n), 8 * m)
            else:
                _, i0, neg, val, nvar = how
                nd = Rng(nd0, i0, lin_of(n), lambda j, val=val, nvar=nvar: subst(val, nvar, bv_of_off(j)), neg)
            o.fields[fo] = (m, nd)

    def inv(self, n):
        return [c(n) for c in self.cands] if self.cands else []

    def candidates(self, log, n):
        out = []
        seen = set()
        for cond in log:
            for a, b in compares(cond):
                w = a.size()
                if w not in (32, 64):
                    continue
                d = a - b
                if n.decl().name() not in decls(d):
                    continue
                d0 = z3.simplify(z3.substitute(d, (n, z3.BitVecVal(0, 64))))
                d1 = z3.simplify(z3.substitute(d, (n, n + 1)) - d)
                if not z3.is_bv_value(d1):
                    continue
                c = d1.as_long()
                sc = c - (1 << w) if c >> (w - 1) else c
                if sc == 0:
                    continue
                bad = [x for x in decls(d0) if newer(x, self.mark)]
                if bad:
                    continue
                if sc < 0:
                    num, k = d0, -sc
                else:
                    num, k = z3.simplify(-d0), sc
                if k != 1:
                    l = lin_of(num) if w == 64 else None
                    if l is None:
                        continue
                    if isinstance(l, int):
                        if l % k:
                            continue
                        num = z3.BitVecVal(l // k, 64)
                    else:
                        sg = lambda x: x - (1 << 64) if x >> 63 else x
                        if sg(l.c) % k or any(sg(q) % k for e, q in l.t.values()):
                            # fall back to division
                            num = z3.UDiv(num, z3.BitVecVal(k, w))
                        else:
                            num = Lin(sg(l.c) // k, {i: (e, (sg(q) // k) & M64) for i, (e, q) in l.t.items()}).bv()
                if w == 32:
                    num = z3.ZeroExt(32, num)
                num = z3.simplify(num)
                if num.get_id() in seen:
                    continue
                seen.add(num.get_id())
                out.append(("n <= %s" % num, lambda x, N=num: z3.ULE(x, N)))
                out.append(("n < %s" % num, lambda x, N=num: z3.ULT(x, N)))
                out.append(("n+1 < %s" % num, lambda x, N=num: z3.And(z3.ULT(x, N), z3.ULT(x + 1, N))))
        return out

    def fresh_state(self, n):
        st = self.st.copy()
        self.generalise(st, n)
        for c in self.inv(n):
            st.pc.append(c)
        return st

    def solve(self):
        E = self.E
        self.st0fields = {}
        # phase 1: one concrete-entry iteration to see what changes
        s1 = self.st.copy()
        ref = s1.copy()
        backs, log = self.run_body(s1)
        if not backs:
            raise GiveUp("no back edge")
        for b in backs:
            sc, ar = self.diff(ref, b)
            for key, x, y in sc:
                if key[0] == "cell" and x is None:
                    self.scal.setdefault(key, "havoc")
                    continue
                d = delta(E, x, y, self.width(key))
                cur = self.scal.get(key)
                new = ("aff", d) if d is not None else "havoc"
                if cur is None:
                    self.scal[key] = new
                elif cur != new:
                    self.scal[key] = "havoc"
            for k, f0, f1 in ar:
                self.arrs.setdefault(k, ("pend",))
                self.st0fields[k] = f0
        # keys with delta on some paths but unchanged on others
        for key in list(self.scal):
            for b in backs:
                sc, ar = self.diff(ref, b)
                if key not in [k for k, _, _ in sc] and self.scal[key] != ("aff", 0):
                    self.scal[key] = "havoc"
        self.cands = None
        names = []
        for rnd in range(12):
            E.fresh_n += 1
            n = z3.BitVec("iter!%d" % E.fresh_n, 64)
            g0 = self.fresh_state(n)
            ref = g0.copy()
            backs, log = self.run_body(g0)
            if not backs:
                raise GiveUp("no inductive back edge")
            if self.cands is None:
                cs = self.candidates(log, n)
                keep = []
                for nm, c in cs:
                    if E.valid(self.st, c(z3.BitVecVal(0, 64))) is True:
                        keep.append((nm, c))
                self.candl = keep
                self.cands = [c for nm, c in keep]
                if keep:
                    continue     # restart with candidates assumed
            changed = False
            # candidate bounds must be inductive
            for i in reversed(range(len(self.candl))):
                nm, c = self.candl[i]
                for b in backs:
                    if E.valid(b, c(n + 1)) is not True:
                        del self.candl[i]
                        changed = True
                        break
            self.cands = [c for nm, c in self.candl]
            if changed:
                continue
            storelists = {}
            for b in backs:
                sc, ar = self.diff(ref, b)
                for key, x, y in sc:
                    if key not in self.scal:
                        if key[0] == "cell" and x is None:
                            self.scal[key] = "havoc"
                        else:
                            d = delta(E, x, y, self.width(key))
                            self.scal[key] = ("aff", d) if d is not None else "havoc"
                        changed = True
                for k, f0, f1 in ar:
                    if k not in self.arrs:
                        self.arrs[k] = ("pend",)
                        self.st0fields[k] = f0
                        changed = True
                for key, how in self.scal.items():
                    if how == "havoc":
                        continue
                    w = self.width(key)
                    want = affine(self.old(key), how[1], n + 1, w)
                    if key[0] == "phi":
                        got = b.frames[self.fi].loc[key[1]]
                    else:
                        got = E.cell_load(b, b.mem[key[1]], key[2], key[3])
                    eq = same(E, b, got, want, w)
                    if eq is None or E.valid(b, eq) is not True:
                        self.scal[key] = "havoc"
                        changed = True
            if changed:
                continue
            # arrays
            for k, how in list(self.arrs.items()):
                if how == "havoc":
                    continue
                oid, fo = k
                base = ref.mem[oid].fields[fo][1]
                lists = []
                for b in backs:
                    nd = b.mem[oid].fields[fo][1]
                    l = []
                    while nd is not base and isinstance(nd, St):
                        l.append((nd.idx, nd.val))
                        nd = nd.prev
                    if nd is not base:
                        l = None
                    lists.append(l)
                ok = all(l is not None and len(l) == 1 for l in lists) and len(lists) == 1
                if how[0] == "pend":
                    if not ok:
                        self.arrs[k] = "havoc"
                        changed = True
                        continue
                    idx, val = lists[0][0]
                    bad = False
                    basename = base.fn.name() if isinstance(base, Base) else None
                    for e in exprs_of(val) + exprs_of(P(1, idx)):
                        for dn in decls(e):
                            if dn == n.decl().name():
                                continue
                            if newer(dn, self.mark):
                                bad = True
                    if bad:
                        self.arrs[k] = "havoc"
                        changed = True
                        continue
                    ib = bv_of_off(idx)
                    i0 = z3.simplify(z3.substitute(ib, (n, z3.BitVecVal(0, 64))))
                    done = False
                    for c in (1, -1):
                        if E.valid(backs[0], ib == i0 + (n if c == 1 else -n)) is True:
                            self.arrs[k] = ("map", lin_of(i0), c == -1, val, n)
                            done = True
                            break
                    if not done:
                        self.arrs[k] = "havoc"
                    changed = True
                else:
                    _, i0, neg, val, nvar = how
                    good = False
                    if ok:
                        idx, v = lists[0][0]
                        ii = bv_of_off(i0) + (-n if neg else n)
                        vv = subst(val, nvar, n)
                        eq = same(E, backs[0], v, vv, None)
                        good = (E.valid(backs[0], bv_of_off(idx) == ii) is True and eq is not None
                                and E.valid(backs[0], eq) is True)
                    if not good:
                        self.arrs[k] = "havoc"
                        changed = True
            if not changed:
                return
        raise GiveUp("no fixpoint")

    def install(self):
        E, st = self.E, self.st
        E.fresh_n += 1
        n = z3.BitVec("iter!%d" % E.fresh_n, 64)
        # entry values must be read before overwriting
        snap = st.copy()
        self.st = snap
        for key in self.scal:
            if self.scal[key] != "havoc":
                self.old(key)
        tgt = st
        self.generalise(tgt, n)
        for c in self.inv(n):
            tgt.pc.append(c)
        desc = []
        for k, h in self.scal.items():
            desc.append("%s: %s" % (k[0], "arbitrary" if h == "havoc" else "entry + %d*n" % (h[1] - (1 << 64) if h[1] >> 63 else h[1])))
        for k, h in self.arrs.items():
            desc.append("array: %s" % ("arbitrary" if h == "havoc" else "entry overwritten at i0%sj, j<n" % ("-" if h[2] else "+")))
        desc += [nm for nm, c in self.candl]
        if not E.trial:
            E.res.loops.append(dict(function=self.f.fn.dem.split("(")[0][-100:], invariant=desc[:12]))


def compares(c):
    """(a,b) pairs compared in a boolean condition"""
    out = []
    stack = [c]
    while stack:
        x = stack.pop()
        if not z3.is_bool(x) or not z3.is_app(x):
            continue
        k = x.decl().kind()
        if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
            stack.extend(x.children())
        elif k in (z3.Z3_OP_EQ, z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ,
                   z3.Z3_OP_SGT, z3.Z3_OP_SGEQ, z3.Z3_OP_DISTINCT):
            a, b = x.arg(0), x.arg(1)
            if z3.is_bv(a):
                out.append((a, b))
    return out


def try_cut(E, st, f, header, body, cnt=2):
    for b in body:
        for i in f.fn.blocks[b].ins:
            if i.op in ("call", "invoke") and i.x and i.x[0][0] == "fn" and i.x[0][1].startswith("vc_"):
                return None     # a loop of the specification: always executed in full
    try:
        c = Cut(E, st, f, header, body)
        c.solve()
        weak = [k for k, h in c.scal.items() if h == "havoc" and (k[0] == "phi" or c.had_old(k))] + [k for k, h in c.arrs.items() if h == "havoc"]
        if weak and not E.o.get("weakcut"):
            raise GiveUp("weak invariant: %s" % (weak[:4],))
        if weak:
            st.weak = True
        c.install()
        return Final()
    except (GiveUp, Unsupported) as e:
        if E.o.get("debug"):
            print("  loopcut gave up in %s: %s" % (f.fn.dem[:80], e))
        return None

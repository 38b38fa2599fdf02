"""Assumed contracts of the C/C++ runtime (everything called here is listed in the evidence
as an assumption) and the vc_* specification intrinsics."""
import re
import z3
from values import *
from values import fp_from_py

STD_BASES = {
    "_ZTISt9exception": [], "_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
    "_ZTISt12out_of_range": ["_ZTISt11logic_error"], "_ZTISt12length_error": ["_ZTISt11logic_error"],
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error"], "_ZTISt12domain_error": ["_ZTISt11logic_error"],
    "_ZTISt11range_error": ["_ZTISt13runtime_error"], "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
    "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"],
    "_ZTISt8bad_cast": ["_ZTISt9exception"], "_ZTISt10bad_typeid": ["_ZTISt9exception"],
    "_ZTISt17bad_function_call": ["_ZTISt9exception"], "_ZTISt12bad_weak_ptr": ["_ZTISt9exception"],
    "_ZTISt12system_error": ["_ZTISt13runtime_error"],
}


def cstr(E, st, p):
    if p.obj == 0:
        raise Unsupported("cstr of null")
    out = []
    off = p.off
    if not isinstance(off, int):
        raise Unsupported("cstr symbolic offset")
    o = E.obj(st, p.obj)
    while True:
        if not isinstance(o.size, int) or off >= o.size:
            raise Unsupported("unterminated cstr")
        b = E.load_raw(st, o, off, 1)
        o = E.obj(st, p.obj)
        if not isinstance(b, int):
            s = z3.simplify(b)
            if not z3.is_bv_value(s):
                raise Unsupported("symbolic cstr")
            b = s.as_long()
        if b == 0:
            return bytes(out)
        out.append(b)
        off += 1


def done(E, st, v=None):
    E.finish_call(st, v)


# ---------------------------------------------------------------- spec intrinsics
def any_int(w):
    def h(E, st, f, ins, a):
        n = cstr(E, st, a[0]).decode()
        v = E.fresh("any_" + n, w)
        st.anys.append(("int", n, v))
        done(E, st, v)
    return h


def any_in(E, st, f, ins, a):
    """any value in [lo,hi]; with a constant upper end the variable has just the bits it needs"""
    n = cstr(E, st, a[0]).decode()
    lo, hi = a[1], a[2]
    w = hi.bit_length() if isinstance(hi, int) and 0 < hi.bit_length() < 64 else 64
    v = E.fresh("any_" + n, w) if w > 1 else None
    if v is None:
        b = E.fresh("any_" + n, 1)
        v = z3.If(b, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    elif w < 64:
        v = z3.ZeroExt(64 - w, v)
    st.anys.append(("int", n, v))
    for c in (z3.UGE(v, lo if not isinstance(lo, int) else z3.BitVecVal(lo, 64)), z3.ULE(v, hi if not isinstance(hi, int) else z3.BitVecVal(hi, 64))):
        c = z3.simplify(c)
        if z3.is_false(c):
            raise_end()
        if not z3.is_true(c):
            st.pc.append(c)
    done(E, st, v)


def any_bool(E, st, f, ins, a):
    n = cstr(E, st, a[0]).decode()
    v = E.fresh("any_" + n, 1)
    st.anys.append(("int", n, v))
    done(E, st, v)


def any_fp(w):
    def h(E, st, f, ins, a):
        n = cstr(E, st, a[0]).decode()
        v = FPV(w, E.fresh("any_" + n, w))
        st.anys.append(("fp", n, v))
        done(E, st, v)
    return h


def as_bool(v):
    if isinstance(v, int):
        return v & 1
    if z3.is_bool(v):
        return v
    return v != 0


def vc_assume(E, st, f, ins, a):
    c = as_bool(a[0])
    if isinstance(c, int):
        if not c:
            raise_end()
    else:
        c = z3.simplify(c)
        if z3.is_false(c):
            raise_end()
        if not z3.is_true(c):
            st.pc.append(c)
            if not E.feasible(st, None):
                raise_end()
    done(E, st)


def raise_end():
    from engine import PathEnd
    raise PathEnd()


def vc_assert(E, st, f, ins, a):
    n = cstr(E, st, a[1]).decode()
    E.res.asserts_seen.add(n)
    E.obligation(st, as_bool(a[0]), n, "post")
    done(E, st)


def vc_cover(E, st, f, ins, a):
    n = cstr(E, st, a[0]).decode()
    if not E.trial and not E.res.covers.get(n):
        E.res.covers[n] = E.query(st.pc) == z3.sat
    done(E, st)


def vc_alloc(E, st, f, ins, a):
    """void *vc_alloc(size_t bytes, size_t stride, const char *name): arbitrary initialised memory"""
    size, stride = a[0], a[1]
    n = cstr(E, st, a[2]).decode()
    if isinstance(size, PInt):
        size = E.intval(st, size)
    o = E.newobj(st, size if isinstance(size, int) else lin_of(size), n, stride)
    o.heap = True
    w = stride
    if stride in (1, 2, 4, 8):
        E.fresh_n += 1
        b = Base("mem_%s_%d" % (n, E.fresh_n), 8 * stride)
        o.fields[0] = (stride, b)
        st.anys.append(("arr", n, b, size if isinstance(size, int) else Zs(size), stride))
    done(E, st, P(o.id, 0))


def Zs(x):
    return x.bv() if isinstance(x, Lin) else x


def vc_havoc(E, st, f, ins, a):
    """vc_havoc(void *p, size_t n, name): arbitrary bytes (cells object, concrete n)"""
    p, n = a[0], a[1]
    nm = cstr(E, st, a[2]).decode()
    if not isinstance(n, int):
        raise Unsupported("havoc symbolic")
    o = E.check_bounds(st, p, n, "havoc")
    i = 0
    while i < n:
        m = 8 if n - i >= 8 else 1
        v = E.fresh("any_" + nm, 8 * m)
        st.anys.append(("int", nm, v))
        E.store_raw(st, E.obj(st, p.obj), lin_add(p.off, i), m, v)
        i += m
    done(E, st)


def vc_valid(E, st, f, ins, a):
    """is p a live object with n accessible bytes"""
    p, n = a[0], a[1]
    if p.obj == 0:
        return done(E, st, 0)
    o = E.obj(st, p.obj)
    if not o.alive:
        return done(E, st, 0)
    if isinstance(p.off, int) and isinstance(o.size, int) and isinstance(n, int):
        return done(E, st, int(p.off + n <= o.size))
    sz, off, nn = off_bv(o.size), off_bv(p.off), (z3.BitVecVal(n, 64) if isinstance(n, int) else n)
    done(E, st, z3.And(z3.ULE(off, sz), z3.ULE(nn, sz - off)))


def vc_freed(E, st, f, ins, a):
    p = a[0]
    if p.obj == 0:
        return done(E, st, 0)
    done(E, st, int(not E.obj(st, p.obj).alive))


def vc_same_object(E, st, f, ins, a):
    done(E, st, int(a[0].obj == a[1].obj and a[0].obj != 0))


def vc_live_heap(E, st, f, ins, a):
    """number of live heap objects (leak detection)"""
    n = sum(1 for o in st.mem.values() if o.heap and o.alive and o.id > 0)
    done(E, st, n)


def vc_set_env(E, st, f, ins, a):
    p = a[0]
    if p.obj == 0:
        st.hook = None
    else:
        st.hook = E.gnames[p.obj]
    done(E, st)


def vc_sync(E, st, f, ins, a):
    """memory orderings executed since the last reset: bit 0 acquire, bit 1 release"""
    v = st.ghost.get("sync", 0)
    if a[0] is True or (isinstance(a[0], int) and a[0]):
        st.ghost["sync"] = 0
    done(E, st, v)


def vc_concretize(E, st, f, ins, a):
    v = a[0]
    done(E, st, E.concretize(st, v, 4096) if not isinstance(v, int) else v)


def vc_split(E, st, f, ins, a):
    """case split on a boolean"""
    c = as_bool(a[0])
    if isinstance(c, int):
        return done(E, st, c)
    from engine import NeedFork
    d = st.decided.get(c.get_id())
    if d is None:
        raise NeedFork(c)
    done(E, st, int(d[0]))


def vc_unreachable(E, st, f, ins, a):
    n = cstr(E, st, a[0]).decode()
    E.fail_path(st, n, "post")


def vc_symbolic_mode(E, st, f, ins, a):
    done(E, st, 1)


def vc_end(E, st, f, ins, a):
    raise_end()


# ---------------------------------------------------------------- C/C++ runtime
def op_new(E, st, f, ins, a):
    size = a[0]
    if isinstance(size, PInt):
        size = E.intval(st, size)
    if not isinstance(size, int):
        s = z3.simplify(size)
        if z3.is_bv_value(s):
            size = s.as_long()
        else:
            # assumption: an allocation either throws bad_alloc (outside the contract) or is of a realistic size
            lim = z3.ULE(size, z3.BitVecVal(1 << 46, 64))
            st.pc.append(lim)
            if not E.feasible(st, None):
                raise_end()
    elif size > (1 << 46):
        raise_end()
    o = E.newobj(st, size if isinstance(size, int) else lin_of(size), "heap")
    o.heap = True
    done(E, st, P(o.id, 0))


def op_delete(E, st, f, ins, a):
    p = a[0]
    if p.obj == 0 and isinstance(p.off, int) and p.off == 0:
        return done(E, st)
    if p.obj == 0:
        raise Unsupported("delete of raw pointer")
    o = E.obj(st, p.obj)
    if not o.alive:
        E.fail_path(st, E.site(st, "double free"), "memory")
    if not o.heap or not (isinstance(p.off, int) and p.off == 0):
        E.fail_path(st, E.site(st, "free of non-heap or interior pointer"), "memory")
    E.wobj(st, p.obj).alive = False
    done(E, st)


def h_calloc(E, st, f, ins, a):
    if not (isinstance(a[0], int) and isinstance(a[1], int)):
        raise Unsupported("calloc symbolic")
    o = E.newobj(st, a[0] * a[1], "heap")
    o.heap = True
    o.fill = 0
    done(E, st, P(o.id, 0))


def h_memcpy(E, st, f, ins, a):
    E.memcpy(st, a[0], a[1], a[2])
    done(E, st, a[0])


def h_memset(E, st, f, ins, a):
    v = a[1]
    v = v & 0xff if isinstance(v, int) else (z3.Extract(7, 0, v) if v.size() > 8 else v)
    n = E.intval(st, a[2])
    E.memset(st, a[0], v, n)
    done(E, st, a[0])


def h_strlen(E, st, f, ins, a):
    try:
        done(E, st, len(cstr(E, st, a[0])))
    except Unsupported:
        # symbolic contents: position of the first NUL, by case split
        p = a[0]
        i = 0
        while True:
            E.check_bounds(st, P(p.obj, lin_add(p.off, i)), 1, "strlen")
            b = E.load_raw(st, E.obj(st, p.obj), lin_add(p.off, i), 1)
            c = (b == 0) if not isinstance(b, int) else int(b == 0)
            if isinstance(c, int):
                if c:
                    break
            else:
                d = st.decided.get(c.get_id())
                if d is None:
                    raise NeedFork(c)
                if d[0]:
                    break
            i += 1
            if i > 64:
                raise Unsupported("strlen bound")
        done(E, st, i)


def bytes_at(E, st, p, n):
    out = []
    for i in range(n):
        E.check_bounds(st, P(p.obj, lin_add(p.off, i)), 1, "memcmp")
        out.append(E.load_raw(st, E.obj(st, p.obj), lin_add(p.off, i), 1))
    return out


def h_memcmp(E, st, f, ins, a):
    n = a[2]
    if not isinstance(n, int):
        n = E.concretize(st, n)
    if n == 0:
        return done(E, st, 0)
    x, y = bytes_at(E, st, a[0], n), bytes_at(E, st, a[1], n)
    done(E, st, cmp_bytes(x, y))


def cmp_bytes(x, y):
    if all(isinstance(b, int) for b in x + y):
        bx, by = bytes(x), bytes(y)
        return 0 if bx == by else (1 if bx > by else 0xffffffff)
    r = z3.BitVecVal(0, 32)
    Zb = lambda b: z3.BitVecVal(b, 8) if isinstance(b, int) else b
    for p, q in reversed(list(zip(x, y))):
        r = z3.If(Zb(p) == Zb(q), r, z3.If(z3.ULT(Zb(p), Zb(q)), z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(1, 32)))
    return r


def h_strcmp(E, st, f, ins, a):
    x, y = cstr(E, st, a[0]), cstr(E, st, a[1])
    done(E, st, 0 if x == y else (1 if x > y else 0xffffffff))


def h_memchr(E, st, f, ins, a):
    n = a[2] if isinstance(a[2], int) else E.concretize(st, a[2])
    c = a[1]
    if not isinstance(c, int):
        c = z3.Extract(7, 0, c)
    else:
        c &= 0xff
    for i in range(n):
        E.check_bounds(st, P(a[0].obj, lin_add(a[0].off, i)), 1, "memchr")
        b = E.load_raw(st, E.obj(st, a[0].obj), lin_add(a[0].off, i), 1)
        if isinstance(b, int) and isinstance(c, int):
            if b == c:
                return done(E, st, P(a[0].obj, lin_add(a[0].off, i)))
            continue
        cond = z3.simplify((z3.BitVecVal(b, 8) if isinstance(b, int) else b) == (z3.BitVecVal(c, 8) if isinstance(c, int) else c))
        if z3.is_true(cond):
            return done(E, st, P(a[0].obj, lin_add(a[0].off, i)))
        if z3.is_false(cond):
            continue
        d = st.decided.get(cond.get_id())
        if d is None:
            raise NeedFork(cond)
        if d[0]:
            return done(E, st, P(a[0].obj, lin_add(a[0].off, i)))
    done(E, st, NULL)


def throw_std(ti):
    def h(E, st, f, ins, a):
        o = E.newobj(st, 64, "exception")
        E.gid(ti)
        E.throw(st, P(o.id, 0), ti)
    return h


def cxa_throw(E, st, f, ins, a):
    ti = E.gnames.get(a[1].obj)
    st.ghost["throws"] = st.ghost.get("throws", 0) + 1
    st.ghost[("exdtor", a[0].obj)] = a[2]
    E.throw(st, a[0], ti)


def cxa_begin_catch(E, st, f, ins, a):
    exn, ti, sel = st.exc
    st.caught.append(st.exc)
    done(E, st, P(exn.obj, lin_add(exn.off, sel[1])))


def cxa_end_catch(E, st, f, ins, a):
    st.caught.pop()
    done(E, st)


def cxa_rethrow(E, st, f, ins, a):
    exn, ti, sel = st.caught[-1]    # stays caught until the handler's clean-up calls __cxa_end_catch
    E.throw(st, exn, ti)


def cxa_alloc_exc(E, st, f, ins, a):
    o = E.newobj(st, a[0], "exception")
    done(E, st, P(o.id, 0))


def nop(v=None):
    def h(E, st, f, ins, a):
        done(E, st, v)
    return h


def eh_typeid(E, st, f, ins, a):
    done(E, st, E.tid(E.gnames.get(a[0].obj) if a[0].obj else "..."))


def terminate(E, st, f, ins, a):
    E.fail_path(st, "std::terminate reached", "exception")


def trap(E, st, f, ins, a):
    k = a[0] if a and isinstance(a[0], int) else -1
    E.fail_path(st, E.site(st, "undefined behaviour trap %s" % UBK.get(k, k)), "ub")


UBK = {0: "add-overflow", 1: "builtin", 2: "cfi", 3: "divrem-overflow", 5: "float-cast-overflow", 10: "load-invalid-value", 11: "missing-return",
       12: "mul-overflow", 13: "negate-overflow", 16: "nonnull-arg", 18: "out-of-bounds", 19: "pointer-overflow", 20: "shift-out-of-bounds",
       21: "sub-overflow", 22: "type-mismatch"}


def abort(E, st, f, ins, a):
    E.fail_path(st, "abort reached", "ub")


def assert_fail(E, st, f, ins, a):
    E.fail_path(st, "assert() failed: " + cstr(E, st, a[0]).decode(), "assert")


def guard_acquire(E, st, f, ins, a):
    o = E.obj(st, a[0].obj)
    b = E.load_raw(st, o, a[0].off, 1)
    done(E, st, 1 if (isinstance(b, int) and b == 0) else 0)


def guard_release(E, st, f, ins, a):
    E.store_raw(st, E.obj(st, a[0].obj), a[0].off, 1, 1)
    done(E, st)


def dyn_cast(E, st, f, ins, a):
    src = a[0]
    vp = E.load(st, src, _PTR)
    vt = E.obj(st, vp.obj)
    top = E.load_raw(st, vt, vp.off - 16, 8)
    ti = E.load_raw(st, vt, vp.off - 8, 8)
    top = top if isinstance(top, int) else 0
    if top >> 63:
        top -= 1 << 64
    name = E.gnames[ti.obj]
    dst = E.gnames[a[2].obj]
    r = E.subtype(name, dst)
    if r is None:
        return done(E, st, NULL)
    done(E, st, P(src.obj, lin_add(src.off, top + r)))


class _T:
    pass


_PTR = _T()
_PTR.k, _PTR.w, _PTR.size, _PTR.key = "ptr", 64, 8, "ptr"


# ---------------------------------------------------------------- llvm intrinsics
def overflow(kind, op):
    def h(E, st, f, ins, a):
        from engine import bv_binop, cmp_int, sgn, mask, Z
        w = ins.x[3][0].w
        x, y = E.intval(st, a[0]), E.intval(st, a[1])
        if isinstance(x, int) and isinstance(y, int):
            if kind == "s":
                x2, y2 = sgn(x, w), sgn(y, w)
            else:
                x2, y2 = x, y
            r = x2 + y2 if op == "add" else x2 - y2 if op == "sub" else x2 * y2
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if kind == "s" else (0, mask(w))
            return done(E, st, [r & mask(w), int(not lo <= r <= hi)])
        r = bv_binop(E, st, op, x, y, w)
        zx, zy = Z(x, w), Z(y, w)
        if op == "add":
            ok = z3.BVAddNoOverflow(zx, zy, kind == "s")
            if kind == "s":
                ok = z3.And(ok, z3.BVAddNoUnderflow(zx, zy))
        elif op == "sub":
            if kind == "s":
                ok = z3.And(z3.BVSubNoOverflow(zx, zy), z3.BVSubNoUnderflow(zx, zy, True))
            else:
                ok = z3.UGE(zx, zy)
        else:
            if kind == "u" and (isinstance(x, int) or isinstance(y, int)):
                k = x if isinstance(x, int) else y
                v = zy if isinstance(x, int) else zx
                ok = z3.ULE(v, z3.BitVecVal(mask(w) // k, w)) if k else z3.BoolVal(True)
            else:
                ok = z3.BVMulNoOverflow(zx, zy, kind == "s")
                if kind == "s":
                    ok = z3.And(ok, z3.BVMulNoUnderflow(zx, zy))
        done(E, st, [r, z3.Not(ok)])
    return h


def minmax(pred):
    def h(E, st, f, ins, a):
        from engine import cmp_int
        w = ins.ty.w
        x, y = E.intval(st, a[0]), E.intval(st, a[1])
        c = cmp_int(pred, x, y, w)
        done(E, st, E.iteW(st, c, x, y, w))
    return h


def sat(kind, op):
    def h(E, st, f, ins, a):
        from engine import bv_binop, cmp_int, mask, Z
        w = ins.ty.w
        x, y = a[0], a[1]
        if kind == "u" and op == "sub":
            c = cmp_int("uge", x, y, w)
            return done(E, st, E.iteW(st, c, bv_binop(E, st, "sub", x, y, w), 0, w))
        if kind == "u" and op == "add":
            s = bv_binop(E, st, "add", x, y, w)
            c = cmp_int("ult", s, x, w)
            return done(E, st, E.iteW(st, c, mask(w), s, w))
        raise Unsupported("sat")
    return h


def fsh(left):
    def h(E, st, f, ins, a):
        from engine import Z, mask
        w = ins.ty.w
        s = a[2]
        if not isinstance(s, int):
            raise Unsupported("fsh symbolic")
        s %= w
        x, y = Z(a[0], w), Z(a[1], w)
        if s == 0:
            return done(E, st, a[0] if left else a[1])
        k = s if left else w - s
        r = z3.simplify(z3.Concat(z3.Extract(w - k - 1, 0, x), z3.Extract(w - 1, w - k, y)))
        done(E, st, r.as_long() if z3.is_bv_value(r) else r)
    return h


def bswap(E, st, f, ins, a):
    from engine import Z
    w = ins.ty.w
    v = a[0]
    if isinstance(v, int):
        return done(E, st, int.from_bytes(v.to_bytes(w // 8, "little"), "big"))
    parts = [z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]
    done(E, st, z3.Concat(*parts))


def ctz(lead):
    def h(E, st, f, ins, a):
        from engine import Z
        w = ins.ty.w
        v = a[0]
        if isinstance(v, int):
            if v == 0:
                return done(E, st, w)
            r = (w - v.bit_length()) if lead else ((v & -v).bit_length() - 1)
            return done(E, st, r)
        r = z3.BitVecVal(w, w)
        rng = range(w) if lead else range(w - 1, -1, -1)
        for i in rng:
            r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i if lead else i, w), r)
        done(E, st, r)
    return h


def ctpop(E, st, f, ins, a):
    w = ins.ty.w
    v = a[0]
    if isinstance(v, int):
        return done(E, st, bin(v).count("1"))
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
    done(E, st, r)


def iabs(E, st, f, ins, a):
    from engine import sgn, mask
    w = ins.ty.w
    v = a[0]
    if isinstance(v, int):
        return done(E, st, abs(sgn(v, w)) & mask(w))
    done(E, st, z3.If(v < 0, -v, v))


def fp1(name):
    def h(E, st, f, ins, a):
        v = a[0]
        w = ins.ty.w
        if ins.ty.k == "vec":
            raise Unsupported("vector " + name)
        if name == "fabs":
            if v.bits is not None:
                b = v.bits
                return done(E, st, FPV(w, b & ((1 << (w - 1)) - 1)))
            return done(E, st, FPV(w, None, z3.fpAbs(v.fp())))
        rm = {"trunc": z3.RTZ(), "floor": z3.RTN(), "ceil": z3.RTP(), "rint": z3.RNE(), "nearbyint": z3.RNE(), "round": z3.RNA()}[name]
        done(E, st, FPV(w, None, z3.fpRoundToIntegral(rm, v.fp())))
    return h


def hash_bytes(E, st, f, ins, a):
    """std::_Hash_bytes of concrete bytes (libstdc++ murmur hash, 64 bit)"""
    n = a[1]
    if not isinstance(n, int) or not isinstance(a[2], int):
        raise Unsupported("hash of symbolic length")
    bs = bytes_at(E, st, a[0], n) if n else []
    if not all(isinstance(b, int) for b in bs):
        raise Unsupported("hash of symbolic bytes")
    M, mul = (1 << 64) - 1, 0xc6a4a7935bd1e995
    sm = lambda v: v ^ (v >> 47)
    h = (a[2] ^ (n * mul)) & M
    full = n & ~7
    for i in range(0, full, 8):
        d = int.from_bytes(bytes(bs[i:i + 8]), "little")
        d = (sm((d * mul) & M) * mul) & M
        h = ((h ^ d) * mul) & M
    if n & 7:
        d = int.from_bytes(bytes(bs[full:]), "little")
        h = ((h ^ d) * mul) & M
    h = (sm(h) * mul) & M
    done(E, st, sm(h))


def h_ldexp(E, st, f, ins, a):
    """x * 2^n, correctly rounded (C library contract); n is made concrete"""
    v, w = a[0], a[0].w
    from engine import sgn
    n = sgn(E.concretize(st, a[1]) if not isinstance(a[1], int) else a[1], 32)
    if not -120 <= n <= 120:
        raise Unsupported("ldexp by %d" % n)
    k = fp_from_py(w, 2.0 ** n)
    if v.conc():
        try:
            return done(E, st, fp_from_py(w, v.py() * 2.0 ** n))
        except OverflowError:
            pass
    done(E, st, FPV(w, None, z3.fpMul(z3.RNE(), v.fp(), k.fp())))


def is_fpclass(E, st, f, ins, a):
    v, m = a[0], a[1]
    x = v.fp()
    tests = []
    neg = z3.fpIsNegative(x)
    table = [(0x3, z3.fpIsNaN(x)), (0x4, z3.And(z3.fpIsInf(x), neg)), (0x8, z3.And(z3.fpIsNormal(x), neg)),
             (0x10, z3.And(z3.fpIsSubnormal(x), neg)), (0x20, z3.And(z3.fpIsZero(x), neg)),
             (0x40, z3.And(z3.fpIsZero(x), z3.Not(neg))), (0x80, z3.And(z3.fpIsSubnormal(x), z3.Not(neg))),
             (0x100, z3.And(z3.fpIsNormal(x), z3.Not(neg))), (0x200, z3.And(z3.fpIsInf(x), z3.Not(neg)))]
    for bit, c in table:
        if m & bit:
            tests.append(c)
    r = z3.simplify(z3.Or(*tests)) if tests else z3.BoolVal(False)
    done(E, st, 1 if z3.is_true(r) else 0 if z3.is_false(r) else r)


def expect(E, st, f, ins, a):
    done(E, st, a[0])


def llvm_assume(E, st, f, ins, a):
    # compiler-derived fact: must hold, else UB
    done(E, st)


def objectsize(E, st, f, ins, a):
    done(E, st, (1 << ins.ty.w) - 1)


def is_constant(E, st, f, ins, a):
    done(E, st, 0)


def fmuladd(E, st, f, ins, a):
    w = ins.ty.w
    # contracted or not is unspecified; clang x86 without FMA: separate ops
    m = z3.fpMul(z3.RNE(), a[0].fp(), a[1].fp())
    done(E, st, FPV(w, None, z3.fpAdd(z3.RNE(), m, a[2].fp())))


def minnum(mx):
    def h(E, st, f, ins, a):
        x, y = a[0].fp(), a[1].fp()
        done(E, st, FPV(ins.ty.w, None, (z3.fpMax if mx else z3.fpMin)(x, y)))
    return h


def ptrmask(E, st, f, ins, a):
    raise Unsupported("ptrmask")


INTR = [
    (r"llvm\.memcpy|llvm\.memmove", h_memcpy), (r"llvm\.memset", h_memset),
    (r"llvm\.sadd\.with", overflow("s", "add")), (r"llvm\.uadd\.with", overflow("u", "add")),
    (r"llvm\.ssub\.with", overflow("s", "sub")), (r"llvm\.usub\.with", overflow("u", "sub")),
    (r"llvm\.smul\.with", overflow("s", "mul")), (r"llvm\.umul\.with", overflow("u", "mul")),
    (r"llvm\.umin", minmax("ult")), (r"llvm\.umax", minmax("ugt")), (r"llvm\.smin", minmax("slt")), (r"llvm\.smax", minmax("sgt")),
    (r"llvm\.usub\.sat", sat("u", "sub")), (r"llvm\.uadd\.sat", sat("u", "add")),
    (r"llvm\.fshl", fsh(True)), (r"llvm\.fshr", fsh(False)), (r"llvm\.bswap", bswap),
    (r"llvm\.ctlz", ctz(True)), (r"llvm\.cttz", ctz(False)), (r"llvm\.ctpop", ctpop), (r"llvm\.abs", iabs),
    (r"llvm\.ldexp", h_ldexp), (r"llvm\.fabs", fp1("fabs")), (r"llvm\.trunc", fp1("trunc")), (r"llvm\.floor", fp1("floor")), (r"llvm\.ceil", fp1("ceil")),
    (r"llvm\.rint", fp1("rint")), (r"llvm\.nearbyint", fp1("nearbyint")), (r"llvm\.round\.", fp1("round")),
    (r"llvm\.is\.fpclass", is_fpclass), (r"llvm\.expect", expect), (r"llvm\.assume", llvm_assume),
    (r"llvm\.fmuladd", fmuladd), (r"llvm\.maxnum", minnum(True)), (r"llvm\.minnum", minnum(False)),
    (r"llvm\.eh\.typeid", eh_typeid), (r"llvm\.ubsantrap", trap), (r"llvm\.trap", trap),
    (r"llvm\.objectsize", objectsize), (r"llvm\.is\.constant", is_constant),
    (r"llvm\.(lifetime|dbg|invariant|prefetch|experimental|stackrestore|donothing)", nop()), (r"llvm\.stacksave", nop(NULL)),
    (r"llvm\.x86\.sse2\.pause", nop()), (r"llvm\.launder|llvm\.strip", expect),
]

EXT = {
    "vc_u8": any_int(8), "vc_u16": any_int(16), "vc_u32": any_int(32), "vc_u64": any_int(64), "vc_bool": any_bool, "vc_in": any_in,
    "vc_f64": any_fp(64), "vc_f32": any_fp(32), "vc_assume": vc_assume, "vc_assert": vc_assert, "vc_cover": vc_cover,
    "vc_alloc": vc_alloc, "vc_havoc": vc_havoc, "vc_valid": vc_valid, "vc_freed": vc_freed, "vc_live_heap": vc_live_heap,
    "vc_set_env": vc_set_env, "vc_sync": vc_sync, "vc_concretize": vc_concretize, "vc_split": vc_split, "vc_unreachable": vc_unreachable,
    "vc_symbolic": vc_symbolic_mode, "vc_same_object": vc_same_object, "vc_end": vc_end,
    "_Znwm": op_new, "_Znam": op_new, "malloc": op_new, "_ZnwmSt11align_val_t": op_new, "_ZnwmRKSt9nothrow_t": op_new,
    "_ZdlPv": op_delete, "_ZdlPvm": op_delete, "_ZdaPv": op_delete, "_ZdaPvm": op_delete, "free": op_delete,
    "_ZdlPvSt11align_val_t": op_delete, "_ZdlPvmSt11align_val_t": op_delete, "_ZdlPvRKSt9nothrow_t": op_delete,
    "calloc": h_calloc, "memcpy": h_memcpy, "memmove": h_memcpy, "memset": h_memset, "strlen": h_strlen,
    "memcmp": h_memcmp, "bcmp": h_memcmp, "strcmp": h_strcmp, "memchr": h_memchr,
    "_ZSt11_Hash_bytesPKvmm": hash_bytes, "ldexp": h_ldexp, "ldexpf": h_ldexp, "scalbn": h_ldexp, "scalbnf": h_ldexp,
    "__cxa_throw": cxa_throw, "__cxa_begin_catch": cxa_begin_catch, "__cxa_end_catch": cxa_end_catch,
    "__cxa_rethrow": cxa_rethrow, "__cxa_allocate_exception": cxa_alloc_exc, "__cxa_free_exception": nop(),
    "__cxa_guard_acquire": guard_acquire, "__cxa_guard_release": guard_release, "__cxa_guard_abort": nop(),
    "__cxa_atexit": nop(0), "_ZSt9terminatev": terminate, "__clang_call_terminate": terminate, "abort": abort,
    "__assert_fail": assert_fail, "__dynamic_cast": dyn_cast, "__cxa_pure_virtual": abort,
    "_ZSt20__throw_length_errorPKc": throw_std("_ZTISt12length_error"),
    "_ZSt20__throw_out_of_rangePKc": throw_std("_ZTISt12out_of_range"),
    "_ZSt24__throw_out_of_range_fmtPKcz": throw_std("_ZTISt12out_of_range"),
    "_ZSt17__throw_bad_allocv": throw_std("_ZTISt9bad_alloc"),
    "_ZSt28__throw_bad_array_new_lengthv": throw_std("_ZTISt20bad_array_new_length"),
    "_ZSt19__throw_logic_errorPKc": throw_std("_ZTISt11logic_error"),
    "_ZSt25__throw_bad_function_callv": throw_std("_ZTISt17bad_function_call"),
    "_ZSt24__throw_invalid_argumentPKc": throw_std("_ZTISt16invalid_argument"),
    "_ZSt21__throw_runtime_errorPKc": throw_std("_ZTISt13runtime_error"),
    "_ZSt20__throw_system_errori": throw_std("_ZTISt12system_error"),
    "__cxa_throw_bad_array_new_length": throw_std("_ZTISt20bad_array_new_length"),
    "__cxa_bad_cast": throw_std("_ZTISt8bad_cast"), "__cxa_bad_typeid": throw_std("_ZTISt10bad_typeid"),
    "pthread_mutex_lock": nop(0), "pthread_mutex_unlock": nop(0), "pthread_mutex_trylock": nop(0), "sched_yield": nop(0),
    "__pthread_key_create": nop(0), "pthread_once": nop(0),
    "_ZNSt12__basic_fileIcED1Ev": nop(),
    "_ZSt18uncaught_exceptionv": nop(0), "_ZSt19uncaught_exceptionsv": nop(0),
}


def any_of(w, *vals):
    def h(E, st, f, ins, a):
        v = E.fresh("ext", w)
        if vals:
            st.pc.append(z3.Or(*[v == x for x in vals]))
        done(E, st, v)
    return h


def clock_now(E, st, f, ins, a):
    """some time between the epoch and 2^60 ns"""
    v = E.fresh("now", 64)
    st.pc.append(z3.ULT(v, 1 << 60))
    done(E, st, v)


EXT.update({
    "_ZNSt18condition_variableC1Ev": nop(), "_ZNSt18condition_variableD1Ev": nop(),
    "_ZNSt18condition_variable10notify_oneEv": nop(), "_ZNSt18condition_variable10notify_allEv": nop(),
    "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE": nop(),
    "pthread_cond_clockwait": any_of(32, 0, 110), "pthread_cond_timedwait": any_of(32, 0, 110), "pthread_cond_wait": nop(0),
    "_ZNSt6chrono3_V212steady_clock3nowEv": clock_now, "_ZNSt6chrono3_V212system_clock3nowEv": clock_now,
    "pthread_rwlock_rdlock": nop(0), "pthread_rwlock_wrlock": nop(0), "pthread_rwlock_unlock": nop(0),
})


def install(E):
    E.handlers = dict(EXT)
    cache = {}

    def intrinsic(name):
        if name in cache:
            return cache[name]
        for rx, h in INTR:
            if re.match(rx, name):
                cache[name] = h
                return h
        raise Unsupported("intrinsic " + name)
    E.intrinsic = intrinsic

    def external(fn):
        d = fn.dem
        # constructors/destructors/what() of std exception classes
        if re.match(r"std::(\w+_error|exception|logic_error|out_of_range|invalid_argument|bad_\w+|length_error)::(~?\w+|what)\(", d):
            E.res.externals[d] = "no-op"
            return nop(NULL)
        return None
    E.external = external

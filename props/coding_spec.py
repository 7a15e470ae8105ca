"""Specification functions and contracts for util/coding.* (exact bit-vector arithmetic)."""
import z3
from vc.engine import FnSpec, P, STACK0, HEAPMAX, is_num, num
from vc.run import Task, Lemma
from vc import models as M

B8 = z3.BitVecSort(8)


def bv(v, w):
    return z3.BitVecVal(v, w)


# ---- specification functions (pure, over values) ---------------------------
def le_bytes(v, k):
    return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(k)]


def vlen_is(v, n, maxn):
    """the minimal base-128 encoding of v has exactly n groups"""
    w = v.size()
    lo = z3.BoolVal(True) if n == 1 else z3.UGE(v, bv(1 << (7 * (n - 1)), w))
    hi = z3.BoolVal(True) if 7 * n >= w else z3.ULT(v, bv(1 << (7 * n), w))
    return z3.And(lo, hi)


def vbytes(v, n):
    """groups, least significant first; all but the last carry the continuation bit"""
    out = []
    w = v.size()
    for i in range(n):
        s = z3.LShR(v, bv(7 * i, w))
        g = z3.Extract(6, 0, s) if w > 7 else s
        out.append(z3.Concat(bv(0 if i == n - 1 else 1, 1), g))
    return out


def maxgroups(w):
    return 5 if w == 32 else 10


def dec_value(bs, w):
    """value of a complete group sequence (exactly what 7-bit groups denote, modulo 2^w)"""
    r = bv(0, w)
    for i, b in enumerate(bs):
        r = r | ((z3.ZeroExt(w - 8, b) & bv(127, w)) << bv(7 * i, w))
    return r


def complete_at(bs, avail, n):
    """a terminating byte at index n-1 and continuation bytes before it, all available (avail: 64-bit count)"""
    c = [z3.UGE(avail, bv(n, 64)), z3.Extract(7, 7, bs[n - 1]) == bv(0, 1)]
    c += [z3.Extract(7, 7, bs[i]) == bv(1, 1) for i in range(n - 1)]
    return z3.And(c)


# ---- helpers ----------------------------------------------------------------
def byte(c, p, i, st=None):
    return c.ex.select(c.E('i8', st), c.ex.A.aoff(p, i))


def sane_range(p, n):
    return z3.And(z3.ULT(n, bv(HEAPMAX, 64)), z3.ULT(p + n, bv(HEAPMAX, 64)), z3.UGE(p + n, p))


class ReadWindow:
    """every byte read outside this activation's stack lies inside [lo, hi)"""

    def __init__(self, lo, n):
        self.lo, self.n = lo, n

    def install(self, ex):
        lo, n = self.lo, self.n

        def hook(ex, st, rw, p, key, idx, ty, line, v=None):
            if key != ('E', 'i8'):
                return
            a = idx[0]
            if is_num(a) and num(a) >= STACK0:
                return
            if rw == 'r':
                ex.oblige(st, 'byte read lies inside the input range', z3.ULT(a - lo, n), line, 'safety')

        def rhook(ex, st, what, p, n2, line):
            if what == 'r' and not (is_num(p.addr) and num(p.addr) >= STACK0):
                ex.oblige(st, 'bytes read lie inside the input range',
                          z3.Or(n2 == 0, z3.And(z3.ULT(p.addr - lo, n), z3.ULE(n2, n - (p.addr - lo)))), line, 'safety')
        ex.access_hook = hook
        ex.range_hook = rhook


class EncodeFixed(FnSpec):
    def __init__(self, w):
        self.w = w

    def pre(self, c):
        return [('room', sane_range(c.args[0].addr, bv(self.w // 8, 64)))]

    def modifies(self, c):
        d = c.args[0].addr
        return {('E', 'i8'): [(c.ex.A.aoff(d, i),) for i in range(self.w // 8)]}

    def post(self, c):
        d, v = c.args[0].addr, c.args[1]
        return [('byte %d is little-endian' % i, byte(c, d, i) == b) for i, b in enumerate(le_bytes(v, self.w // 8))]


class DecodeFixed(FnSpec):
    def __init__(self, w):
        self.w = w

    def pre(self, c):
        return [('readable', sane_range(c.args[0].addr, bv(self.w // 8, 64)))]

    def setup(self, c):
        ReadWindow(c.args[0].addr, bv(self.w // 8, 64)).install(c.ex)

    def post(self, c):
        p = c.args[0].addr
        bs = [byte(c, p, i, c.old) for i in range(self.w // 8)]
        return [('value is the little-endian number', c.ret == z3.Concat(*reversed(bs)))]


class EncodeVarint(FnSpec):
    def __init__(self, w):
        self.w = w

    def pre(self, c):
        return [('room', sane_range(c.args[0].addr, bv(maxgroups(self.w), 64)))]

    def modifies(self, c):
        d = c.args[0].addr
        return {('E', 'i8'): [(c.ex.A.aoff(d, i),) for i in range(maxgroups(self.w))]}

    def post(self, c):
        d, v = c.args[0].addr, c.args[1]
        out = []
        for n in range(1, maxgroups(self.w) + 1):
            g = vlen_is(v, n, maxgroups(self.w))
            res = [c.ret.addr == d + n]
            res += [byte(c, d, i) == b for i, b in enumerate(vbytes(v, n))]
            res += [byte(c, d, i) == byte(c, d, i, c.old) for i in range(n, maxgroups(self.w))]
            out.append(('minimal %d-group encoding' % n, z3.Implies(g, z3.And(res))))
        return out


class VarintLength(FnSpec):
    def post(self, c):
        v = c.args[0]
        return [('length of the minimal encoding is %d' % n, z3.Implies(vlen_is(v, n, 10), c.ret == n)) for n in range(1, 11)]


def units(bs):
    return M.concat(*[z3.Unit(b) for b in bs])


class PutFixed(FnSpec):
    def __init__(self, w):
        self.w = w

    def modifies(self, c):
        return {('STR',): [(c.args[0].addr,)]}

    def post(self, c):
        d = c.args[0].addr
        return [('appends the little-endian bytes',
                 M.str_get(c.ex, c.st, d) == z3.Concat(M.str_get(c.ex, c.old, d), units(le_bytes(c.args[1], self.w // 8))))]


class PutVarint(FnSpec):
    def __init__(self, w):
        self.w = w

    def modifies(self, c):
        return {('STR',): [(c.args[0].addr,)]}

    def post(self, c):
        d, v = c.args[0].addr, c.args[1]
        return [('appends the %d-group encoding' % n,
                 z3.Implies(vlen_is(v, n, 10),
                            M.str_get(c.ex, c.st, d) == z3.Concat(M.str_get(c.ex, c.old, d), units(vbytes(v, n)))))
                for n in range(1, maxgroups(self.w) + 1)]


class PutLengthPrefixed(FnSpec):
    def pre(self, c):
        s = c.args[1].addr
        p, n = c.F('Slice', 'data_')[s], c.F('Slice', 'size_')[s]
        return [('slice in memory', sane_range(p, n)), ('length below 4 GiB', z3.ULT(n, bv(1 << 32, 64)))]

    def modifies(self, c):
        return {('STR',): [(c.args[0].addr,)]}

    def post(self, c):
        d, s = c.args[0].addr, c.args[1].addr
        p, n = c.F('Slice', 'data_', c.old)[s], c.F('Slice', 'size_', c.old)[s]
        L = z3.Extract(31, 0, n)
        body = M.bseq_fn(c.ex)(c.E('i8', c.old), p, n)
        return [('appends %d-group length then the bytes' % k,
                 z3.Implies(vlen_is(L, k, 5), M.str_get(c.ex, c.st, d) == z3.Concat(
                     M.str_get(c.ex, c.old, d), units(vbytes(L, k)), body)))
                for k in range(1, 6)]


class GetPtr(FnSpec):
    """GetVarintNNPtr(p, limit, value)"""

    def __init__(self, w):
        self.w = w

    def pre(self, c):
        p, l = c.args[0].addr, c.args[1].addr
        return [('range', z3.And(z3.ULE(p, l), p != 0))]

    def setup(self, c):
        p, l = c.args[0].addr, c.args[1].addr
        ReadWindow(p, l - p).install(c.ex)

    def modifies(self, c):
        return {('E', 'i%d' % self.w): [(c.args[2].addr,)]}

    def post(self, c):
        p, l, vp = c.args[0].addr, c.args[1].addr, c.args[2].addr
        k = maxgroups(self.w)
        bs = [byte(c, p, i, c.old) for i in range(k)]
        out = []
        anyc = []
        for n in range(1, k + 1):
            g = complete_at(bs, l - p, n)
            anyc.append(g)
            out.append(('complete %d-byte encoding is decoded' % n, z3.Implies(g, z3.And(
                c.ret.addr == p + n, c.E('i%d' % self.w)[vp] == dec_value(bs[:n], self.w)))))
        out.append(('anything else is rejected', z3.Implies(z3.Not(z3.Or(anyc)), c.ret.addr == 0)))
        return out


class GetSlice(FnSpec):
    """GetVarintNN(Slice* input, value)"""

    def __init__(self, w):
        self.w = w

    def pre(self, c):
        s = c.args[0].addr
        p, n = c.F('Slice', 'data_')[s], c.F('Slice', 'size_')[s]
        return [('slice in memory', z3.And(sane_range(p, n), p != 0))]

    def setup(self, c):
        s = c.args[0].addr
        ReadWindow(c.F('Slice', 'data_')[s], c.F('Slice', 'size_')[s]).install(c.ex)

    def modifies(self, c):
        s = c.args[0].addr
        return {('E', 'i%d' % self.w): [(c.args[1].addr,)],
                c.ex.fkey('Slice', 'data_'): [(s,)], c.ex.fkey('Slice', 'size_'): [(s,)]}

    def post(self, c):
        s, vp = c.args[0].addr, c.args[1].addr
        p, l = c.F('Slice', 'data_', c.old)[s], c.F('Slice', 'size_', c.old)[s]
        p2, l2 = c.F('Slice', 'data_')[s], c.F('Slice', 'size_')[s]
        k = maxgroups(self.w)
        bs = [byte(c, p, i, c.old) for i in range(k)]
        out = []
        anyc = []
        for n in range(1, k + 1):
            g = complete_at(bs, l, n)
            anyc.append(g)
            out.append(('complete %d-byte encoding is decoded and skipped' % n, z3.Implies(g, z3.And(
                c.ret, p2 == p + n, l2 == l - n, c.E('i%d' % self.w)[vp] == dec_value(bs[:n], self.w)))))
        out.append(('anything else is rejected, input unchanged',
                    z3.Implies(z3.Not(z3.Or(anyc)), z3.And(z3.Not(c.ret), p2 == p, l2 == l))))
        return out


class GetLP(FnSpec):
    """GetLengthPrefixedSlice(Slice* input, Slice* result)"""

    def pre(self, c):
        s, r = c.args[0].addr, c.args[1].addr
        p, n = c.F('Slice', 'data_')[s], c.F('Slice', 'size_')[s]
        return [('slice in memory', z3.And(sane_range(p, n), p != 0)), ('distinct objects', s != r)]

    def setup(self, c):
        s = c.args[0].addr
        ReadWindow(c.F('Slice', 'data_')[s], c.F('Slice', 'size_')[s]).install(c.ex)

    def modifies(self, c):
        s, r = c.args[0].addr, c.args[1].addr
        return {c.ex.fkey('Slice', 'data_'): [(s,), (r,)], c.ex.fkey('Slice', 'size_'): [(s,), (r,)]}

    def post(self, c):
        s, r = c.args[0].addr, c.args[1].addr
        D0, S0 = c.F('Slice', 'data_', c.old), c.F('Slice', 'size_', c.old)
        D, S = c.F('Slice', 'data_'), c.F('Slice', 'size_')
        p, l = D0[s], S0[s]
        bs = [byte(c, p, i, c.old) for i in range(5)]
        out = []
        anyc = []
        for n in range(1, 6):
            L = z3.ZeroExt(32, dec_value(bs[:n], 32))
            g = z3.And(complete_at(bs, l, n), z3.UGE(l - n, L))
            anyc.append(g)
            out.append(('announced bytes after a %d-byte length are delivered' % n, z3.Implies(g, z3.And(
                c.ret, D[r] == p + n, S[r] == L, D[s] == p + n + L, S[s] == l - n - L))))
        out.append(('anything else is rejected', z3.Implies(z3.Not(z3.Or(anyc)), z3.Not(c.ret))))
        return out


class GetLPPtr(FnSpec):
    """GetLengthPrefixedSlice(p, limit, Slice* result)"""

    def pre(self, c):
        p, l = c.args[0].addr, c.args[1].addr
        return [('range', z3.And(z3.ULE(p, l), p != 0))]

    def setup(self, c):
        p, l = c.args[0].addr, c.args[1].addr
        ReadWindow(p, l - p).install(c.ex)

    def modifies(self, c):
        r = c.args[2].addr
        return {c.ex.fkey('Slice', 'data_'): [(r,)], c.ex.fkey('Slice', 'size_'): [(r,)]}

    def post(self, c):
        p, e, r = c.args[0].addr, c.args[1].addr, c.args[2].addr
        l = e - p
        D, S = c.F('Slice', 'data_'), c.F('Slice', 'size_')
        bs = [byte(c, p, i, c.old) for i in range(5)]
        out = []
        anyc = []
        for n in range(1, 6):
            L = z3.ZeroExt(32, dec_value(bs[:n], 32))
            g = z3.And(complete_at(bs, l, n), z3.UGE(l - n, L))
            anyc.append(g)
            out.append(('announced bytes after a %d-byte length are delivered' % n, z3.Implies(g, z3.And(
                D[r] == p + n, S[r] == L, c.ret.addr == p + n + L))))
        out.append(('anything else is rejected', z3.Implies(z3.Not(z3.Or(anyc)), c.ret.addr == 0)))
        return out


def roundtrip_lemma(w):
    def f():
        v = z3.BitVec('v', w)
        avail = z3.BitVec('avail', 64)
        k = maxgroups(w)
        tail = [z3.BitVec('t%d' % i, 8) for i in range(k)]
        out = []
        for n in range(1, k + 1):
            bs = vbytes(v, n) + tail
            h = [vlen_is(v, n, k), z3.UGE(avail, bv(n, 64))]
            out.append(('encoding of %d groups decodes to the value, length %d' % (n, n), h,
                        z3.And(complete_at(bs, avail, n), dec_value(bs[:n], w) == v)))
            for m in range(1, k + 1):
                if m != n:
                    out.append(('and not to any other length (%d/%d)' % (n, m), h, z3.Not(complete_at(bs, avail, m))))
        out.append(('every value has some group count', [], z3.Or([vlen_is(v, n, k) for n in range(1, k + 1)])))
        return out
    return f


def fixed_lemma(w):
    def f():
        v = z3.BitVec('v', w)
        return [('little-endian bytes decode to the value', [], z3.Concat(*reversed(le_bytes(v, w // 8))) == v)]
    return f


def decoder_tasks():
    T = []
    for w in (32, 64):
        T.append(Task('GetVarint%dPtr' % w, r'^lsmdb::GetVarint%dPtr\(' % w, GetPtr(w), 'bv'))
        T.append(Task('GetVarint%d' % w, r'^lsmdb::GetVarint%d\(' % w, GetSlice(w), 'bv'))
    T.append(Task('GetLengthPrefixedSlice(Slice*)', r'^lsmdb::GetLengthPrefixedSlice\(lsmdb::Slice\*', GetLP(), 'bv'))
    T.append(Task('GetLengthPrefixedSlice(ptr)', r'^lsmdb::GetLengthPrefixedSlice\(char const\*', GetLPPtr(), 'bv'))
    return T


def encoder_tasks():
    T = []
    for w in (32, 64):
        T.append(Task('EncodeFixed%d' % w, r'^lsmdb::EncodeFixed%d\(' % w, EncodeFixed(w), 'bv'))
        T.append(Task('DecodeFixed%d' % w, r'^lsmdb::DecodeFixed%d\(' % w, DecodeFixed(w), 'bv'))
        T.append(Task('PutFixed%d' % w, r'^lsmdb::PutFixed%d\(' % w, PutFixed(w), 'bv'))
        T.append(Task('EncodeVarint%d' % w, r'^lsmdb::EncodeVarint%d\(' % w, EncodeVarint(w), 'bv'))
        T.append(Task('PutVarint%d' % w, r'^lsmdb::PutVarint%d\(' % w, PutVarint(w), 'bv'))
        T.append(Lemma('varint%d round trip' % w, roundtrip_lemma(w)))
        T.append(Lemma('fixed%d round trip' % w, fixed_lemma(w)))
    T.append(Task('VarintLength', r'^lsmdb::VarintLength\(', VarintLength(), 'bv'))
    T.append(Task('PutLengthPrefixedSlice', r'^lsmdb::PutLengthPrefixedSlice\(', PutLengthPrefixed(), 'bv'))
    return T

"""Contracts of memenv's FileState, shared by C16 and C17.

Content: byte number k of a file is the byte at offset k % 8192 of block k / 8192; no ghost copy is needed.  The invariant FI
says that the blocks are live, do not overlap and are exactly as many as the size needs.
"""
from .vec_spec import *
from .sync_spec import *
from .status_spec import *

FS = 'FileState'
B = 8192
FSIZE = 128
QD = z3.Function('block_no', Int, Int)
RM = z3.Function('block_off', Int, Int)
NSX = r'lsmdb::\(anonymous namespace\)::'


def div_axiom():
    k = z3.Int('k!d')
    return z3.ForAll([k], z3.Implies(k >= 0, z3.And(k == B * QD(k) + RM(k), 0 <= RM(k), RM(k) < B, QD(k) >= 0)), patterns=[QD(k)])


def off(ex, f):
    return ex.fkey(FS, f)[2]


def fvec(ex, f):
    return f + off(ex, 'blocks_')


def fsize(c, f, st=None):
    return c.F(FS, 'size_', st)[f]


def frefs(c, f, st=None):
    return c.F(FS, 'refs_', st)[f]


def mem8(ex, st):
    return ex.region(st, ('E', 'i8'), 'i8')


def named(ex, st, t):
    if z3.is_const(t):
        return t
    k = ex.fresh('nm', t.sort())
    st.assume(k == t)
    return k


def cell(e, k):
    return e[QD(k)] + RM(k)


def FI(c, st, f, size=None):
    """the file invariant; labelled formulas"""
    ex = c.ex
    v = fvec(ex, f)
    known(ex, st, v)
    n, e = VN(ex, st, v), named(ex, st, VE(ex, st, v))
    lv = named(ex, st, M.live(ex, st))
    s = fsize(c, f, st) if size is None else size
    i, j = z3.Ints('i!b j!b')
    return [('as many blocks as the size needs', z3.And(s >= 0, n >= 0, B * n >= s, B * n < s + B)),
            ('blocks are live', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(lv[e[i]], e[i] > 0, e[i] + B < HEAPMAX, z3.Or(e[i] + B <= f, f + FSIZE <= e[i]))), patterns=[e[i]])),
            ('blocks do not overlap', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j), z3.Or(e[i] + B <= e[j], e[j] + B <= e[i])),
                                                patterns=[z3.MultiPattern(e[i], e[j])]))]


def apart_blocks(c, st, f, p, n):
    """no block of the file overlaps the caller's range"""
    ex = c.ex
    e = named(ex, st, VE(ex, st, fvec(ex, f)))
    i = z3.Int('i!x')
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < VN(ex, st, fvec(ex, f))), z3.Or(e[i] + B <= p, p + n <= e[i])), patterns=[e[i]])


def same_content(c, st, st0, f, upto):
    """the bytes before `upto` are those of st0"""
    ex = c.ex
    k = z3.Int('k!c')
    e, e0 = named(ex, st, VE(ex, st, fvec(ex, f))), VE(ex, st0, fvec(ex, f))
    m, m0 = mem8(ex, st), mem8(ex, st0)
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < upto), m[cell(e, k)] == m0[cell(e0, k)]), patterns=[QD(k)])


def same_blocks(c, st, st0, f):
    ex = c.ex
    v = fvec(ex, f)
    return z3.And(VN(ex, st, v) == VN(ex, st0, v), VE(ex, st, v) == VE(ex, st0, v))


def appended(c, st, st0, f, s0, data, n):
    """bytes s0 .. s0+n-1 are the caller's data"""
    ex = c.ex
    k = z3.Int('k!a')
    e = named(ex, st, VE(ex, st, fvec(ex, f)))
    m, m0 = mem8(ex, st), mem8(ex, st0)
    return z3.ForAll([k], z3.Implies(z3.And(s0 <= k, k < s0 + n), m[cell(e, k)] == m0[data + (k - s0)]), patterns=[QD(k)])


def bytes_same(c, st, st0, p, n):
    k = z3.Int('k!s')
    m, m0 = mem8(c.ex, st), mem8(c.ex, st0)
    return z3.ForAll([k], z3.Implies(z3.And(p <= k, k < p + n), m[k] == m0[k]), patterns=[m[k]])


def others_same(c, st, st0, p, n):
    """no byte outside the range changed"""
    k = z3.Int('k!o')
    m, m0 = mem8(c.ex, st), mem8(c.ex, st0)
    return z3.ForAll([k], z3.Implies(z3.Or(k < p, p + n <= k), m[k] == m0[k]), patterns=[m[k]])


def free(c):
    x = z3.Int('x!h')
    return [('the file\'s mutexes are free', c.st.ghost['held'] == z3.K(Int, z3.BoolVal(False)))]


def file_cfg(ex, st, guard_it=True):
    init_held(st)
    vec_config(ex)
    ex.axioms.append(div_axiom())
    ex.light = True
    ex.fwin = None
    st.ghost.setdefault('n', z3.IntVal(0))

    def alloc(ex_, s, a, n):
        s.assume(a > 0, a + n < HEAPMAX, a % 16 == 0)
        i = z3.Int('i!al')
        for v in getattr(ex, 'vecs', ()):
            e = named(ex, s, VE(ex, s, v))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < VN(ex, s, v)), z3.Or(a + n <= e[i], e[i] + B <= a)), patterns=[e[i]]))
        for lo, k in getattr(ex, 'objs', ()):
            s.assume(z3.Or(a + n <= lo, lo + k <= a))
        # new memory is never part of the vector's elements' storage
    ex.alloc_hook = alloc

    def in_block(s, a, n):
        i = z3.simplify
        v = ex.fvec
        # the block is found through the last element accessed; quantifier-free witness
        w = s.aux.get('lastblock', ())
        return [z3.And(b <= a, a + n <= b + B, iok) for b, iok in w]

    def rng(ex_, s, rw, p, n, line):
        if is_stack(p.addr) or p.glob is not None or getattr(ex, 'fvec', None) is None:
            return
        a = p.addr
        wins = list(getattr(ex, 'fwins_' + rw, ()))
        e = VE(ex, s, ex.fvec)
        i = ex.fresh('w', Int)
        # witness: the block number of some element equal to the start's block
        cands = [z3.And(b <= a, a + n <= b + B) for b in s.aux.get('elems', ())]
        goal = z3.Or([n == 0] + [z3.And(lo <= a, a + n <= lo + k) for lo, k in wins] + cands)
        ex.oblige(s, 'bytes %s lie inside the file or the caller\'s buffer' % ('read' if rw == 'r' else 'written'), goal, line, 'safety')
    ex.range_hook = rng
    old = ex.access_hook

    def guard(s, f, line):
        ex.oblige(s, 'the file\'s content is only touched with its mutex held', held(s, f + off(ex, 'blocks_mutex_')), line)
    if guard_it:
        ex.vec_guard = lambda ex_, s, v, line: guard(s, v - off(ex, 'blocks_'), line)

    def acc(ex_, s, rw, p, key, idx, ty, line, v=None):
        if old:
            old(ex_, s, rw, p, key, idx, ty, line, v)
        if guard_it and key == ex.fkey(FS, 'size_') and not is_stack(idx[0]):
            guard(s, idx[0], line)
        if key == ('E', 'ptr') and rw == 'r' and not is_stack(idx[0]):
            # an element of the block list: remember it as a block
            for vv in getattr(ex, 'vecs', ()):
                d, n = VD(ex, s, vv), VN(ex, s, vv)
                i = z3.simplify((idx[0] - d) / 8)
                b = ex.region(s, ('E', 'ptr'), 'ptr')[idx[0]]
                ok = z3.And(idx[0] >= d, idx[0] < d + 8 * n)
                s.aux['elems'] = s.aux.get('elems', ()) + (z3.If(ok, b, z3.IntVal(-B)),)
        if key == ('E', 'i8') and not is_stack(idx[0]) and p.glob is None and getattr(ex, 'fvec', None) is not None:
            a = idx[0]
            wins = list(getattr(ex, 'fwins_' + rw, ()))
            cands = [z3.And(b <= a, a < b + B) for b in s.aux.get('elems', ())]
            ex.oblige(s, 'byte %s lies inside the file or the caller\'s buffer' % ('read' if rw == 'r' else 'written'),
                      z3.Or([z3.And(lo <= a, a < lo + k) for lo, k in wins] + cands), line, 'safety')
    ex.access_hook = acc


FILE_MODELS = VEC_MODELS + SYNC_MODELS + STATUS_MODELS
FILE_TRUST = VEC_TRUST + SYNC_TRUST + STATUS_TRUST


def fmods(c, f, more=()):
    ex = c.ex
    m = vmods(c, fvec(ex, f))
    m.update({('E', 'i8'): None, ex.fkey(FS, 'size_'): [(f,)], key(ex): None, ('SVAL',): None})
    m.update(more)
    return m


def in_mem(f, n=FSIZE):
    return z3.And(f > 0, f + n < HEAPMAX)


# ------------------------------------------------------------ FileState::Append
def append_pre(c):
    ex = c.ex
    f, s = c.args[1].addr, c.args[2].addr
    d, n = slice_of(c, s)
    if not getattr(c, 'caller', False):
        ex.fvec = fvec(ex, f)
        ex.fwins_r, ex.fwins_w = [(d, n)], []
        ex.objs = [(d, n), (f, FSIZE), (s, 16), (c.args[0].addr, 8)]
        ex.d0, ex.n0 = d, n
    return [('objects in memory', z3.And(in_mem(f), in_mem(s, 16), sane(d, n), z3.Or(f + FSIZE <= d, d + n <= f))),
            ('the result is a separate object', z3.And(z3.Or(c.args[0].addr + 8 <= s, s + 16 <= c.args[0].addr))),
            ('mutex free', z3.Not(held(c.st, f + off(ex, 'blocks_mutex_')))),
            ('the file stays below 2^56 bytes', fsize(c, f) + n < (1 << 56)),
            ('the data is the caller\'s, not the file\'s own memory', apart_blocks(c, c.st, f, d, n))] + FI(c, c.st, f)


def append_post(c):
    f, s = c.args[1].addr, c.args[2].addr
    d, n = slice_of(c, s, c.old)
    s0 = fsize(c, f, c.old)
    return [('succeeds', s_ok(c, c.args[0].addr)), ('size grows by the data', fsize(c, f) == s0 + n)] + FI(c, c.st, f) + [
        ('bytes held before are unchanged', same_content(c, c.st, c.old, f, s0)),
        ('then the data', appended(c, c.st, c.old, f, s0, d, n)),
        ('the mutexes are as before', c.st.ghost['held'] == c.old.ghost['held'])]


def only_blocks_change(c):
    """bytes outside the file's blocks stay"""


class AppendLoop(Loop):
    """src/src_len: what is left of the data"""
    roles = {'src': 'ptr', 'left': 'i64'}
    fn = r'FileState::Append'

    def done(self, c):
        return c.e['left'] - c.v['left']

    def extra(self, c):
        return [('the rest of the data', z3.And(c.v['left'] >= 0, c.v['left'] <= c.ex.n0, c.e['left'] == c.ex.n0, c.e['src'].addr == c.ex.d0, c.v['src'].addr == c.ex.d0 + self.done(c)))]

    def inv(self, c):
        ex = c.ex
        f = c.args[1].addr
        k = self.done(c)
        s0 = fsize(c, f, c.old)
        return self.extra(c) + [
            ('size so far', fsize(c, f) == s0 + k), ('mutex held', held(c.st, f + off(ex, 'blocks_mutex_')))] + FI(c, c.st, f) + [
            ('blocks apart from the data', apart_blocks(c, c.st, f, ex.d0, ex.n0)),
            ('the data is unchanged', bytes_same(c, c.st, c.old, ex.d0, ex.n0)),
            ('bytes held before are unchanged', same_content(c, c.st, c.old, f, s0)),
            ('then the data so far', appended(c, c.st, c.old, f, s0, ex.d0, k))]

    def decreases(self, c):
        return c.ex.n0 - self.done(c)


class AppendLoopOff(AppendLoop):
    roles = {'k': 'i64'}

    def done(self, c):
        return c.v['k']

    def extra(self, c):
        return [('bytes done', z3.And(c.v['k'] >= 0, c.v['k'] <= c.ex.n0))]


# ------------------------------------------------------------ FileState::Read
def read_pre(c):
    ex = c.ex
    f, o, n, r, p = c.args[1].addr, c.args[2], c.args[3], c.args[4].addr, c.args[5].addr
    m = z3.If(n <= fsize(c, f) - o, n, fsize(c, f) - o)
    if not getattr(c, 'caller', False):
        ex.fvec = fvec(ex, f)
        ex.fwins_r, ex.fwins_w = [], [(p, n)]
        ex.objs = [(p, n), (f, FSIZE), (r, 16), (c.args[0].addr, 8)]
    return [('objects in memory', z3.And(in_mem(f), in_mem(r, 16), z3.Or(n == 0, z3.And(p > 0, p + n < HEAPMAX)))),
            ('separate objects', z3.And([z3.Or(a + k <= b, b + l <= a) for (a, k), (b, l) in
                                         itertools.combinations([(f, FSIZE), (r, 16), (c.args[0].addr, 8), (p, n)], 2)])),
            ('mutex free', z3.Not(held(c.st, f + off(ex, 'blocks_mutex_')))),
            ('the buffer is the caller\'s', apart_blocks(c, c.st, f, p, n))] + FI(c, c.st, f)


def read_post(c):
    ex = c.ex
    f, o, n, r, p = c.args[1].addr, c.args[2], c.args[3], c.args[4].addr, c.args[5].addr
    sz = fsize(c, f, c.old)
    m = z3.If(n <= sz - o, n, sz - o)
    rd, rn = slice_of(c, r)
    k = z3.Int('k!r')
    B1, B0 = mem8(ex, c.st), mem8(ex, c.old)
    e = VE(ex, c.old, fvec(ex, f))
    good = o <= sz
    # in the precise order used by the buffer: byte k of the buffer is byte o+k of the file
    return [('fails exactly when the offset is beyond the size', s_ok(c, c.args[0].addr) == good),
            ('delivers min(n, size - offset) bytes', z3.Implies(good, rn == m)),
            ('delivered in the caller\'s buffer', z3.Implies(z3.And(good, m > 0), rd == p)),
            ('exactly the bytes stored there', z3.Implies(good, z3.ForAll([k], z3.Implies(z3.And(o <= k, k < o + m), B1[p + (k - o)] == B0[cell(e, k)]), patterns=[QD(k)]))),
            ('nothing outside the buffer is written', z3.Implies(good, others_same(c, c.st, c.old, p, m))),
            ('the file is unchanged', z3.And(fsize(c, f) == sz, same_blocks(c, c.st, c.old, f))),
            ('the mutexes are as before', c.st.ghost['held'] == c.old.ghost['held'])] + [(l, g) for l, g in FI(c, c.st, f)]


class ReadLoop(Loop):
    """four moving parts: bytes left, destination, block, offset in the block"""
    roles = {'left': 'i64', 'dst': 'ptr', 'blk': 'i64', 'bo': 'i64'}
    fn = r'FileState::Read'

    def done(self, c):
        return c.e['left'] - c.v['left']

    def want(self, c):
        f, o, n = c.args[1].addr, c.args[2], c.args[3]
        sz = fsize(c, f, c.old)
        return z3.If(n <= sz - o, n, sz - o)

    def extra(self, c):
        o = c.args[2]
        k, l = self.done(c), c.v['left']
        return [('what is left', z3.And(l >= 0, c.e['left'] == self.want(c), l <= c.e['left'])),
                ('destination', c.v['dst'].addr == c.args[5].addr + k),
                ('position in the file', z3.And(c.v['bo'] >= 0, c.v['bo'] < B, c.v['blk'] >= 0, c.v['blk'] < (1 << 52), z3.Implies(l > 0, B * c.v['blk'] + c.v['bo'] == o + k)))]

    def inv(self, c):
        ex = c.ex
        f, o, n, p = c.args[1].addr, c.args[2], c.args[3], c.args[5].addr
        kk = self.done(c)
        k = z3.Int('k!r')
        B1, B0 = mem8(ex, c.st), mem8(ex, c.old)
        e = VE(ex, c.old, fvec(ex, f))
        return self.extra(c) + [
            ('the offset is inside the file', o <= fsize(c, f, c.old)),
            ('the file is unchanged', z3.And(fsize(c, f) == fsize(c, f, c.old), same_blocks(c, c.st, c.old, f))),
            ('mutex held', held(c.st, f + off(ex, 'blocks_mutex_'))),
            ('the bytes so far', z3.ForAll([k], z3.Implies(z3.And(o <= k, k < o + kk), B1[p + (k - o)] == B0[cell(e, k)]), patterns=[QD(k)])),
            ('nothing else is written', others_same(c, c.st, c.old, p, kk))]

    def decreases(self, c):
        return self.want(c) - self.done(c)


class ReadLoopOff(ReadLoop):
    roles = {'k': 'i64'}

    def done(self, c):
        return c.v['k']

    def extra(self, c):
        return [('bytes done', z3.And(c.v['k'] >= 0, c.v['k'] <= self.want(c)))]


import itertools


# ------------------------------------------------------------ FileState::Truncate
def trunc_pre(c):
    ex = c.ex
    f = c.args[0].addr
    if not getattr(c, 'caller', False):
        ex.fvec = fvec(ex, f)
        ex.fwins_r = ex.fwins_w = []
        ex.tn, ex.te = VN(ex, c.st, fvec(ex, f)), VE(ex, c.st, fvec(ex, f))
    return [('object in memory', in_mem(f)), ('mutex free', z3.Not(held(c.st, f + off(ex, 'blocks_mutex_'))))] + FI(c, c.st, f)


def freed(c, st, f, k):
    """exactly the first k blocks of the list at entry have been freed"""
    ex = c.ex
    x, i = z3.Ints('x!f i!f')
    n, e = ex.tn, ex.te
    lv0, lv = M.live(ex, c.old), named(ex, st, M.live(ex, st))
    return z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), lv[e[i]] == (i >= k)), patterns=[e[i]]),
                  z3.ForAll([x], z3.Implies(z3.And(lv[x] != lv0[x]), z3.And(lv0[x], z3.Exists([i], z3.And(0 <= i, i < k, e[i] == x)))), patterns=[lv[x]]))


class TruncLoop(Loop):
    fn = r'FileState::(Truncate|~FileState)'
    roles = {'p': 'ptr'}

    def pos(self, c):
        return (c.v['p'].addr - VD(c.ex, c.old, fvec(c.ex, c.args[0].addr))) / 8

    def extra(self, c):
        o = c.v['p'].addr - VD(c.ex, c.old, fvec(c.ex, c.args[0].addr))
        return [('iterator in range', z3.And(o >= 0, o <= 8 * c.ex.tn, o % 8 == 0))]

    def inv(self, c):
        ex = c.ex
        v = fvec(ex, c.args[0].addr)
        return self.extra(c) + [
            ('exactly the blocks before it are freed', freed(c, c.st, c.args[0].addr, self.pos(c))),
            ('mutex held', held(c.st, c.args[0].addr + off(ex, 'blocks_mutex_'))),
            ('the list is unchanged', z3.And(same_blocks(c, c.st, c.old, c.args[0].addr), VD(ex, c.st, v) == VD(ex, c.old, v)))]

    def decreases(self, c):
        return c.ex.tn - self.pos(c)


class TruncLoopIx(TruncLoop):
    roles = {'i': ('i64', 'i32')}

    def pos(self, c):
        return c.v['i']

    def extra(self, c):
        return [('index in range', z3.And(c.v['i'] >= 0, c.v['i'] <= c.ex.tn))]


class TruncLoopPop(Loop):
    """blocks freed from the end while the list shrinks"""
    fn = TruncLoop.fn

    def inv(self, c):
        ex = c.ex
        f = c.args[0].addr
        v = fvec(ex, f)
        n = VN(ex, c.st, v)
        x, i = z3.Ints('x!f i!f')
        lv0, lv, e = M.live(ex, c.old), named(ex, c.st, M.live(ex, c.st)), ex.te
        return [('the list shrinks', z3.And(n >= 0, n <= ex.tn)), ('the rest of the list is unchanged', VE(ex, c.st, v) == e),
                ('exactly the blocks no longer listed are freed', z3.And(
                    z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ex.tn), lv[e[i]] == (i < n)), patterns=[e[i]]),
                    z3.ForAll([x], z3.Implies(lv[x] != lv0[x], z3.And(lv0[x], z3.Exists([i], z3.And(n <= i, i < ex.tn, e[i] == x)))), patterns=[lv[x]]))),
                ('mutex held', held(c.st, f + off(ex, 'blocks_mutex_')))]

    def decreases(self, c):
        return VN(c.ex, c.st, fvec(c.ex, c.args[0].addr))


def trunc_post(c):
    f = c.args[0].addr
    return [('empty afterwards', z3.And(fsize(c, f) == 0, VN(c.ex, c.st, fvec(c.ex, f)) == 0)),
            ('exactly its blocks are freed', freed(c, c.st, f, c.ex.tn)),
            ('the mutexes are as before', c.st.ghost['held'] == c.old.ghost['held'])]


def trunc_mods(c):
    ex = c.ex
    f = c.args[0].addr
    return {('VN',): [(fvec(ex, f),)], ('LIVE',): None, ex.fkey(FS, 'size_'): [(f,)]}


# ------------------------------------------------------------ contracts at call sites
class ReadC(FnSpec):
    name = NSX + r'FileState::Read\('

    def pre(self, c):
        return read_pre(c)

    def post(self, c):
        return read_post(c)

    def modifies(self, c):
        return {('E', 'i8'): None, key(c.ex): [(c.args[0].addr,)], c.ex.fkey('Slice', 'data_'): [(c.args[4].addr,)], c.ex.fkey('Slice', 'size_'): [(c.args[4].addr,)]}


class AppendC(FnSpec):
    name = NSX + r'FileState::Append\('

    def pre(self, c):
        return append_pre(c)

    def post(self, c):
        return append_post(c)

    def modifies(self, c):
        f = c.args[1].addr
        M.ever(c.ex, c.st), M.live(c.ex, c.st), sval(c.ex, c.st), VI(c.ex, c.st, fvec(c.ex, f))
        m = fmods(c, f)
        m[key(c.ex)] = [(c.args[0].addr,)]
        return m

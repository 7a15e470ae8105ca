"""Arena: regions handed out are disjoint, inside owned blocks, aligned and accounted, and every block is freed exactly once.

Ghost state: regions 0..RN-1 handed out so far (address RA, size RS, owning block RB); per block obtained its size BS; the
vector's elements are the owned blocks.  SUM is the bytes obtained plus one pointer per block, HANDED the bytes handed out.
"""
from .vec_spec import *

TUS = ['arena', 'inline_inst']
DRIVER = {'src': 'arena.cc', 'sources': ['util/arena.cc']}
DRIVER_SECS = 20
TRUST = VEC_TRUST + ['operator new returns fresh memory aligned to 16 that overlaps no live block (ISO C++)']
ASSUME = ['requested sizes are between 1 and 2^46 and the arena obtains less than 2^46 bytes in all (a larger request cannot be met by the address space)',
          'one thread allocates at a time (the arena\'s documented use)']
AR = 'Arena'
LIM = 1 << 46


class St:
    """the ghost state at the start of the call under study"""


def gh(ex):
    if not hasattr(ex, 'gh'):
        g = ex.gh = St()
        g.RN = z3.Int('RN')
        for n in ('RA', 'RS', 'RB', 'BS'):
            setattr(g, n, z3.Const(n, ARR))
        g.SUM, g.HANDED = z3.Ints('SUM HANDED')
    return ex.gh


def vec(c):
    return c.args[0].addr + c.ex.fkey(AR, 'blocks_')[2]


def alloc_hook(ex, st, a, n):
    st.assume(a % 16 == 0, n >= 0, n < LIM, a + n < HEAPMAX, a > 0)
    v = ex.the_vec
    i = z3.Int('i!al')
    old_n, old_e, g = ex.vn0, ex.ve0, st.ghost
    # fresh memory: apart from every block owned so far
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < old_n), z3.Or(a + n <= old_e[i], old_e[i] + gh(ex).BS[old_e[i]] <= a)), patterns=[old_e[i]]))
    for b, k in st.aux.get('newblocks', ()):
        st.assume(z3.Or(a + n <= b, b + k <= a))
    # and from the arena object itself
    t = ex.root_args[0].addr
    st.assume(z3.Or(a + n <= t, t + 48 <= a))
    st.aux['newblocks'] = st.aux.get('newblocks', ()) + ((a, n),)
    g['BS'] = z3.Store(g['BS'], a, n)
    g['SUM'] = g['SUM'] + n + 8
    st.assume(g['SUM'] < LIM)


def named(ex, st, t):
    """a constant equal to the term (quantifier patterns may not contain conditionals)"""
    if z3.is_const(t):
        return t
    k = ex.fresh('nm', t.sort())
    st.assume(k == t)
    return k


def inv(c, st, R, bs, total, handed):
    """the arena's invariant over the ghost regions R = (n, addr, size, block)"""
    ex = c.ex
    t, v = c.args[0].addr, vec(c)
    n, e, vi, lv = (named(ex, st, x) for x in (VN(ex, st, v), VE(ex, st, v), VI(ex, st, v), M.live(ex, st)))
    bs = named(ex, st, bs)
    ap, rem = c.F(AR, 'alloc_ptr_', st)[t], c.F(AR, 'alloc_bytes_remaining_', st)[t]
    rn, ra, rs, rb = [named(ex, st, x) for x in R]
    i, j = z3.Ints('i!v j!v')

    def own(b):
        return z3.And(0 <= vi[b], vi[b] < n, e[vi[b]] == b)

    def fa(vs, hyp, con, pats):
        return z3.ForAll(vs, z3.Implies(hyp, con), patterns=pats)
    blk = z3.Function('free_block', Int, Int, Int)(ap, n)
    return [
        ('the blocks are live, apart and each listed once', z3.And(
            n >= 0, fa([i], z3.And(0 <= i, i < n), z3.And(lv[e[i]], vi[e[i]] == i, e[i] > 0, bs[e[i]] >= 0, e[i] + bs[e[i]] < HEAPMAX), [e[i]]))),
        ('blocks do not overlap', fa([i, j], z3.And(0 <= i, i < n, 0 <= j, j < n, i != j), z3.Or(e[i] + bs[e[i]] <= e[j], e[j] + bs[e[j]] <= e[i]),
                                     [z3.MultiPattern(e[i], e[j])])),
        ('every region handed out lies inside an owned block', fa([i], z3.And(0 <= i, i < rn), z3.And(
            rs[i] > 0, own(rb[i]), rb[i] <= ra[i], ra[i] + rs[i] <= rb[i] + bs[rb[i]]), [ra[i]])),
        ('regions handed out do not overlap', fa([i, j], z3.And(0 <= i, i < rn, 0 <= j, j < rn, i != j), z3.Or(ra[i] + rs[i] <= ra[j], ra[j] + rs[j] <= ra[i]),
                                                 [z3.MultiPattern(ra[i], ra[j])])),
        ('the free range lies inside an owned block', z3.And(rem >= 0, z3.Implies(rem > 0, free_in(n, e, bs, ap, rem)))),
        ('the free range overlaps no region handed out', z3.Implies(rem > 0, fa([i], z3.And(0 <= i, i < rn), z3.Or(ra[i] + rs[i] <= ap, ap + rem <= ra[i]), [ra[i]]))),
        ('memory usage is the sum over the blocks of size plus one pointer', z3.And(c.F(AR, 'memory_usage_', st)[t] == total, total >= 0, total < LIM)),
        ('memory usage covers everything handed out', z3.And(handed >= 0, rn >= 0, handed + rem <= total))]


def free_in(n, e, bs, ap, rem):
    i = z3.Int('i!fr')
    return z3.Exists([i], z3.And(0 <= i, i < n, e[i] <= ap, ap + rem <= e[i] + bs[e[i]]))


def bind(c):
    """entry values the allocator's hook refers to"""
    ex = c.ex
    v = vec(c)
    ex.the_vec, ex.vn0, ex.ve0 = v, VN(ex, c.st, v), VE(ex, c.st, v)
    VI(ex, c.st, v)
    known(ex, c.st, v)


def cfg(ex, st):
    vec_config(ex)
    ex.alloc_hook = alloc_hook
    g = gh(ex)
    st.ghost['BS'], st.ghost['SUM'] = g.BS, g.SUM


def pre(c):
    g = gh(c.ex)
    bind(c)
    t = c.args[0].addr
    r = [('object in memory', z3.And(t > 0, t + 48 < HEAPMAX))]
    r += inv(c, c.st, (g.RN, g.RA, g.RS, g.RB), g.BS, g.SUM, g.HANDED)
    return r + [('sensible size', z3.And(c.args[1] > 0, c.args[1] < LIM))]


def owner(c, r, k):
    """the owned block the region is claimed to lie in"""
    nb = c.st.aux.get('newblocks', ())
    ex = c.ex
    # the free range's block at entry, or the block obtained last
    i0 = z3.Int('owner0')
    b0 = ex.ve0[i0]
    b = b0
    for a, n in nb:
        b = z3.If(z3.And(a <= r, r + k <= a + n), a, b)
    return b, i0


def alloc_post(aligned):
    def post(c):
        ex, st = c.ex, c.st
        g = gh(ex)
        r, k = c.ret.addr, c.args[1]
        t = c.args[0].addr
        b, i0 = owner(c, r, k)
        # name the block that holds the free range at entry (exists by the invariant)
        ap, rem = c.F(AR, 'alloc_ptr_', c.old)[t], c.F(AR, 'alloc_bytes_remaining_', c.old)[t]
        st.assume(z3.Implies(rem > 0, z3.And(0 <= i0, i0 < ex.vn0, ex.ve0[i0] <= ap, ap + rem <= ex.ve0[i0] + g.BS[ex.ve0[i0]])))
        R = (g.RN + 1, z3.Store(g.RA, g.RN, r), z3.Store(g.RS, g.RN, k), z3.Store(g.RB, g.RN, b))
        x = z3.Int('x!l')
        lv0, lv = M.live(ex, c.old), named(ex, st, M.live(ex, st))
        out = inv(c, st, R, st.ghost['BS'], st.ghost['SUM'], g.HANDED + k)
        out += [('no block is freed', z3.ForAll([x], z3.Implies(lv0[x], lv[x]), patterns=[lv0[x]])),
                ('every block obtained is recorded', z3.And([z3.And(0 <= VI(ex, st, vec(c))[a], VI(ex, st, vec(c))[a] < VN(ex, st, vec(c)),
                                                                    VE(ex, st, vec(c))[VI(ex, st, vec(c))[a]] == a) for a, n in st.aux.get('newblocks', ())] or [z3.BoolVal(True)])),
                ('recorded blocks stay recorded', z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < ex.vn0), z3.And(x < VN(ex, st, vec(c)), VE(ex, st, vec(c))[x] == ex.ve0[x])),
                                                            patterns=[ex.ve0[x]]))]
        if aligned:
            out.append(('the region is aligned to 8 bytes', r % 8 == 0))
        return out
    return post


def mods(c):
    ex = c.ex
    t = c.args[0].addr
    m = vmods(c, vec(c))
    for f in ('alloc_ptr_', 'alloc_bytes_remaining_', 'memory_usage_'):
        m[ex.fkey(AR, f)] = [(t,)]
    return m


def ctor_post(c):
    e = z3.K(Int, z3.IntVal(0))
    return inv(c, c.st, (z3.IntVal(0), e, e, e), e, z3.IntVal(0), z3.IntVal(0))


def dtor_pre(c):
    return [x for x in pre2(c)]


def pre2(c):
    g = gh(c.ex)
    bind(c)
    t = c.args[0].addr
    return [('object in memory', z3.And(t > 0, t + 48 < HEAPMAX))] + inv(c, c.st, (g.RN, g.RA, g.RS, g.RB), g.BS, g.SUM, g.HANDED)


def freed(c, st, k):
    """exactly the first k blocks have been freed"""
    ex = c.ex
    n, e, vi = ex.vn0, ex.ve0, VI(ex, c.old, ex.the_vec)
    lv0, lv = M.live(ex, c.old), M.live(ex, st)
    x = z3.Int('x!f')
    lv = named(ex, st, lv)
    return z3.ForAll([x], lv[x] == z3.And(lv0[x], z3.Not(z3.And(0 <= vi[x], vi[x] < k, e[vi[x]] == x))), patterns=[lv[x], lv0[x]])


def same_vec(c):
    ex = c.ex
    return z3.And(VN(ex, c.st, ex.the_vec) == ex.vn0, VE(ex, c.st, ex.the_vec) == ex.ve0, VD(ex, c.st, ex.the_vec) == VD(ex, c.old, ex.the_vec))


class FreeLoop(Loop):
    roles = {'i': ('i64', 'i32')}

    def inv(self, c):
        k = c.v['i']
        return [('index in range', z3.And(k >= 0, k <= c.ex.vn0)), ('exactly the blocks before it are freed', freed(c, c.st, k)), ('the list of blocks is unchanged', same_vec(c))]

    def decreases(self, c):
        return c.ex.vn0 - c.v['i']


class FreeLoopIt(Loop):
    roles = {'p': 'ptr'}

    def inv(self, c):
        d = VD(c.ex, c.old, c.ex.the_vec)
        o = c.v['p'].addr - d
        return [('iterator in range', z3.And(o >= 0, o <= 8 * c.ex.vn0, o % 8 == 0)), ('exactly the blocks before it are freed', freed(c, c.st, o / 8)),
                ('the list of blocks is unchanged', same_vec(c))]

    def decreases(self, c):
        return VD(c.ex, c.old, c.ex.the_vec) + 8 * c.ex.vn0 - c.v['p'].addr


def dtor_post(c):
    return [('exactly the owned blocks are freed', freed(c, c.st, c.ex.vn0))]


def usage_post(c):
    return [('the recorded total', c.ret == c.F(AR, 'memory_usage_')[c.args[0].addr])]


def tasks(prog):
    kw = dict(models=VEC_MODELS, config=cfg)
    return [
        simple('Allocate', r'^lsmdb::Arena::Allocate\(', pre, alloc_post(False), mods, **kw),
        simple('AllocateAligned', r'^lsmdb::Arena::AllocateAligned\(', pre, alloc_post(True), mods, **kw),
        simple('Arena()', r'^lsmdb::Arena::Arena\(\)', lambda c: [('object in memory', z3.And(c.args[0].addr > 0, c.args[0].addr + 48 < HEAPMAX))], ctor_post, None, no_frame=True, **kw),
        simple('~Arena', r'^lsmdb::Arena::~Arena\(\)', pre2, dtor_post, lambda c: {('LIVE',): None, ('VN',): None}, loops=[FreeLoop, FreeLoopIt], **kw),
        simple('MemoryUsage', r'^lsmdb::Arena::MemoryUsage\(\) const', None, usage_post, None)]

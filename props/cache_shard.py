"""One shard of the cache: lists, reference counts, capacity and deleters (C12, C13, C14).

A shard's operation holds its mutex throughout (C15), so it is specified as one step from the invariant to the invariant.
The module at hand (`ex.part`) adds its own postconditions and obligations: 'map' (C12), 'ref' (C13), 'lru' (C14).
"""
from .cache_table import *

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
SUM = z3.Function('sum_of_charges', SETS, INTS, Int)


class Sh:
    """the state of the shard at address s"""

    def __init__(self, ex, st, s, into=None):
        n = lambda x: named(ex, into or st, x)
        self.ex, self.s = ex, s
        self.dL, self.dU, self.tt = s + off(ex, LC, 'lru_'), s + off(ex, LC, 'in_use_'), s + off(ex, LC, 'table_')
        self.usage, self.cap = fld(ex, st, LC, 'usage_')[s], fld(ex, st, LC, 'capacity_')[s]
        self.T, self.EXT, self.OBJ, self.POS = n(T(ex, st)), n(EXT(ex, st)), n(OBJ(ex, st)), n(POS(ex, st))
        self.DEL, self.ST, self.NOW = n(DEL(ex, st)), n(ST(ex, st)), NOW(ex, st)
        f = lambda k: n(fld(ex, st, LH, k))
        self.nx, self.pv, self.refs, self.inc, self.charge = f('next'), f('prev'), f('refs'), f('in_cache'), f('charge')
        self.kd, self.kl, self.h, self.value = f('key_data'), f('key_length'), f('hash'), f('value')
        self.fn = n(funs(ex, st))
        self.B = n(ex.region(st, ('E', 'i8')))
        self.live = n(M.live(ex, st))
        self.tab = fld(ex, st, HT, 'table_')[self.tt]

    def d(self, e):
        return z3.If(self.EXT[e] > 0, self.dU, self.dL)

    def L(self, e):
        return z3.And(self.T[e], self.EXT[e] == 0)

    def K(self, e):
        return KB(self.B, self.kd[e], self.kl[e])


def shard_axioms(ex):
    A = z3.Const('s!z', SETS)
    C = z3.Const('c!z', INTS)
    e, v = z3.Ints('e!z v!z')
    pos = lambda t: z3.If(t < 0, 0, t)      # SUM(A, C): the sum of the non-negative C[e] over a finite set A
    return [z3.ForAll([A, C, e], z3.And(SUM(z3.Store(A, e, TRUE), C) == SUM(A, C) + z3.If(A[e], 0, pos(C[e])), SUM(z3.Store(A, e, FALSE), C) == SUM(A, C) - z3.If(A[e], pos(C[e]), 0)),
                      patterns=[SUM(z3.Store(A, e, TRUE), C), SUM(z3.Store(A, e, FALSE), C)]),
            z3.ForAll([A, C, e], z3.Implies(z3.And(FIN(A), A[e]), SUM(A, C) >= pos(C[e])), patterns=[z3.MultiPattern(SUM(A, C), A[e])]),
            z3.ForAll([A, C, e, v], z3.Implies(z3.Not(A[e]), SUM(A, z3.Store(C, e, v)) == SUM(A, C)), patterns=[SUM(A, z3.Store(C, e, v))])]


def fa(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=list(pats))


def objects(x):
    """entries in memory: in the cache or held by a client, with matching counts"""
    ex = x.ex
    e, f = z3.Ints('e!s f!s')
    sz = sizeof(ex, LC)
    mp = z3.MultiPattern
    return [
        ('an entry exists while it is in the cache or held', fa([e], x.OBJ[e] == z3.Or(x.T[e], x.EXT[e] > 0), x.OBJ[e], x.T[e], x.EXT[e])),
        ('handles are counted', fa([e], z3.And(x.EXT[e] >= 0, z3.Implies(x.OBJ[e], x.refs[e] == x.EXT[e] + z3.If(x.T[e], 1, 0))), x.refs[e], x.EXT[e])),
        ('entries know whether they are in the cache', fa([e], z3.Implies(x.OBJ[e], x.inc[e] == z3.If(x.T[e], 1, 0)), x.inc[e])),
        ('entries lie in memory outside the shard', fa([e], z3.Implies(x.OBJ[e], z3.And(e > 0, e + hsize(ex) < HEAPMAX, z3.Or(e + hsize(ex) <= x.s, x.s + sz <= e), x.nx[e] != e)), x.OBJ[e])),
        ('entries and their keys are allocated', fa([e], z3.Implies(x.OBJ[e], z3.And(x.live[e], x.kd[e] > 0, x.live[x.kd[e]], x.kd[e] + x.kl[e] < HEAPMAX, x.kd[e] != x.tab, e != x.tab)), x.OBJ[e])),
        ('entries, keys and buckets are different blocks', z3.And(x.live[x.tab], fa([e, f], z3.Implies(z3.And(x.OBJ[e], x.OBJ[f]), z3.And(x.kd[e] != f, z3.Implies(x.kd[e] == x.kd[f], e == f))), mp(x.OBJ[e], x.OBJ[f])))),
        ('list heads own no key', z3.And(x.kd[x.dL] == 0, x.kd[x.dU] == 0)),
        ('a deleter that ran belongs to no entry', fa([e], z3.Implies(x.OBJ[e], z3.Not(x.DEL[e])), x.DEL[e]))]


def lists(x):
    ex = x.ex
    e, f = z3.Ints('e!s f!s')
    mp = z3.MultiPattern
    same = lambda a, b: (x.EXT[a] > 0) == (x.EXT[b] > 0)
    out = [
        ('next is in the same list, further on', fa([e], z3.Implies(x.T[e], z3.Or(x.nx[e] == x.d(e), z3.And(x.T[x.nx[e]], same(e, x.nx[e]), x.POS[x.nx[e]] > x.POS[e]))), x.nx[e])),
        ('prev is in the same list, before', fa([e], z3.Implies(x.T[e], z3.Or(x.pv[e] == x.d(e), z3.And(x.T[x.pv[e]], same(e, x.pv[e]), x.POS[x.pv[e]] < x.POS[e]))), x.pv[e])),
        ('prev of next', fa([e], z3.Implies(x.T[e], x.pv[x.nx[e]] == e), mp(x.T[e], x.nx[e]))),
        ('next of prev', fa([e], z3.Implies(x.T[e], x.nx[x.pv[e]] == e), mp(x.T[e], x.pv[e]))),
        ('first and last unreferenced entries', z3.And([z3.Or(p == x.dL, x.L(p)) for p in (x.nx[x.dL], x.pv[x.dL])] + [x.pv[x.nx[x.dL]] == x.dL, x.nx[x.pv[x.dL]] == x.dL])),
        ('first and last used entries', z3.And([z3.Or(p == x.dU, z3.And(x.T[p], x.EXT[p] > 0)) for p in (x.nx[x.dU], x.pv[x.dU])] + [x.pv[x.nx[x.dU]] == x.dU, x.nx[x.pv[x.dU]] == x.dU])),
        ('the list of unreferenced entries starts with the first one', fa([e], z3.Implies(x.L(e), z3.And(x.nx[x.dL] != x.dL, x.POS[x.nx[x.dL]] <= x.POS[e])), x.T[e])),
        ('the list of unreferenced entries ends with the last one', fa([e], z3.Implies(x.L(e), z3.And(x.pv[x.dL] != x.dL, x.POS[x.pv[x.dL]] >= x.POS[e])), x.T[e])),
        ('the list of unreferenced entries skips none', fa([e, f], z3.Implies(z3.And(x.L(e), x.L(f), x.POS[f] > x.POS[e]), z3.And(x.nx[e] != x.dL, x.POS[x.nx[e]] <= x.POS[f])), mp(x.nx[e], x.T[f]))),
        ('unreferenced entries have places of their own', fa([e, f], z3.Implies(z3.And(x.L(e), x.L(f), x.POS[e] == x.POS[f]), e == f), mp(x.T[e], x.T[f])))]
    return out


def age(x):
    """C14: the list of unreferenced entries is in order of their last release; usage is the sum of the charges"""
    e, f = z3.Ints('e!s f!s')
    return [('unreferenced entries are ordered by age', fa([e, f], z3.Implies(z3.And(x.L(e), x.L(f), x.POS[e] < x.POS[f]), x.ST[e] < x.ST[f]), z3.MultiPattern(x.T[e], x.T[f]))),
            ('ages lie in the past', fa([e], z3.Implies(x.L(e), x.ST[e] < x.NOW), x.ST[e])),
            ('usage is the sum of the charges', z3.And(x.usage == SUM(x.T, x.charge), fa([e], z3.Implies(x.T[e], x.charge[e] >= 0), x.charge[e])))]


def SI(ex, st, s, x=None):
    x = x or Sh(ex, st, s)
    out = [('the shard lies in memory', z3.And(s > 0, s + sizeof(ex, LC) < HEAPMAX))] + TI(ex, st, x.tt, linked=False) + objects(x) + lists(x)
    if ex.part == 'lru':
        out += age(x)
    return out


def shard_cfg(part):
    def cfg(ex, st):
        setup_engine(ex, st)
        ex.axioms += shard_axioms(ex)
        ex.part = part
        ex.on_delete = on_delete
        ex.free_hook = on_free
        ex.alloc_hook = on_alloc
        ex.on_remove = on_remove
        ex.on_copy = on_copy
        if part == 'ref':
            ex.access_hook = entries_only
    return cfg


def shard_of(ex):
    return ex.root_args[0].addr


def on_remove(ex, st, old, o):
    h = getattr(ex, 'evicting', None)
    if h:
        h(st, old, o)


def on_delete(ex, st, a, ins):
    """the deleter of an entry is called"""
    e = named(ex, st, a[0].addr - off(ex, LH, 'deleter'))
    x = Sh(ex, st, shard_of(ex))
    if ex.part == 'ref':
        k = slice_key(ex, st, a[1].addr)
        lab = 'a deleter runs once its entry has left the cache and no handle is left'
        ex.oblige(st, lab + ': of an existing entry, for the first time', z3.And(x.OBJ[e], z3.Not(x.DEL[e])), ins.line)
        ex.oblige(st, lab + ': out of the cache', z3.Not(x.T[e]), ins.line)
        ex.oblige(st, lab + ': not held', x.EXT[e] == 0, ins.line)
        ex.oblige(st, 'a deleter gets its entry\'s key and value', z3.And(k == x.K(e), a[2].addr == x.value[e]), ins.line)
    put(ex, st, 'DEL', z3.Store(DEL(ex, st), e, TRUE))


def on_free(ex, st, p, ins):
    x = OBJ(ex, st)
    e = p.addr
    if ex.part == 'ref':
        ex.oblige(st, 'an entry is destroyed after its deleter ran', z3.Implies(x[e], DEL(ex, st)[e]), ins.line)
    put(ex, st, 'OBJ', z3.Store(x, e, FALSE))


def on_alloc(ex, st, a, n):
    e = z3.Int('e!a')
    s = shard_of(ex)
    o, kd, kl = named(ex, st, OBJ(ex, st)), named(ex, st, fld(ex, st, LH, 'key_data')), named(ex, st, fld(ex, st, LH, 'key_length'))
    apart = lambda lo, k: z3.Or(a + n <= lo, lo + k <= a)
    st.assume(a + n < HEAPMAX, apart(s, sizeof(ex, LC)))
    tb, ln = (fld(ex, st, HT, f)[s + off(ex, LC, 'table_')] for f in ('table_', 'length_'))
    st.assume(apart(tb, 8 * ln), z3.ForAll([e], z3.Implies(o[e], z3.And(apart(e, hsize(ex)), apart(kd[e], kl[e]))), patterns=[o[e]]))
    for lo, k in ex.caller_blocks(st):
        st.assume(apart(lo, k))
    if is_num(n) and num(n) == hsize(ex):
        put(ex, st, 'OBJ', z3.Store(o, a, TRUE))
        put(ex, st, 'DEL', z3.Store(DEL(ex, st), a, FALSE))
        put(ex, st, 'EXT', z3.Store(EXT(ex, st), a, z3.IntVal(1)))
        st.aux['new'] = a


def on_copy(ex, st, B0, B1, ins):
    """lemma: copying a key into its own block leaves the keys of the entries in the cache alone"""
    o, t, kd, kl = (named(ex, st, a) for a in (OBJ(ex, st), T(ex, st), fld(ex, st, LH, 'key_data'), fld(ex, st, LH, 'key_length')))
    e = z3.Int('e!c')
    new = st.aux.get('new', z3.IntVal(0))
    mine = (lambda e: z3.And(o[e], e != new)) if ex.part == 'ref' else (lambda e: t[e])
    g = lambda pats: z3.ForAll([e], z3.Implies(mine(e), KB(B1, kd[e], kl[e]) == KB(B0, kd[e], kl[e])), patterns=pats)
    pats = [o[e]] if ex.part == 'ref' else [t[e]]
    ex.oblige(st, 'the keys of other entries are untouched', g(pats), ins.line)
    st.assume(g(pats))


def entries_only(ex, s, rw, p, key, idx, ty, line, v=None):
    if key[0] == 'F' and key[1] == LH and not is_stack(idx[0]):
        x = Sh(ex, s, shard_of(ex))
        ex.oblige(s, 'only existing entries are accessed', z3.Or(x.OBJ[idx[0]], idx[0] == x.dL, idx[0] == x.dU), line, 'safety')


def place(ex, st, e):
    """ghost step: the place of e in its list follows from its neighbours"""
    x = Sh(ex, st, shard_of(ex))
    p, n, d = x.pv[e], x.nx[e], x.d(e)
    one = z3.RealVal(1)
    v = z3.If(p == d, z3.If(n == d, z3.RealVal(0), x.POS[n] - one), z3.If(n == d, x.POS[p] + one, (x.POS[p] + x.POS[n]) / 2))
    put(ex, st, 'POS', z3.If(x.T[e], z3.Store(x.POS, e, named(ex, st, v)), x.POS))


def unchanged(x0, x, keep):
    """entries that exist before and after keep their key, value, charge and deleter"""
    e = z3.Int('e!u')
    o = off(x.ex, LH, 'deleter')
    pats = [x.T[e]] if x.ex.part != 'ref' else [x.OBJ[e]]
    return fa([e], z3.Implies(keep(e), z3.And(x.value[e] == x0.value[e], x.charge[e] == x0.charge[e], x.h[e] == x0.h[e], x.K(e) == x0.K(e), x.fn[e + o] == x0.fn[e + o])), *pats)


def lifetimes(x0, x):
    """C13: what happens to entries across an operation"""
    e = z3.Int('e!r')
    both = lambda e: z3.And(x0.OBJ[e], x.OBJ[e])
    return [('entries still referenced keep their key, value and deleter', unchanged(x0, x, both)),
            ('entries gone were deleted and their memory released', fa([e], z3.Implies(z3.And(x0.OBJ[e], z3.Not(x.OBJ[e])), z3.And(x.DEL[e], z3.Not(x.live[e]), z3.Not(x.live[x0.kd[e]]))), x0.OBJ[e], x.OBJ[e]))]


class ShardOp(FnSpec):
    no_frame = True

    def pre(self, c):
        c.ex.caller_blocks = lambda st: []
        return SI(c.ex, c.st, c.args[0].addr)

    def end(self, c):
        """ghost steps at the end"""

    def at_exit(self, c):
        self.end(c)

    def more(self, c, x0, x):
        return []

    def post(self, c):
        ex = c.ex
        s = c.args[0].addr
        x0, x = Sh(ex, c.old, s, c.st), Sh(ex, c.st, s)
        out = self.more(c, x0, x)
        if ex.part == 'ref':
            out += lifetimes(x0, x)
        return out + SI(ex, c.st, s, x)


def bump(ex, st, e, by):
    put(ex, st, 'EXT', z3.Store(EXT(ex, st), e, EXT(ex, st)[e] + by))


class LookupOp(ShardOp):
    name = '^' + NSX + r'LRUCache::Lookup\('

    def pre(self, c):
        e = z3.Int('e!h')
        x = EXT(c.ex, c.st)
        return ShardOp.pre(self, c) + [('fewer than 2^32 - 2 handles on an entry', fa([e], x[e] < (1 << 32) - 2, x[e]))]

    def end(self, c):
        ex, st = c.ex, c.st
        e = c.ret.addr
        x0 = named(ex, st, EXT(ex, st))
        put(ex, st, 'EXT', z3.If(e == 0, x0, z3.Store(x0, e, x0[e] + 1)))
        place(ex, st, e)

    def more(self, c, x0, x):
        ex = c.ex
        e = c.ret.addr
        f = z3.Int('f!h')
        out = []
        if ex.part == 'map':
            key, h = named(ex, c.st, slice_key(ex, c.old, c.args[1].addr)), c.args[2]
            out += [('returns the entry with that key', z3.Implies(e != 0, z3.And(x0.T[e], x0.h[e] == h, x0.K(e) == key))),
                    ('null means there is none', z3.Implies(e == 0, fa([f], z3.Not(z3.And(x0.T[f], x0.h[f] == h, x0.K(f) == key)), x0.T[f]))),
                    ('the cache holds the same entries', x.T == x0.T), ('entries are unchanged', unchanged(x0, x, lambda e: x.T[e]))]
        if ex.part == 'ref':
            out += [('the caller gets a handle', x.EXT == z3.If(e == 0, x0.EXT, z3.Store(x0.EXT, e, x0.EXT[e] + 1)))]
        return out


class ReleaseOp(ShardOp):
    name = '^' + NSX + r'LRUCache::Release\('

    def pre(self, c):
        ex, st = c.ex, c.st
        e = c.args[1].addr
        return ShardOp.pre(self, c) + [('a handle that is held', z3.And(OBJ(ex, st)[e], EXT(ex, st)[e] > 0))]

    def setup(self, c):
        ex, st = c.ex, c.st
        e = c.args[1].addr
        ex.before = st.fork()
        bump(ex, st, e, -1)

    def end(self, c):
        ex, st = c.ex, c.st
        e = c.args[1].addr
        place(ex, st, e)
        if ex.part == 'lru':
            now = NOW(ex, st)
            put(ex, st, 'ST', z3.If(z3.And(T(ex, st)[e], EXT(ex, st)[e] == 0), z3.Store(ST(ex, st), e, now), ST(ex, st)))
            put(ex, st, 'NOW', now + 1)

    def more(self, c, x0, x):
        ex = c.ex
        e = c.args[1].addr
        out = []
        if ex.part == 'map':
            out += [('the cache holds the same entries', x.T == x0.T), ('entries are unchanged', unchanged(x0, x, lambda e: x.T[e]))]
        if ex.part == 'ref':
            out += [('the last reference destroys the entry', x.OBJ[e] == z3.Or(x.T[e], x.EXT[e] > 0))]
        return out


def gone(ex, st):
    """what has left the cache since the state st.aux['base']"""


class EvictLoop(Loop):
    roles = {}
    header_on_entry = True
    fn = r'LRUCache::(Insert|Prune)\('

    def at_header(self, c):
        if c.phase == 'entry':
            if 'inserted' in c.st.aux:
                place(c.ex, c.st, c.st.aux['inserted'])

    def inv(self, c):
        ex, st = c.ex, c.st
        s = shard_of(ex)
        x, x0 = Sh(ex, st, s), Sh(ex, c.entry, s, st)
        e, f = z3.Ints('e!v f!v')
        out = SI(ex, st, s, x) + [
            ('only unreferenced entries leave the cache', fa([e], z3.And(z3.Implies(x.T[e], x0.T[e]), z3.Implies(z3.And(x0.T[e], x.EXT[e] > 0), x.T[e])), x.T[e], x0.T[e])),
            ('handles are untouched', x.EXT == x0.EXT)]
        if ex.part == 'ref':
            out += lifetimes(x0, x) + [('what is gone stays gone', fa([e], z3.And(z3.Implies(x0.DEL[e], x.DEL[e]), z3.Implies(x.live[e], x0.live[e]), z3.Implies(x.OBJ[e], x0.OBJ[e])), x.DEL[e], x0.DEL[e], x.live[e], x.OBJ[e]))]
        if ex.part == 'lru':
            out += [('the oldest leave first', fa([e, f], z3.Implies(z3.And(x0.T[e], z3.Not(x.T[e]), x.L(f)), x0.ST[e] < x0.ST[f]), z3.MultiPattern(x0.T[e], x.T[f]))), ('ages are untouched', x.ST == x0.ST)]
        return out

    def decreases(self, c):
        ex = c.ex
        return fld(ex, c.st, HT, 'elems_')[shard_of(ex) + off(ex, LC, 'table_')]


class InsertOp(ShardOp):
    name = '^' + NSX + r'LRUCache::Insert\('

    def pre(self, c):
        ex, st = c.ex, c.st
        s = c.args[0].addr
        out = ShardOp.pre(self, c)
        kd, kl = slice_of(c, c.args[1].addr)
        ex.caller_blocks = lambda st_: [(kd, kl), (c.args[1].addr, 16), (c.args[5].addr, 32)]
        x = Sh(ex, st, s)
        out += [('the key is in memory', sane(kd, kl)), ('fewer than 2^30 entries in a shard', fld(ex, st, HT, 'elems_')[x.tt] + 1 < MAXN)]
        if ex.part == 'lru':
            out.append(('charges add up to less than 2^64', SUM(x.T, x.charge) + c.args[4] < (1 << 64)))
        return out

    def setup(self, c):
        ex = c.ex
        if ex.part == 'lru':
            def ev(st, old, o):
                s = shard_of(ex)
                x = Sh(ex, old, s, st)
                ex.oblige(st, 'entries are evicted only while over capacity', SUM(x.T, x.charge) > x.cap)
            ex.evicting = ev

    def more(self, c, x0, x):
        ex, st = c.ex, c.st
        n = c.ret.addr
        f = z3.Int('f!h')
        key = named(ex, st, slice_key(ex, c.old, c.args[1].addr))
        h, val, ch, fn = c.args[2], c.args[3].addr, c.args[4], ex.select(funs(ex, c.old), c.args[5].addr)
        same = lambda e: z3.And(x0.T[e], x0.h[e] == h, x0.K(e) == key)
        out = []
        if ex.part == 'map':
            out += [('returns a new entry', z3.And(n != 0, z3.Not(x0.OBJ[n]))), ('with the given key', z3.And(x.h[n] == h, x.K(n) == key)), ('with the given value and charge', z3.And(x.value[n] == val, x.charge[n] == ch)), ('with the given deleter', x.fn[n + off(ex, LH, 'deleter')] == fn),
                    ('the new entry is in the cache unless it is switched off', x.T[n] == (x.cap > 0)),
                    ('an entry with that key is replaced', z3.Implies(x.cap > 0, fa([f], z3.Implies(same(f), z3.Not(x.T[f])), x0.T[f]))),
                    ('other entries stay or are evicted unreferenced', fa([f], z3.And(z3.Implies(z3.And(x.T[f], f != n), x0.T[f]), z3.Implies(z3.And(x0.T[f], x0.EXT[f] > 0, z3.Or(z3.Not(same(f)), x.cap == 0)), x.T[f])), x.T[f], x0.T[f])),
                    ('entries are unchanged', unchanged(x0, x, lambda e: z3.And(x.T[e], e != n)))]
        if ex.part == 'ref':
            out += [('the caller gets the only handle on the new entry', z3.And(z3.Not(x0.OBJ[n]), x.EXT == z3.Store(x0.EXT, n, z3.IntVal(1))))]
        if ex.part == 'lru':
            g = z3.Int('g!h')
            out += [('within capacity unless every entry is in use', z3.Or(SUM(x.T, x.charge) <= x.cap, fa([f], z3.Not(x.L(f)), x.T[f]))),
                    ('evicted entries were unreferenced and older than those that stay', fa([f, g], z3.Implies(z3.And(x0.T[f], z3.Not(x.T[f]), z3.Not(same(f))), z3.And(x0.EXT[f] == 0, z3.Implies(x.L(g), x0.ST[f] < x.ST[g]))), z3.MultiPattern(x0.T[f], x.T[g])))]
        return out


class EraseOp(ShardOp):
    name = '^' + NSX + r'LRUCache::Erase\('

    def more(self, c, x0, x):
        ex, st = c.ex, c.st
        f = z3.Int('f!h')
        key, h = named(ex, st, slice_key(ex, c.old, c.args[1].addr)), c.args[2]
        same = lambda e: z3.And(x0.T[e], x0.h[e] == h, x0.K(e) == key)
        out = []
        if ex.part == 'map':
            out += [('exactly the entry with that key leaves the cache', fa([f], x.T[f] == z3.And(x0.T[f], z3.Not(same(f))), x.T[f], x0.T[f])), ('entries are unchanged', unchanged(x0, x, lambda e: x.T[e]))]
        if ex.part in ('ref', 'lru'):
            out += [('handles are untouched', x.EXT == x0.EXT)]
        return out


class PruneOp(ShardOp):
    name = '^' + NSX + r'LRUCache::Prune\('

    def more(self, c, x0, x):
        ex, st = c.ex, c.st
        f = z3.Int('f!h')
        out = [('exactly the unreferenced entries leave the cache', fa([f], x.T[f] == z3.And(x0.T[f], x0.EXT[f] > 0), x.T[f], x0.T[f])), ('handles are untouched', x.EXT == x0.EXT)]
        if ex.part == 'map':
            out += [('entries are unchanged', unchanged(x0, x, lambda e: x.T[e]))]
        return out


class ChargeOp(ShardOp):
    name = '^' + NSX + r'LRUCache::TotalCharge\('

    def more(self, c, x0, x):
        return [('the sum of the charges', c.ret == SUM(x0.T, x0.charge)), ('nothing changes', z3.And(x.T == x0.T, x.EXT == x0.EXT))] if c.ex.part == 'lru' else []


# ------------------------------------------------------------ life and death of a shard
class CtorOp(FnSpec):
    name = '^' + NSX + r'LRUCache::LRUCache\('
    no_frame = True

    def pre(self, c):
        ex, st = c.ex, c.st
        s = c.args[0].addr
        ex.caller_blocks = lambda st_: []
        empty = z3.K(Int, FALSE)
        C = z3.Const('c!z', INTS)
        return [('the shard lies in memory', z3.And(s > 0, s + sizeof(ex, LC) < HEAPMAX)), ('no entries yet', z3.And(T(ex, st) == empty, OBJ(ex, st) == empty, EXT(ex, st) == z3.K(Int, z3.IntVal(0)), TOP(ex, st) == 0)),
                ('the empty set', z3.And(CARD(empty) == 0, FIN(empty), z3.ForAll([C], SUM(empty, C) == 0, patterns=[SUM(empty, C)])))]

    def post(self, c):
        ex, st = c.ex, c.st
        s = c.args[0].addr
        x = Sh(ex, st, s)
        return [('the cache starts out empty', x.T == z3.K(Int, FALSE)), ('it starts out unused', x.usage == 0)] + SI(ex, st, s, x)


class DtorLoop(Loop):
    roles = {'e': 'ptr'}
    fn = r'LRUCache::~LRUCache\('

    def inv(self, c):
        ex, st = c.ex, c.st
        s = shard_of(ex)
        x, x0 = Sh(ex, st, s), Sh(ex, c.old, s, st)
        t0 = ex.T0
        e = c.v['e'].addr
        f, g = z3.Ints('f!w g!w')
        return [('an entry still to destroy', z3.Or(e == x.dL, z3.And(t0[e], x.OBJ[e]))),
                ('entries before it are destroyed', z3.And(FIN(x.OBJ), fa([f], x.OBJ[f] == z3.And(t0[f], e != x.dL, x0.POS[f] >= x0.POS[e]), x.OBJ[f], t0[f]))),
                ('entries after it are as before', fa([f], z3.Implies(x.OBJ[f], z3.And(x.nx[f] == x0.nx[f], x.refs[f] == 1, x.inc[f] == 1, z3.Not(x.DEL[f]), x.live[f], x.live[x.kd[f]])), x.OBJ[f])),
                ('the buckets are allocated', x.live[x0.tab]),
                ('destroyed entries are released', fa([f], z3.Implies(z3.And(t0[f], z3.Not(x.OBJ[f])), z3.And(x.DEL[f], z3.Not(x.live[f]), z3.Not(x.live[x.kd[f]]))), t0[f]))]

    def decreases(self, c):
        return CARD(OBJ(c.ex, c.st))


class DtorOp(FnSpec):
    name = '^' + NSX + r'LRUCache::~LRUCache\('
    no_frame = True

    def pre(self, c):
        ex, st = c.ex, c.st
        s = c.args[0].addr
        ex.caller_blocks = lambda st_: []
        e = z3.Int('e!d')
        x = Sh(ex, st, s)
        return SI(ex, st, s, x) + [('no handles are held', fa([e], x.EXT[e] == 0, x.EXT[e])), ('the entries are finitely many', FIN(x.OBJ))]

    def setup(self, c):
        ex, st = c.ex, c.st
        ex.T0 = named(ex, st, T(ex, st))
        put(ex, st, 'T', z3.K(Int, FALSE))      # the cache gives up its entries

    def post(self, c):
        ex, st = c.ex, c.st
        s = c.args[0].addr
        x, x0 = Sh(ex, st, s), Sh(ex, c.old, s, st)
        f = z3.Int('f!w')
        return [('every deleter has run', fa([f], z3.Implies(ex.T0[f], x.DEL[f]), ex.T0[f])),
                ('entries and keys are released', fa([f], z3.Implies(ex.T0[f], z3.And(z3.Not(x.live[f]), z3.Not(x.live[x0.kd[f]]))), ex.T0[f])),
                ('the buckets are released', z3.Not(x.live[x0.tab]))]


# ------------------------------------------------------------ the sixteen shards
HASHF = z3.Function('hash_of_key', KeyS, Int, Int)


class HashC(FnSpec):
    """Hash (C07): a function of the bytes and the seed"""
    name = r'^lsmdb::Hash\(char const\*, unsigned long, unsigned int\)'

    def post(self, c):
        ex, st = c.ex, c.st
        return [('a function of the key', z3.And(c.ret == HASHF(KB(ex.region(st, ('E', 'i8')), c.args[0].addr, c.args[1]), c.args[2]), c.ret >= 0, c.ret < (1 << 32)))]


class ShardCall(FnSpec):
    op = None

    def effect(self, c):
        ex, st = c.ex, c.st
        v = tuple(a.addr if isinstance(a, P) else a for a in c.args)
        if self.op == 'Insert':
            v = v[:5] + (ex.select(funs(ex, st), v[5]),)
        r = c.ret.addr if isinstance(c.ret, P) else c.ret
        st.events += ((self.op,) + v + (r,),)


def shard_call(n, pat):
    return type('Shard' + n + 'C', (ShardCall,), {'op': n, 'name': '^' + NSX + 'LRUCache::' + pat})


SHARD_CALLS = [shard_call(n, p) for n, p in [('Insert', r'Insert\('), ('Lookup', r'Lookup\('), ('Release', r'Release\('), ('Erase', r'Erase\('), ('Prune', r'Prune\('), ('TotalCharge', r'TotalCharge\('),
                                             ('SetCapacity', r'SetCapacity\('), ('ctor', r'LRUCache\('), ('dtor', r'~LRUCache\(')]]
NSH = 16


def nshards(ex):
    return (ex.fkey(SC, 'id_mutex_')[2] - off(ex, SC, 'shard_')) // sizeof(ex, LC)


def route(ex, st, this, key):
    """the shard and hash that Lookup uses for the key at the given address (found by running Lookup itself)"""
    from vc.run import find_fn
    fn = find_fn(ex.prog, '^' + NSX + r'ShardedLRUCache::Lookup\(')[0]
    s = st.fork()
    n = len(s.events)
    outs = ex.run(fn, s, [P(this), P(key)], 0)
    if len(outs) != 1:
        raise Unsupported('Lookup takes several paths')
    s, _ = outs[0]
    ev = s.events[n:]
    if len(ev) != 1:
        raise Unsupported('Lookup does not call exactly one shard')
    for f in s.pc[len(st.pc):]:
        st.assume(f)
    return ev[0][1], ev[0][3]


class ShardedOp(FnSpec):
    no_frame = True
    op = None

    def pre(self, c):
        ex, st = c.ex, c.st
        t = c.args[0].addr
        return [('the cache lies in memory', z3.And(t > 0, t + sizeof(ex, SC) < HEAPMAX))]

    def in_shards(self, c, s):
        j = z3.Int('j!s')
        b = c.args[0].addr + off(c.ex, SC, 'shard_')
        return z3.Or([s == b + k * sizeof(c.ex, LC) for k in range(nshards(c.ex))])


class ShardedKeyOp(ShardedOp):
    """operations on a key go to one shard, which depends on the key's hash alone, with the same arguments"""

    def post(self, c):
        ex, st = c.ex, c.st
        ev = [e for e in st.events]
        a = [x.addr if isinstance(x, P) else x for x in c.args]
        if len(ev) != 1 or ev[0][0] != self.op:
            return [('exactly one shard is asked', FALSE)]
        e = ev[0]
        sh, h = route(ex, st, a[0], a[1])
        ret = c.ret.addr if isinstance(c.ret, P) else c.ret
        K0, K1 = slice_key(ex, c.old, a[1]), KB(ex.region(st, ('E', 'i8')), *(fld(ex, st, 'Slice', f)[e[2]] for f in ('data_', 'size_')))
        out = [('the shard that Lookup asks for this key', z3.And(e[1] == sh, self.in_shards(c, e[1]))), ('with the same hash', e[3] == h), ('with this key', K0 == K1)]
        if self.op == 'Insert':
            out.append(('with the same value, charge and deleter', z3.And(e[4] == a[2], e[5] == a[3], e[6] == ex.select(funs(ex, c.old), a[4]))))
        if ret is not None:
            out.append(('the shard\'s answer is returned', ret == e[-1]))
        return out


class ShardedRelease(ShardedOp):
    def pre(self, c):
        ex, st = c.ex, c.st
        # the handle's hash is that of the key it was inserted under
        ex.hkey = z3.Int('handle_key_slice')
        h = fld(ex, st, LH, 'hash')[c.args[1].addr]
        sh, hh = route(ex, st, c.args[0].addr, ex.hkey)
        ex.want = sh
        return ShardedOp.pre(self, c) + [('the key\'s slice lies in memory', z3.And(ex.hkey > 0, ex.hkey + 16 < HEAPMAX)), ('the handle has the hash of its key', h == hh)]

    def post(self, c):
        ev = c.st.events
        if len(ev) != 1 or ev[0][0] != 'Release':
            return [('exactly one shard is asked', FALSE)]
        return [('the shard that holds the entry releases the handle', z3.And(ev[0][1] == c.ex.want, ev[0][2] == c.args[1].addr))]


class ShardedAll(ShardedOp):
    def at_exit(self, c):
        if self.op == 'TotalCharge':
            c.st.assume(sum([e[-1] for e in c.st.events if e[0] == self.op], z3.IntVal(0)) < (1 << 64))

    def post(self, c):
        ex, st = c.ex, c.st
        b = c.args[0].addr + off(ex, SC, 'shard_')
        ev = [e for e in st.events if e[0] == self.op]
        out = [('nothing else happens to the shards', z3.BoolVal(len(ev) == len(st.events) and len(ev) == nshards(ex)))]
        for k in range(nshards(ex)):
            out.append(('every shard is reached', z3.Or([e[1] == b + k * sizeof(ex, LC) for e in ev] or [FALSE])))
        if self.op == 'TotalCharge':
            out.append(('the total of the shards', c.ret == sum([e[-1] for e in ev], z3.IntVal(0))))
        return out


class ShardedCtor(ShardedOp):
    def post(self, c):
        ex, st = c.ex, c.st
        cap = c.args[1]
        b = c.args[0].addr + off(ex, SC, 'shard_')
        n = nshards(ex)
        out = []
        for k in range(n):
            mine = [e for e in st.events if z3.is_true(z3.simplify(e[1] == b + k * sizeof(ex, LC)))]
            ok = [e[0] for e in mine][:1] == ['ctor'] and [e[0] for e in mine].count('ctor') == 1 and mine[-1][0] == 'SetCapacity'
            out.append(('every shard is constructed and then given its capacity', z3.BoolVal(ok)))
            if ok:
                v = mine[-1][2]
                out += [('a shard is switched off exactly when the cache is', (v == 0) == (cap == 0)),
                        ('the shards together have the capacity of the cache, rounded up', z3.And(n * v >= cap, n * v < cap + n))]
        out.append(('nothing else happens to the shards', z3.BoolVal(len(st.events) == sum(1 for e in st.events if e[0] in ('ctor', 'SetCapacity')))))
        return out


class ValueOp(ShardedOp):
    def post(self, c):
        return [('the value of the entry', c.ret.addr == fld(c.ex, c.old, LH, 'value')[c.args[1].addr])]


class NewCache(FnSpec):
    no_frame = True

    def post(self, c):
        ev = c.st.events
        if len(ev) != 1 or ev[0][0] != 'make':
            return [('one cache is made', FALSE)]
        return [('with the given capacity', ev[0][1] == c.args[1])]


def m_make_cache(ex, st, a, ins, dem):
    st.events += (('make', ex.load(st, P(a[1].addr), 'i64', ins.line)),)


SHARED_PTR = [(re.compile(r'^std::shared_ptr<.*> std::make_shared<lsmdb::\(anonymous namespace\)::ShardedLRUCache|^std::make_shared<lsmdb::\(anonymous namespace\)::ShardedLRUCache'), m_make_cache),
              (re.compile(r'^std::shared_ptr<lsmdb::(\(anonymous namespace\)::ShardedLRU)?Cache>::~?shared_ptr'), lambda ex, st, a, ins, dem: None)]


def sharded_cfg(ex, st):
    setup_engine(ex, st)
    ex.part = 'route'
    ex.slot_fn = None


def sharded_tasks(part):
    kw = dict(models=CACHE_MODELS + SHARED_PTR, contracts=SLICES + SHARD_CALLS + [HashC], config=sharded_cfg, unroll=40)
    S = '^' + NSX + 'ShardedLRUCache::'
    mk = lambda cls, op: type(cls.__name__ + op, (cls,), {'op': op})()
    out = [Task('ShardedLRUCache::ShardedLRUCache', S + r'ShardedLRUCache\(', ShardedCtor(), **kw)]
    if part == 'map':
        out += [Task('ShardedLRUCache::' + n, S + n + r'\(', mk(ShardedKeyOp, n), **kw) for n in ('Lookup', 'Insert', 'Erase')]
        out += [Task('ShardedLRUCache::Value', S + r'Value\(', ValueOp(), **kw), Task('NewLRUCache', r'^lsmdb::NewLRUCache\(', NewCache(), **kw)]
    if part in ('map', 'ref'):
        out += [Task('ShardedLRUCache::Release', S + r'Release\(', ShardedRelease(), **kw)]
    if part == 'ref':
        out += [Task('ShardedLRUCache::~ShardedLRUCache', S + r'~ShardedLRUCache\(', mk(ShardedAll, 'dtor'), **kw)]
    if part == 'lru':
        out += [Task('ShardedLRUCache::TotalCharge', S + r'TotalCharge\(', mk(ShardedAll, 'TotalCharge'), **kw)]
    if part in ('map', 'lru'):
        out += [Task('ShardedLRUCache::Prune', S + r'Prune\(', mk(ShardedAll, 'Prune'), **kw)]
    return out


def shard_tasks(part):
    tab = SLICES + [FindC, LookupC, InsertC, RemoveC, ResizeC]
    kw = dict(models=CACHE_MODELS, contracts=tab, loops=[EvictLoop], config=shard_cfg(part))
    out = [Task('LRUCache::LRUCache', CtorOp.name, CtorOp(), **kw)]
    if part == 'ref':
        out.append(Task('LRUCache::~LRUCache', DtorOp.name, DtorOp(), **dict(kw, loops=[DtorLoop])))
    return out + [Task('LRUCache::' + o.__name__[:-2], o.name, o(), **kw) for o in (LookupOp, ReleaseOp, InsertOp, EraseOp, PruneOp) + ((ChargeOp,) if part == 'lru' else ())]

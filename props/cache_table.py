"""Proof tasks of the hash table."""
from .cache_spec import *


def table_cfg(keyarg=None, insert=False, more=None):
    def cfg(ex, st):
        setup_engine(ex, st)
        this = lambda: ex.root_args[0].addr
        ex.table_at = this
        ex.find_key = lambda c: named(ex, c.st, slice_key(ex, c.st, c.args[1].addr) if not insert else key_term(ex, c.st, c.args[1].addr))
        ex.find_hash = lambda c: c.args[2] if not insert else fld(ex, c.st, LH, 'hash')[c.args[1].addr]

        def acc(ex_, s, rw, p, key, idx, ty, line, v=None):
            if key[0] == 'F' and key[1] == LH and not is_stack(idx[0]):
                e = idx[0]
                ok = T(ex, s)[e]
                if insert:
                    ok = z3.Or(ok, e == ex.root_args[1].addr)
                ex.oblige(s, 'only entries of the table are accessed', ok, line, 'safety')
        ex.access_hook = acc
        if more:
            more(ex, st)
    return cfg


def tpre(c):
    t = c.args[0].addr
    return [('table in memory', z3.And(t > 0, t + 16 < HEAPMAX))] + TI(c.ex, c.st, t)


class FindT(FindC):
    def pre(self, c):
        return tpre(c)


LOOPS = [FindLoop, FindEntryLoop]


def lookup_post(c):
    ex = c.ex
    x = Tab(ex, c.st, c.args[0].addr)
    key, h = slice_key(ex, c.old, c.args[1].addr), c.args[2]
    e = c.ret.addr
    return [('returns the matching entry', z3.Implies(e != 0, matches(x, e, key, h))), ('null means there is none', z3.Implies(e == 0, no_match(x, key, h)))]


class LookupC(FnSpec):
    """HandleTable::Lookup"""
    name = '^' + NSX + r'HandleTable::Lookup\('

    def pre(self, c):
        return TI(c.ex, c.st, c.args[0].addr)

    def post(self, c):
        return lookup_post(c)


class LookupT(LookupC):
    pre = FindT.pre


def tmods(c):
    ex = c.ex
    t = c.args[0].addr
    T(ex, c.st), RK(ex, c.st), TOP(ex, c.st), M.live(ex, c.st), M.ever(ex, c.st)
    cells(ex, c.st)
    return {C_: None, ('T',): None, ('RK',): None, ('TOP',): None, ('LIVE',): None, ('EVER',): None,
            ex.fkey(HT, 'length_'): [(t,)], ex.fkey(HT, 'elems_'): [(t,)], ex.fkey(HT, 'table_'): [(t,)]}


def heap_kept(c):
    """only the bucket array may have been replaced"""
    ex = c.ex
    t = c.args[0].addr
    l1, l0 = named(ex, c.st, M.live(ex, c.st)), named(ex, c.st, M.live(ex, c.old))
    a0, a1 = named(ex, c.st, fld(ex, c.old, HT, 'table_')[t]), named(ex, c.st, fld(ex, c.st, HT, 'table_')[t])
    a = z3.Int('a!h')
    e0 = named(ex, c.st, M.ever(ex, c.old))
    e1 = named(ex, c.st, M.ever(ex, c.st))
    return [('the bucket array is allocated, the old one released exactly when replaced',
             z3.And(l1[a1], z3.Or(a1 == a0, z3.And(z3.Not(l0[a1]), z3.Or(a0 == 0, z3.Not(l1[a0])))),
                    z3.ForAll([a], z3.Implies(z3.And(a != a0, a != a1), l1[a] == l0[a]), patterns=[l1[a]]),
                    z3.ForAll([a], z3.Implies(e0[a], e1[a]), patterns=[e1[a]])))]


def sound_heap(c, st):
    ex = c.ex
    t = c.args[0].addr
    l, tb = M.live(ex, st), fld(ex, st, HT, 'table_')[t]
    return [('the bucket array is allocated', l[tb])]


class InsertC(FnSpec):
    """HandleTable::Insert"""
    name = '^' + NSX + r'HandleTable::Insert\('

    def pre(self, c):
        ex, st = c.ex, c.st
        h = c.args[1].addr
        x = Tab(ex, st, c.args[0].addr)
        ex.ins_h = h
        return TI(ex, st, c.args[0].addr) + sound_heap(c, st) + [
            ('a new entry', z3.And(h > 0, h + hsize(ex) < HEAPMAX, z3.Not(x.T[h]), x.nx[h] != h, z3.Or(h + hsize(ex) <= x.tab, x.tab + 8 * x.len <= h))),
            ('fewer than 2^30 entries', x.elems + 1 < MAXN)]

    def effect(self, c):
        ex, st = c.ex, c.st
        if getattr(c, 'caller', False):
            h = c.args[1].addr
            put(ex, st, 'T', after_insert(c.old, ex, c.ret.addr, h))
            st.aux['inserted'] = h
            st.aux['replaced'] = c.ret.addr
            hk(ex, 'on_insert', st, c.old, c.ret.addr, h)
        elif not st.aux.get('grown'):
            h, o = c.args[1].addr, c.ret.addr
            put(ex, st, 'T', after_insert(c.old, ex, o, h))
            put(ex, st, 'RK', z3.Store(RK(ex, c.old), h, z3.If(o != 0, RK(ex, c.old)[o], TOP(ex, c.old))))
            put(ex, st, 'TOP', TOP(ex, c.old) + 1)

    def post(self, c):
        ex, st = c.ex, c.st
        h, o = c.args[1].addr, c.ret.addr
        x0 = Tab(ex, c.old, c.args[0].addr, st)
        key = named(ex, st, key_term(ex, c.old, h))
        out = [('returns the entry it replaces', z3.Implies(o != 0, matches(x0, o, key, x0.H[h]))), ('null when there was none', z3.Implies(o == 0, no_match(x0, key, x0.H[h]))),
               ('the table holds the new entry instead', T(ex, st) == after_insert(c.old, ex, o, h))]
        return out + TI(ex, st, c.args[0].addr) + heap_kept(c)

    def modifies(self, c):
        return tmods(c)


def after_insert(old, ex, o, h):
    t0 = T(ex, old)
    return z3.Store(z3.If(o != 0, z3.Store(t0, o, z3.BoolVal(False)), t0), h, z3.BoolVal(True))


class InsertT(InsertC):
    def pre(self, c):
        t = c.args[0].addr
        return tpre(c)[:1] + InsertC.pre(self, c)


class RemoveC(FnSpec):
    """HandleTable::Remove"""
    name = '^' + NSX + r'HandleTable::Remove\('

    def pre(self, c):
        return TI(c.ex, c.st, c.args[0].addr)

    def effect(self, c):
        ex, st = c.ex, c.st
        o = c.ret.addr
        t0 = T(ex, c.old)
        put(ex, st, 'T', z3.If(o != 0, z3.Store(t0, o, z3.BoolVal(False)), t0))
        if getattr(c, 'caller', False):
            hk(ex, 'on_remove', st, c.old, o)

    def post(self, c):
        ex, st = c.ex, c.st
        o = c.ret.addr
        x0 = Tab(ex, c.old, c.args[0].addr, st)
        key = named(ex, st, slice_key(ex, c.old, c.args[1].addr))
        t0 = T(ex, c.old)
        return [('returns the matching entry', z3.Implies(o != 0, matches(x0, o, key, c.args[2]))), ('null when there was none', z3.Implies(o == 0, no_match(x0, key, c.args[2]))),
                ('exactly this entry leaves the table', T(ex, st) == z3.If(o != 0, z3.Store(t0, o, z3.BoolVal(False)), t0))] + TI(ex, st, c.args[0].addr)

    def modifies(self, c):
        ex = c.ex
        T(ex, c.st), cells(ex, c.st)
        return {C_: None, ('T',): None, ex.fkey(HT, 'elems_'): [(c.args[0].addr,)]}


class RemoveT(RemoveC):
    pre = FindT.pre


class ResizeC(FnSpec):
    """HandleTable::Resize"""
    name = '^' + NSX + r'HandleTable::Resize\('

    def pre(self, c):
        ex, st = c.ex, c.st
        if getattr(c, 'caller', False):
            hk(ex, 'before_resize', st)
        t = c.args[0].addr
        x = Tab(ex, st, t)
        return resize_pre(x) + [('the bucket array is allocated', z3.Or(x.tab == 0, M.live(ex, st)[x.tab]))]

    def post(self, c):
        ex, st = c.ex, c.st
        return TI(ex, st, c.args[0].addr, linked=False) + heap_kept(c)

    def modifies(self, c):
        m = tmods(c)
        m.pop(('T',)), m.pop(c.ex.fkey(HT, 'elems_'))
        return m


def resize_pre(x):
    ex = x.ex
    e, f = z3.Ints('e!t f!t')
    T_ = x.T
    i = z3.Int('i!t')
    return [('the bucket array is in memory', z3.And(x.len >= 0, x.len < 2 * MAXN, x.tab >= 0, x.tab + 8 * x.len < HEAPMAX, z3.Implies(x.len > 0, x.tab > 0)))] + chains(x) + [
        ('entries are in existing buckets', z3.ForAll([e], z3.Implies(T_[e], z3.And(0 <= x.b(e), x.b(e) < x.len)), patterns=[T_[e]])),
        ('the number of entries is recorded', z3.And(x.elems == CARD(x.T), FIN(x.T), x.elems < MAXN)),
        ('entries lie outside the bucket array', z3.ForAll([e], z3.Implies(T_[e], z3.And(e > 0, e + hsize(ex) < HEAPMAX, z3.Or(e + hsize(ex) <= x.tab, x.tab + 8 * x.len <= e))), patterns=[T_[e]])),
        ('one entry per key and hash', z3.ForAll([e, f], z3.Implies(z3.And(T_[e], T_[f], x.H[e] == x.H[f], x.K(e) == x.K(f)), e == f), patterns=[z3.MultiPattern(T_[e], T_[f])]))]


# ------------------------------------------------------------ Resize
# ghosts: DONE entries moved to the new array, RK2 their places there, CNT how many
def DONE(ex, st):
    return shared(ex, st, 'DONE', SETS)


def RK2(ex, st):
    return shared(ex, st, 'RK2', INTS)


def CNT(ex, st):
    return shared(ex, st, 'CNT', Int)


def new_tab(ex, st):
    if 'newtab' not in st.aux:
        raise Unsupported('no new bucket array yet')
    x = Tab(ex, st, ex.table_at())
    x.tab, x.len = st.aux['newtab']
    x.m = named(ex, st, x.len - 1)
    x.T, x.RK = named(ex, st, DONE(ex, st)), named(ex, st, RK2(ex, st))
    return x


def moving(c):
    ex, st = c.ex, c.st
    x0, x = Tab(ex, c.old, ex.table_at(), st), new_tab(ex, st)
    e, j = z3.Ints('e!r j!r')
    n = named(ex, st, CNT(ex, st))
    return x0, x, [(a + ' (new array)', b) for a, b in chains(x)[:-1]] + [
        ('moved entries were in the table', z3.ForAll([e], z3.Implies(x.T[e], x0.T[e]), patterns=[x.T[e]])),
        ('later entries come first', z3.And(n >= 0, FIN(x.T), n == CARD(x.T), n <= CARD(x0.T), z3.ForAll([e], z3.Implies(x.T[e], z3.And(x.RK[e] < 0, x.RK[e] >= -n)), patterns=[x.T[e]]))),
        ('chains not yet moved are as before', z3.ForAll([e], z3.Implies(z3.And(x0.T[e], z3.Not(x.T[e])), x.C[CHAIN(e)] == x0.C[CHAIN(e)]), patterns=[x.C[CHAIN(e)]])),
        ('the old array is as before', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < x0.len), x.C[CELL(x0.tab, j)] == x0.C[CELL(x0.tab, j)]), patterns=[x.C[CELL(x0.tab, j)]]))]


class LengthLoop(Loop):
    fn = r'HandleTable::Resize\('
    roles = {'n': 'i32'}

    def applies(self, ex, st):
        return 'newtab' not in st.aux

    def inv(self, c):
        n = c.v['n']
        el = fld(c.ex, c.st, HT, 'elems_')[c.ex.table_at()]
        return [('a length that is not too large', z3.And(n >= 4, z3.Or(n == 4, n < 2 * el)))]

    def decreases(self, c):
        return fld(c.ex, c.st, HT, 'elems_')[c.ex.table_at()] - c.v['n']


class BucketLoop(Loop):
    fn = r'HandleTable::Resize\('
    roles = {'i': 'i32', 'count': 'i32'}
    guard = 'i'
    optional = ('count',)

    def applies(self, ex, st):
        return 'newtab' in st.aux

    def inv(self, c):
        x0, x, out = moving(c)
        i = c.v['i']
        e = z3.Int('e!r')
        out += [('all earlier buckets are moved', z3.And(0 <= i, i <= x0.len, z3.ForAll([e], x.T[e] == z3.And(x0.T[e], x0.b(e) < i), patterns=[x.T[e], x0.T[e]])))]
        if c.v['count'] is not None:
            out.append(('moved entries are counted', c.v['count'] == CNT(c.ex, c.st)))
        return out

    def decreases(self, c):
        return fld(c.ex, c.st, HT, 'length_')[c.ex.table_at()] - c.v['i']


class EntryLoop(Loop):
    fn = r'HandleTable::Resize\('
    roles = {'h': 'ptr', 'count': 'i32'}
    guard = 'h'
    optional = ('count',)

    def applies(self, ex, st):
        return 'newtab' in st.aux

    def inv(self, c):
        ex, st = c.ex, c.st
        x0, x, out = moving(c)
        h, h0 = c.v['h'].addr, c.e['h'].addr
        d0 = named(ex, st, DONE(ex, c.entry))
        e = z3.Int('e!r')
        out += [('a chain of the bucket', z3.Or(h == 0, z3.And(h0 != 0, x0.T[h], z3.Not(x.T[h]), x0.b(h) == x0.b(h0)))),
                ('entries before it are moved', z3.ForAll([e], x.T[e] == z3.Or(d0[e], z3.And(h0 != 0, x0.T[e], x0.b(e) == x0.b(h0), z3.Or(h == 0, x0.RK[e] < x0.RK[h]))), patterns=[x.T[e], x0.T[e]]))]
        if c.v['count'] is not None:
            out.append(('moved entries are counted', c.v['count'] == CNT(ex, st)))
        return out

    def decreases(self, c):
        x0 = Tab(c.ex, c.old, c.ex.table_at(), c.st)
        h = c.v['h'].addr
        return z3.If(h == 0, z3.IntVal(0), 1 + CARD(x0.T) - CNT(c.ex, c.st))


class ResizeT(ResizeC):
    def setup(self, c):
        ex, st = c.ex, c.st
        t = c.args[0].addr
        st.assume(t > 0, t + 16 < HEAPMAX)
        for n, v in (('DONE', z3.K(Int, z3.BoolVal(False))), ('CNT', z3.IntVal(0))):
            shared(ex, st, n, v.sort())
            put(ex, st, n, v)
        RK2(ex, st)
        S = z3.Const('s!y', SETS)
        t0 = T(ex, st)
        st.assume(CARD(z3.K(Int, z3.BoolVal(False))) == 0, FIN(z3.K(Int, z3.BoolVal(False))))
        st.assume(z3.ForAll([S], z3.Or(CARD(S) <= CARD(t0), z3.And(S[ODD(S)], z3.Not(t0[ODD(S)]))), patterns=[CARD(S)]))
        st.assume(z3.ForAll([S], z3.Or(CARD(S) == CARD(t0), S[DIFF(S, t0)] != t0[DIFF(S, t0)]), patterns=[CARD(S)]))
        x = Tab(ex, st, t)

        def acc(ex_, s, rw, p, key, idx, ty, line, v=None):
            if key == C_ and rw == 'w' and z3.is_app(idx[0]) and idx[0].decl().eq(CHAIN):
                e = idx[0].arg(0)
                ex.oblige(s, 'only entries of the table are moved, once', z3.And(t0[e], z3.Not(DONE(ex, s)[e])), line, 'safety')
                n = CNT(ex, s) + 1
                put(ex, s, 'DONE', z3.Store(DONE(ex, s), e, z3.BoolVal(True)))
                put(ex, s, 'RK2', z3.Store(RK2(ex, s), e, -n))
                put(ex, s, 'CNT', n)
            elif key == C_ and not is_stack(idx[0]):
                if z3.is_app(idx[0]) and idx[0].decl().eq(CELL):
                    tb, j = idx[0].arg(0), idx[0].arg(1)
                    ok = z3.And(tb == x.tab, 0 <= j, j < x.len)
                    if 'newtab' in s.aux:
                        nt, nl = s.aux['newtab']
                        ok = z3.Or(ok, z3.And(tb == nt, 0 <= j, j < nl))
                    ex.oblige(s, 'a cell of a bucket array', ok, line, 'safety')
                elif z3.is_app(idx[0]) and idx[0].decl().eq(CHAIN):
                    ex.oblige(s, 'only entries of the table are read', t0[idx[0].arg(0)], line, 'safety')
                else:
                    ok = z3.And(idx[0] == x.tab, x.len > 0)
                    if 'newtab' in s.aux:
                        nt, nl = s.aux['newtab']
                        ok = z3.Or(ok, idx[0] == nt)
                    ex.oblige(s, 'a cell of a bucket array', ok, line, 'safety')

        def alloc(ex_, s, a, n):
            e = z3.Int('e!a')
            s.assume(a + n < HEAPMAX, a > 0, z3.Or(a + n <= x.tab, x.tab + 8 * x.len <= a), z3.Or(a + n <= t, t + 16 <= a),
                     z3.ForAll([e], z3.Implies(t0[e], z3.Or(a + n <= e, e + hsize(ex) <= a)), patterns=[t0[e]]))
            nl = ex.fresh('nl', Int)
            s.assume(nl == n / 8)
            s.aux['newtab'] = (a, nl)
        ex.access_hook, ex.alloc_hook = acc, alloc
        ex.memset_views = ('ptr',)      # the new array holds pointers only

    def effect(self, c):
        ex, st = c.ex, c.st
        if not getattr(c, 'caller', False):
            put(ex, st, 'RK', RK2(ex, st))
            put(ex, st, 'TOP', z3.IntVal(0))

    def modifies(self, c):
        return {**ResizeC.modifies(self, c), ('DONE',): None, ('RK2',): None, ('CNT',): None}


def before_resize(ex, st):
    """Insert grows the table: the new entry is in its chain by now (ghost step)"""
    h = ex.root_args[1].addr
    old = ex.root_old
    x0 = Tab(ex, old, ex.root_args[0].addr, st)
    o = ex.fresh('old', Int)
    key = key_term(ex, old, h)
    st.assume(z3.Or(z3.And(o == 0, no_match(x0, key, x0.H[h])), z3.And(o != 0, matches(x0, o, key, x0.H[h]))))
    put(ex, st, 'T', after_insert(old, ex, o, h))
    put(ex, st, 'RK', z3.Store(RK(ex, old), h, z3.If(o != 0, RK(ex, old)[o], TOP(ex, old))))
    put(ex, st, 'TOP', TOP(ex, old) + 1)
    st.aux['grown'] = True


def table_tasks():
    kw = dict(models=CACHE_MODELS, loops=LOOPS)
    ins = table_cfg(insert=True, more=lambda ex, st: setattr(ex, 'before_resize', before_resize))
    return [Task('HandleTable::FindPointer', FindC.name, FindT(), contracts=SLICES, config=table_cfg(), helper=True, **kw),
            Task('HandleTable::Lookup', LookupC.name, LookupT(), contracts=SLICES + [FindC], config=table_cfg(), **kw),
            Task('HandleTable::Insert', InsertC.name, InsertT(), contracts=SLICES + [FindC, ResizeC], config=ins, **kw),
            Task('HandleTable::Resize', ResizeC.name, ResizeT(), contracts=SLICES, config=table_cfg(), helper=True, models=CACHE_MODELS, loops=[LengthLoop, BucketLoop, EntryLoop]),
            Task('HandleTable::Remove', RemoveC.name, RemoveT(), contracts=SLICES + [FindC], config=table_cfg(), **kw)]

"""The LRU cache: hash table of entries, circular lists by recency, reference counts, charge and locking (C12-C15).

Ghost state of a shard (memory keys, so that contracts can name them):
  T     entry -> it is in the cache (in the hash table)
  EXT   entry -> handles on it that clients have not released
  RK    entry -> position in its hash chain (smaller is nearer the bucket), TOP: above every position in use
  POS   entry -> position in its circular list (a real number: smaller is nearer the head's successor)
  ST    entry -> time it last became unreferenced, NOW: the current time
  USE   sum of the charges of the entries in the cache
  DEL   entry -> its deleter has been called, OBJ entry -> the object exists
The flat region of pointer cells holds the bucket array and the next_hash fields: cell(tab, i) and chain(e) are their addresses.
"""
from .common import *
from .sync_spec import *
from .status_spec import funs, set_fun
from .C25 import shared, put

LH, LC, HT, SC = 'LRUHandle', 'LRUCache', 'HandleTable', 'ShardedLRUCache'
NSX = r'lsmdb::\(anonymous namespace\)::'
from vc.engine import short as E_short
KeyS = z3.DeclareSort('CacheKey')
Bool = z3.BoolSort()
BMEM = z3.ArraySort(Int, Int)
KB = z3.Function('key_of_bytes', BMEM, Int, Int, KeyS)
SETS = z3.ArraySort(Int, Bool)
INTS = z3.ArraySort(Int, Int)
REALS = z3.ArraySort(Int, z3.RealSort())
CELL = z3.Function('bucket_cell', Int, Int, Int)
CHAIN = z3.Function('chain_cell', Int, Int)
CARD = z3.Function('cardinality', SETS, Int)
FIN = z3.Function('is_finite', SETS, Bool)
PICK = z3.Function('a_member_of', SETS, Int)
ODD = z3.Function('a_member_outside', SETS, Int)
DIFF = z3.Function('a_difference_of', SETS, SETS, Int)
C_ = ('E', 'ptr')
MAXN = 1 << 30


def named(ex, st, t):
    if z3.is_const(t):
        return t
    k = ex.fresh('nm', t.sort())
    st.assume(k == t)
    return k


def T(ex, st):
    return shared(ex, st, 'T', SETS)


def EXT(ex, st):
    return shared(ex, st, 'EXT', INTS)


def RK(ex, st):
    return shared(ex, st, 'RK', INTS)


def TOP(ex, st):
    return shared(ex, st, 'TOP', Int)


def POS(ex, st):
    return shared(ex, st, 'POS', REALS)


def ST(ex, st):
    return shared(ex, st, 'ST', INTS)


def NOW(ex, st):
    return shared(ex, st, 'NOW', Int)


def USE(ex, st):
    return shared(ex, st, 'USE', Int)


def DEL(ex, st):
    return shared(ex, st, 'DEL', SETS)


def OBJ(ex, st):
    return shared(ex, st, 'OBJ', SETS)


def cells(ex, st):
    return ex.region(st, C_, 'ptr')


def fld(ex, st, cls, f):
    return ex.region(st, ex.fkey(cls, f))


def off(ex, cls, f):
    return ex.fkey(cls, f)[2]


def hsize(ex):
    """the size of an entry"""
    return sizeof(ex, LH)


def sizeof(ex, cls):
    memo = ex.__dict__.setdefault('sizes', {})
    if cls not in memo:
        for m in ex.prog.mods:
            for n in m.structs:
                if E_short(n) == cls and not n.endswith('.base'):
                    memo[cls] = ex.prog.size_align(('struct', n), m)[0]
    return memo[cls]


def field_key(ex, f):
    return ex.fkey(LH, f)


def key_term(ex, st, e, B=None):
    """the key of entry e"""
    B = ex.region(st, ('E', 'i8')) if B is None else B
    return KB(B, fld(ex, st, LH, 'key_data')[e], fld(ex, st, LH, 'key_length')[e])


def slice_key(ex, st, s):
    return KB(ex.region(st, ('E', 'i8')), fld(ex, st, 'Slice', 'data_')[s], fld(ex, st, 'Slice', 'size_')[s])


def axioms(ex):
    e, i, t = z3.Ints('e!x i!x t!x')
    x, m = z3.Ints('x!x m!x')
    nh = off(ex, LH, 'next_hash')
    A = z3.Const('s!x', SETS)
    B = z3.Const('t!x', SETS)
    fand = ex.A.fand
    return [z3.ForAll([e], CHAIN(e) == e + nh, patterns=[CHAIN(e)]), z3.ForAll([t, i], CELL(t, i) == t + 8 * i, patterns=[CELL(t, i)]),
            z3.ForAll([x, m], z3.Implies(m >= 0, z3.And(0 <= fand(x, m), fand(x, m) <= m)), patterns=[fand(x, m)]),
            z3.ForAll([A], z3.And(z3.Implies(FIN(A), CARD(A) >= 0), z3.Implies(CARD(A) > 0, A[PICK(A)])), patterns=[CARD(A)]),
            z3.ForAll([A, e], z3.And(FIN(z3.Store(A, e, z3.BoolVal(True))) == FIN(A), FIN(z3.Store(A, e, z3.BoolVal(False))) == FIN(A), CARD(z3.Store(A, e, z3.BoolVal(True))) == CARD(A) + z3.If(A[e], 0, 1),
                                     CARD(z3.Store(A, e, z3.BoolVal(False))) == CARD(A) - z3.If(A[e], 1, 0)), patterns=[f(z3.Store(A, e, z3.BoolVal(b))) for f in (CARD, FIN) for b in (True, False)]),
            ]


def setup_engine(ex, st):
    if not ex.axioms:
        ex.axioms += axioms(ex)
    nh = ex.fkey(LH, 'next_hash')
    ex.flat = {nh: CHAIN}
    ex.slot_fn = CELL
    ex.tidy = True
    ex.light = True
    init_held(st)
    for f in (T, EXT, RK, TOP, POS, ST, NOW, USE, DEL, OBJ):
        f(ex, st)


# ------------------------------------------------------------ the hash table
class Tab:
    def __init__(self, ex, st, t, into=None):
        n = lambda x: named(ex, into or st, x)
        self.len = n(fld(ex, st, HT, 'length_')[t])
        self.elems = n(fld(ex, st, HT, 'elems_')[t])
        self.tab = n(fld(ex, st, HT, 'table_')[t])
        self.m = n(self.len - 1)
        self.C = n(cells(ex, st))
        self.H = n(fld(ex, st, LH, 'hash'))
        self.KD, self.KL = n(fld(ex, st, LH, 'key_data')), n(fld(ex, st, LH, 'key_length'))
        self.B = n(ex.region(st, ('E', 'i8')))
        self.nx = n(fld(ex, st, LH, 'next'))
        self.T, self.RK, self.TOP = n(T(ex, st)), n(RK(ex, st)), n(TOP(ex, st))
        self.fand = ex.A.fand
        self.ex, self.st = ex, st

    def K(self, e):
        return KB(self.B, self.KD[e], self.KL[e])

    def b(self, e):
        return self.fand(self.H[e], self.m)

    def nh(self, e):
        return self.C[CHAIN(e)]

    def head(self, i):
        return self.C[CELL(self.tab, i)]


def TI(ex, st, t, linked=True, x=None):
    """the invariant of the hash table at address t"""
    x = x or Tab(ex, st, t)
    e, f, i = z3.Ints('e!t f!t i!t')
    T_, RK_, C = x.T, x.RK, x.C
    all_ = lambda vs, body, *pats: z3.ForAll(vs, body, patterns=list(pats))
    mp = z3.MultiPattern
    out = [('the bucket array is in memory', z3.And(x.len >= 1, x.len < 2 * MAXN, x.tab > 0, x.tab + 8 * x.len < HEAPMAX))] + chains(x) + [
        ('the number of entries is recorded', z3.And(x.elems == CARD(x.T), FIN(x.T), x.elems < MAXN)),
        ('entries lie outside the bucket array', all_([e], z3.Implies(T_[e], z3.And(e > 0, e + hsize(ex) < HEAPMAX, z3.Or(e + hsize(ex) <= x.tab, x.tab + 8 * x.len <= e))), T_[e])),
        ('one entry per key and hash', all_([e, f], z3.Implies(z3.And(T_[e], T_[f], x.H[e] == x.H[f], x.K(e) == x.K(f)), e == f), mp(T_[e], T_[f])))]
    if linked:
        out.append(('entries in the table are linked into a list', all_([e], z3.Implies(T_[e], x.nx[e] != e), T_[e])))
    return out


def chains(x, T_=None):
    """buckets and chains hold exactly the entries of T_"""
    e, f, i = z3.Ints('e!t f!t i!t')
    T_ = x.T if T_ is None else T_
    all_ = lambda vs, body, *pats: z3.ForAll(vs, body, patterns=list(pats))
    mp = z3.MultiPattern
    RK_ = x.RK
    return [
        ('a bucket starts with an entry of its own', all_([i], z3.Implies(z3.And(0 <= i, i < x.len), z3.Or(x.head(i) == 0, z3.And(T_[x.head(i)], x.b(x.head(i)) == i))), x.head(i))),
        ('a chain goes on with an entry of the same bucket', all_([e], z3.Implies(T_[e], z3.Or(x.nh(e) == 0, z3.And(T_[x.nh(e)], x.b(x.nh(e)) == x.b(e), RK_[x.nh(e)] > RK_[e]))), x.nh(e))),
        ('a chain skips no entry', all_([e, f], z3.Implies(z3.And(T_[e], T_[f], x.b(e) == x.b(f), RK_[f] > RK_[e]), z3.And(x.nh(e) != 0, RK_[x.nh(e)] <= RK_[f])), mp(x.nh(e), T_[f]))),
        ('a bucket starts with its first entry', all_([f], z3.Implies(T_[f], z3.And(x.head(x.b(f)) != 0, RK_[x.head(x.b(f))] <= RK_[f])), T_[f])),
        ('every entry has a place of its own in its chain', all_([e, f], z3.Implies(z3.And(T_[e], T_[f], x.b(e) == x.b(f), RK_[e] == RK_[f]), e == f), mp(T_[e], T_[f]))),
        ('chain places are bounded', z3.And(x.TOP >= 0, all_([e], z3.Implies(T_[e], RK_[e] < x.TOP), T_[e])))]


def matches(x, e, key, h):
    return z3.And(x.T[e], x.H[e] == h, x.K(e) == key)


def no_match(x, key, h, pat_T=None):
    e = z3.Int('e!n')
    return z3.ForAll([e], z3.Not(matches(x, e, key, h)), patterns=[x.T[e]])


TABLE_MODS = lambda ex: {C_: None}


class FindC(FnSpec):
    """HandleTable::FindPointer"""
    name = '^' + NSX + r'HandleTable::FindPointer\('

    def pre(self, c):
        return TI(c.ex, c.st, c.args[0].addr)

    def post(self, c):
        ex, st = c.ex, c.st
        x = Tab(ex, st, c.args[0].addr)
        key, h = named(ex, st, slice_key(ex, c.old, c.args[1].addr)), c.args[2]
        q = c.ret.addr
        p = named(ex, st, q - off(ex, LH, 'next_hash'))
        b = x.fand(h, x.m)
        e = x.C[q]
        f = z3.Int('f!p')
        return [('the cell is the bucket\'s or a chain cell of an entry of the bucket', z3.Or(q == CELL(x.tab, b), z3.And(q == CHAIN(p), x.T[p], x.b(p) == b))),
                ('it holds the matching entry', z3.Implies(e != 0, z3.And(matches(x, e, key, h), x.b(e) == b))),
                ('null means there is none', z3.Implies(e == 0, no_match(x, key, h)))]


class FindLoop(Loop):
    roles = {'q': 'ptr', 'e': 'ptr'}
    optional = ('e',)

    def inv(self, c):
        ex, st = c.ex, c.st
        x = Tab(ex, st, ex.table_at())
        key, h = ex.find_key(c), ex.find_hash(c)
        q = c.v['q'].addr
        p = named(ex, st, q - off(ex, LH, 'next_hash'))
        b = x.fand(h, x.m)
        f = z3.Int('f!l')
        out = [('a cell of the bucket', z3.Or(q == CELL(x.tab, b), z3.And(q == CHAIN(p), x.T[p], x.b(p) == b))),
               ('matching entries are still ahead', z3.ForAll([f], z3.Implies(matches(x, f, key, h), z3.And(x.C[q] != 0, x.RK[x.C[q]] <= x.RK[f])), patterns=[x.T[f]]))]
        if c.v['e'] is not None:
            out.append(('the entry under the cursor', c.v['e'].addr == x.C[q]))
        return out

    def decreases(self, c):
        x = Tab(c.ex, c.st, c.ex.table_at())
        e = x.C[c.v['q'].addr]
        return z3.If(e == 0, z3.IntVal(0), x.TOP - x.RK[e])


class FindEntryLoop(FindLoop):
    """the same search with a cursor on entries instead of cells"""
    roles = {'e': 'ptr'}
    optional = ()

    def inv(self, c):
        ex, st = c.ex, c.st
        x = Tab(ex, st, ex.table_at())
        key, h = ex.find_key(c), ex.find_hash(c)
        e = c.v['e'].addr
        b = x.fand(h, x.m)
        f = z3.Int('f!l')
        return [('an entry of the bucket', z3.Or(e == 0, z3.And(x.T[e], x.b(e) == b))),
                ('matching entries are still ahead', z3.ForAll([f], z3.Implies(matches(x, f, key, h), z3.And(e != 0, x.RK[e] <= x.RK[f])), patterns=[x.T[f]]))]

    def decreases(self, c):
        x = Tab(c.ex, c.st, c.ex.table_at())
        e = c.v['e'].addr
        return z3.If(e == 0, z3.IntVal(0), x.TOP - x.RK[e])


# ------------------------------------------------------------ Slice operations (C04)
class SliceNe(FnSpec):
    name = r'^lsmdb::operator!=\(lsmdb::Slice'
    eq = False

    def post(self, c):
        a, b = (slice_key(c.ex, c.st, x.addr) for x in c.args[:2])
        r = c.ret if z3.is_bool(c.ret) else c.ret != 0
        return [('compares the bytes', r == ((a == b) if self.eq else (a != b)))]


class SliceEq(SliceNe):
    name = r'^lsmdb::operator==\(lsmdb::Slice'
    eq = True


class SliceCmp(FnSpec):
    name = r'^lsmdb::Slice::compare\('

    def post(self, c):
        a, b = (slice_key(c.ex, c.st, x.addr) for x in c.args[:2])
        return [('zero exactly for equal bytes', (c.ret == 0) == (a == b))]


def m_memcmp(ex, st, a, ins, dem):
    B = ex.region(st, ('E', 'i8'))
    r = ex.fresh_int(st, 'memcmp', 32)
    st.assume((r == 0) == (KB(B, a[0].addr, a[2]) == KB(B, a[1].addr, a[2])))
    return r


def m_memcpy(ex, st, a, ins, dem):
    B0 = ex.region(st, ('E', 'i8'))
    r = M.m_memcpy(ex, st, a, ins, dem)
    B1 = ex.region(st, ('E', 'i8'))
    if B1 is not B0:
        p, k = z3.Ints('p!k k!k')
        dst, src, n = a[0].addr, a[1].addr, a[2]
        st.assume(z3.Implies(z3.Or(src + n <= dst, dst + n <= src), KB(B1, dst, n) == KB(B0, src, n)),
                  z3.ForAll([p, k], z3.Implies(z3.Or(p + k <= dst, dst + n <= p), KB(B1, p, k) == KB(B0, p, k)), patterns=[KB(B1, p, k)]))
        hk(ex, 'on_copy', st, B0, B1, ins)
    return r


def m_umul(ex, st, a, ins, dem):
    v = a[0] * a[1]
    M64 = 1 << 64
    return [(st, [z3.If(v < M64, v, v % M64), v >= M64])]


def m_fn_null(ex, st, a, ins, dem):
    set_fun(ex, st, a[0].addr, z3.IntVal(0))


def m_fn_copy(ex, st, a, ins, dem):
    set_fun(ex, st, a[0].addr, ex.select(funs(ex, st), a[1].addr))
    return a[0] if 'operator=' in dem else None


def m_fn_call(ex, st, a, ins, dem):
    h = getattr(ex, 'on_delete', None)
    if h:
        h(ex, st, a, ins)
    return None


FN = r'^std::function<void \(lsmdb::Slice const&, void\*\)>::'
CACHE_MODELS = [(re.compile(p), f) for p, f in [
    (r'^llvm\.umul\.with\.overflow\.i64', m_umul), (r'^llvm\.memcpy\.|^memcpy$', m_memcpy), (r'^(memcmp|bcmp)$', m_memcmp),
    (FN + r'function\((std::nullptr_t|decltype\(nullptr\))?\)', m_fn_null),
    (FN + r'function\(std::function<.*> ?(const&|&&)\)', m_fn_copy), (FN + r'operator=\(std::function<.*> ?(const&|&&)\)', m_fn_copy),
    (FN + r'swap\(', lambda ex, st, a, ins, dem: m_fn_swap(ex, st, a)),
    (FN + r'operator\(\)\(', m_fn_call), (FN + r'~function\(\)', lambda ex, st, a, ins, dem: None)]] + SYNC_MODELS


def m_fn_swap(ex, st, a):
    x, y = (ex.select(funs(ex, st), p.addr) for p in a[:2])
    set_fun(ex, st, a[0].addr, y)
    set_fun(ex, st, a[1].addr, x)


SLICES = [SliceNe, SliceEq, SliceCmp]

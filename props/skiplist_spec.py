"""The skip list (C10: sequential histories, C11: readers beside one writer).

Ghost state: H(n) the number of levels node n is linked on (0: not in the list; grows bottom-up while it is inserted; 12 for
the head), CAP(n) the number of links there is room for at n, INI(n, l) that link (n, l) has been given a value,
rank: the position of a key in the comparator's order.

The structure SI(H): on every level a link leads to a node of that level with a greater key or ends there, and skips no node
of the level.  Sequentially a link is read as stored.  A concurrent reader reads any value a link may have held since the
read began (`rely`): with U the nodes linked by the time the read ends and S the nodes whose insertion had completed before
it began, a node of U on that level with a greater key that skips no node of S, or null if there is none of S to skip.  The
writer's obligations (`guarantee`): SI holds after each of its atomic steps, a link to a node is stored with release order
and only after the node's key and its links up to that level have been stored, and keys of linked nodes are never written.
"""
from .common import *
from .C25 import shared, put

TUS = ['skiplist_inst', 'inline_inst', 'arena']
SL, ND, IT = 'SkipList', 'Node', 'Iterator'
TOPL = 12
Bool = z3.BoolSort()
INTS = z3.ArraySort(Int, Int)
SETS = z3.ArraySort(Int, Bool)
SET2 = z3.ArraySort(Int, SETS)
RANK = z3.Function('rank', Int, Int)
NSK = r'^lsmdb::SkipList<unsigned long, VCmp>::'
KEYS = ('F', ND, 0)
PV = ('E', 'ptr')


def named(ex, st, t):
    if z3.is_const(t):
        return t
    k = ex.fresh('nm', t.sort())
    st.assume(k == t)
    return k


def links(ex):
    """the region of the links next_[]"""
    k = ex.fkey(ND, 'next_')
    return ('FA', k[1], k[2])


def keyreg(ex):
    return ex.fkey(ND, 'key')


def NX(ex, st):
    return ex.region(st, links(ex), 'i64', 2)


def KEY(ex, st):
    return ex.region(st, keyreg(ex), 'i64')


def Hh(ex, st):
    return shared(ex, st, 'H', INTS)


def CAP(ex, st):
    return shared(ex, st, 'CAP', INTS)


def INI(ex, st):
    return shared(ex, st, 'INI', SET2)


def fld(ex, st, cls, f):
    return ex.region(st, ex.fkey(cls, f))


def head_of(ex, st, L):
    return fld(ex, st, SL, 'head_')[L]


def mh_of(ex, st, L):
    return fld(ex, st, SL, 'max_height_')[L]


class View:
    """the list in state st"""

    def __init__(v, ex, st, L, H=None):
        v.ex, v.st, v.L = ex, st, L
        n = lambda t: named(ex, st, t)
        v.H = n(Hh(ex, st) if H is None else H)
        v.K, v.NX, v.CAP = n(KEY(ex, st)), n(NX(ex, st)), n(CAP(ex, st))
        v.head = n(head_of(ex, st, L))
        v.mh = mh_of(ex, st, L)

    def r(v, f):
        return RANK(v.K[f])

    def below(v, f, g):
        """f comes before g"""
        return z3.Or(f == v.head, v.r(f) < v.r(g))

    def node(v, f):
        return z3.And(f != v.head, f != 0, v.H[f] > 0)

    def must(v, g):
        """nodes a search may not miss"""
        s = getattr(v.ex, 'S0', None)
        return v.node(g) if s is None else z3.And(v.node(g), s[g])

    def all(v, body, pats=None):
        g = z3.Int('g!')
        return z3.ForAll([g], z3.Implies(v.must(g), body(g)), patterns=[v.H[g]] if pats is None else pats(g))

    def all_nodes(v, body):
        g = z3.Int('g!')
        return z3.ForAll([g], z3.Implies(v.node(g), body(g)), patterns=[v.H[g]])


def base(v, cap=True):
    """what holds of nodes in either setting"""
    f, g, k = z3.Ints('f! g! k!')
    mh = v.mh
    out = [('the head has every level', z3.And(v.head > 0, v.H[v.head] == TOPL, v.H[0] == 0)),
           ('linked nodes have room for their links', z3.And(v.CAP[v.head] >= TOPL, z3.ForAll([f], z3.And(v.H[f] >= 0, v.H[f] <= v.CAP[f], v.H[f] <= TOPL), patterns=[v.H[f]]))),
           ('no two nodes hold the same key', z3.ForAll([f, g], z3.Implies(z3.And(v.node(f), v.node(g), v.r(f) == v.r(g)), f == g), patterns=[z3.MultiPattern(v.H[f], v.H[g])]))]
    return out


def link_ok(v, f, l, y, must=None):
    """y is a proper value of link (f, l)"""
    g = z3.Int('g!')
    ok = v.must if must is None else must
    return z3.And(z3.Implies(y != 0, z3.And(y != v.head, v.H[y] > l, v.below(f, y))),
                  z3.ForAll([g], z3.Implies(z3.And(ok(g), v.H[g] > l, v.below(f, g)), z3.And(y != 0, v.r(y) <= v.r(g))), patterns=[v.H[g]]))


def SI(ex, st, L, H=None, mh=True):
    v = View(ex, st, L, H)
    f, g, l = z3.Ints('f! g! l!')
    y = v.NX[f][l]
    out = base(v)
    out += [('links lead to a later node of the level', z3.ForAll([f, l], z3.Implies(z3.And(0 <= l, l < v.H[f], y != 0), z3.And(y != v.head, v.H[y] > l, v.below(f, y))), patterns=[y])),
            ('links skip no node of the level', z3.ForAll([f, l, g], z3.Implies(z3.And(0 <= l, l < v.H[f], l < v.H[g], g != v.head, g != 0, v.below(f, g)), z3.And(y != 0, v.r(y) <= v.r(g))),
                                                          patterns=[z3.MultiPattern(y, v.H[g])]))]
    if mh:
        out.append(('the height covers every node', z3.And(1 <= v.mh, v.mh <= TOPL, z3.ForAll([f], z3.Implies(f != v.head, v.H[f] <= v.mh), patterns=[v.H[f]]))))
    return out


def sane_list(c, L):
    return ('list in memory', z3.And(L > 0, L + 64 < HEAPMAX))


# ------------------------------------------------------------ the comparator
def keyval(ex, st, p):
    k, idx = ex.place(p, 'i64')
    v = ex.region(st, k, 'i64', len(idx))
    for i in idx:
        v = ex.select(v, i)
    return v


def m_compare(ex, st, a, ins, dem):
    x = ex.load(st, a[1], 'i64', ins.line)
    y = ex.load(st, a[2], 'i64', ins.line)
    r = ex.fresh_int(st, 'cmp', 32)
    s = ex.A.signed(r, 32)
    st.assume((s < 0) == (RANK(x) < RANK(y)), (s == 0) == (RANK(x) == RANK(y)))
    for t in (x, y):
        st.assume(RANK(t) >= 0, RANK(t) < (1 << 64))
    return r


MODELS = [(re.compile(r'^VCmp::operator\(\)'), m_compare)]
RANGE = None


def rank_range():
    k = z3.Int('k!r')
    return z3.ForAll([k], z3.And(RANK(k) >= 0, RANK(k) < (1 << 64)), patterns=[RANK(k)])


# ------------------------------------------------------------ access discipline
REL = ('release', 'acq_rel', 'seq_cst')
ACQ = ('acquire', 'acq_rel', 'seq_cst')


def lview(ex, st):
    return View(ex, st, ex.list_at)


def list_addr(ex):
    return ex.list_at


def cfg(role='seq'):
    """role: 'seq' one thread; 'writer' the inserting thread beside readers; 'reader'"""
    def go(ex, st):
        ex.tidy = True
        ex.axioms.append(rank_range())
        ex.role = role
        if role == 'reader':
            ex.S0 = z3.Const('inserted_before_the_read', SETS)
        st.aux['quiet'] = True

        def acc(ex_, s, rw, p, key, idx, ty, line, v=None):
            if ex_.scan:
                return
            if key == links(ex) and not is_stack(idx[0]):
                f, l = idx
                ex.oblige(s, 'the link accessed is one of the node\'s', z3.And(0 <= l, l < CAP(ex, s)[f]), line, 'safety')
                if role != 'seq':
                    ex.oblige(s, 'links are accessed atomically', z3.BoolVal(bool(ex.cur_ins is not None and ex.cur_ins.extra.get('atomic'))), line, 'safety')
                if role == 'reader':
                    w = lview(ex, s)
                    ex.oblige(s, 'the link read is one that has been initialised', z3.And(0 <= l, l < w.H[f]), line)
                    ex.oblige(s, 'readers do not write', z3.BoolVal(rw == 'r'), line)
            elif key == keyreg(ex) and not is_stack(idx[0]):
                f = idx[0]
                if rw == 'w':
                    ex.oblige(s, 'a linked node keeps its key', z3.And(Hh(ex, s)[f] == 0, CAP(ex, s)[f] > 0), line)
                elif role == 'reader':
                    ex.oblige(s, 'the key read is that of a linked node', Hh(ex, s)[f] > 0, line, 'safety')
                else:
                    ex.oblige(s, 'the key read is that of a node', CAP(ex, s)[f] > 0, line, 'safety')
            elif key == PV and rw == 'w' and not is_stack(idx[0]) and p.tag is None:
                pv = getattr(ex, 'prev_at', s.aux.get('prev'))
                a = idx[0]
                ex.oblige(s, 'writes to prev stay inside it', z3.BoolVal(False) if pv is None else z3.And(pv != 0, pv <= a, a + 8 <= pv + 8 * TOPL), line, 'safety')
            elif key[0] == 'F' and key[1] == SL and rw == 'w' and role == 'reader':
                ex.oblige(s, 'readers do not write', z3.BoolVal(False), line)
        ex.access_hook = acc
        mhk = ex.fkey(SL, 'max_height_')

        def atomic(ex_, s, what, p, ty, order, line):
            if p.tag is None:
                return
            key, idx = p.tag
            if key == links(ex) and what == 'load' and role == 'reader':
                if not ex_.scan:
                    ex.oblige(s, 'links are followed with acquire order', z3.BoolVal(order in ACQ), line)
                w = lview(ex, s)
                f, l = idx
                y = ex.fresh('seen', Int)
                ex.assume_heap(s, y)
                s.assume(link_ok(w, f, l, y))
                ex.log_write(key, None)
                s.mem[key] = ex.upd(NX(ex, s), idx, y)
            elif key == mhk and what == 'load' and role == 'reader':
                h = ex.fresh('height_seen', Int)
                s.assume(1 <= h, h <= TOPL)
                ex.log_write(key, idx)
                s.mem[key] = ex.upd(ex.region(s, key), idx, h)
            elif key == links(ex) and what == 'store' and role == 'writer' and not ex_.scan:
                f, l = idx
                H = Hh(ex, s)
                s.aux['publishing'] = (f, l)
                ex.oblige(s, 'links of linked nodes are stored with release order', z3.Or(z3.BoolVal(order in REL), z3.Not(l < H[f])), line)

        def done(ex_, s, what, p, old, new, line):
            if p.tag is None or what != 'store':
                return
            key, idx = p.tag
            if key == links(ex):
                f, l = idx
                y = new.addr if isinstance(new, P) else new
                H = Hh(ex, s)
                I = INI(ex, s)
                if role == 'writer' and not ex_.scan:
                    ex.oblige(s, 'a node\'s links up to this level are initialised before it is published',
                              z3.Or(z3.Not(l < H[f]), y == 0, z3.And([z3.Implies(j <= l, I[y][j]) for j in range(TOPL)])), line)
                put(ex, s, 'INI', z3.Store(I, f, z3.Store(I[f], l, z3.BoolVal(True))))
                up = z3.And(l < H[f], f != y, y != 0, H[y] == l)
                d = ex.decide(s, up)
                put(ex, s, 'H', z3.Store(H, y, l + 1) if d else H if d is False else z3.If(up, z3.Store(H, y, l + 1), H))
                if role == 'writer' and not ex_.scan:
                    for lab, g in SI(ex, s, ex.list_at):
                        ex.oblige(s, lab + ' after the store to a link', z3.Implies(l < H[f], g), line)
            elif key == mhk and role == 'writer' and not ex_.scan:
                ex.oblige(s, 'the height is between 1 and 12 at all times', z3.And(1 <= new, new <= TOPL), line)
        ex.atomic_hook, ex.atomic_done = atomic, done
    return go


# ------------------------------------------------------------ contracts
class AllocC(FnSpec):
    """Arena::AllocateAligned (C09)"""
    name = r'^lsmdb::Arena::AllocateAligned\('

    def pre(self, c):
        return [('sensible size', z3.And(c.args[1] > 0, c.args[1] < (1 << 46)))]

    def modifies(self, c):
        CAP(c.ex, c.st)
        return {('CAP',): None}

    def post(self, c):
        ex, st = c.ex, c.st
        a, n = c.ret.addr, c.args[1]
        c0 = CAP(ex, c.old)
        st.aux['newnode'] = a
        return [('fresh', z3.And(a > 0, a + n < HEAPMAX, a % 8 == 0, c0[a] == 0)),
                ('room', CAP(ex, st) == z3.Store(c0, a, (n - off_links(ex)) / 8))]


def off_links(ex):
    return ex.fkey(ND, 'next_')[2]


class NewNodeC(FnSpec):
    name = NSK + r'NewNode\('

    def pre(self, c):
        return [('height in range', z3.And(1 <= c.args[2], c.args[2] <= TOPL))]

    def modifies(self, c):
        CAP(c.ex, c.st)
        KEY(c.ex, c.st)
        return {('CAP',): None, keyreg(c.ex): None}

    def post(self, c):
        ex, st = c.ex, c.st
        a = c.ret.addr
        c0, c1 = CAP(ex, c.old), CAP(ex, st)
        st.aux['newnode'] = a
        return [('a fresh node', z3.And(a > 0, a < HEAPMAX, c0[a] == 0)), ('with room for its links', z3.And(c1[a] >= c.args[2], c1 == z3.Store(c0, a, c1[a]))),
                ('holding the key', KEY(ex, st) == z3.Store(KEY(ex, c.old), a, keyval(ex, c.old, c.args[1])))]


class NewNodeT(NewNodeC):
    def pre(self, c):
        ex = c.ex
        ex.list_at = c.args[0].addr
        f = z3.Int('f!')
        H, cap = Hh(ex, c.st), CAP(ex, c.st)
        return [sane_list(c, c.args[0].addr)] + NewNodeC.pre(self, c) + [('linked nodes exist', z3.ForAll([f], z3.And(H[f] >= 0, H[f] <= cap[f]), patterns=[H[f]]))]


class HeightC(FnSpec):
    name = NSK + r'RandomHeight\('

    def modifies(self, c):
        k = ('F', 'Random', 0)
        c.ex.region(c.st, k, 'i32')
        return {k: [(c.args[0].addr + c.ex.fkey(SL, 'rnd_')[2],)]}

    def post(self, c):
        return [('between 1 and 12', z3.And(1 <= c.ret, c.ret <= TOPL))]


class NextC(FnSpec):
    """Random::Next: any draw"""
    name = r'^lsmdb::Random::Next\(\)'

    def modifies(self, c):
        k = ('F', 'Random', 0)
        c.ex.region(c.st, k, 'i32')
        return {k: [(c.args[0].addr,)]}


class HeightLoop(Loop):
    fn = r'::RandomHeight\('
    roles = {'h': ('i32', 'i64')}

    def inv(self, c):
        h = c.ex.A.signed(c.v['h'], 32)
        return [('height in range', z3.And(1 <= h, h <= TOPL))]

    def decreases(self, c):
        return TOPL - c.v['h']


def prank(v, x):
    return z3.If(x == v.head, -1, v.r(x))


def good(v, p, l, k):
    """p is the last node before key rank k on level l"""
    y = v.NX[p][l]
    return z3.And(p != 0, v.H[p] > l, z3.Or(p == v.head, v.r(p) < k), z3.Or(y == 0, v.r(y) >= k))


def cell(c, st, p, l):
    return c.ex.region(st, PV, 'ptr')[p + 8 * l]


class Search(FnSpec):
    """common to the searches: the list is sound, nothing but prev is written"""
    def pre(self, c):
        ex = c.ex
        L = c.args[0].addr
        if not getattr(c, 'caller', False):
            ex.list_at = L
        out = [sane_list(c, L)]
        if ex.role == 'reader':
            return out + base(View(ex, c.st, L))
        return out + SI(ex, c.st, L)

    def at_exit(self, c):
        # what a reader saw of a link is not a change of the list
        if c.ex.role == 'reader':
            for k in (links(c.ex), c.ex.fkey(SL, 'max_height_')):
                if k in c.st.mem:
                    if k in c.old.mem:
                        c.st.mem[k] = c.old.mem[k]
                    else:
                        del c.st.mem[k]

    def target(self, c):
        return RANK(named(c.ex, c.st, keyval(c.ex, c.old, c.args[1])))


class FindGE(Search):
    name = NSK + r'FindGreaterOrEqual\('

    def pre(self, c):
        p = c.args[2].addr
        if not getattr(c, 'caller', False):
            c.ex.prev_at = p
        out = Search.pre(self, c)
        if c.ex.role == 'reader':
            return out + [('readers ask for no predecessors', p == 0)]
        if is_stack(p):
            return out
        return out + [('prev is null or has 12 entries', z3.Or(p == 0, z3.And(p > 0, p + 8 * TOPL < HEAPMAX)))]

    def modifies(self, c):
        p = c.args[2].addr
        if is_num(p) and num(p) == 0:
            return {}
        c.ex.region(c.st, PV, 'ptr')
        return {PV: None}

    def post(self, c):
        ex, st = c.ex, c.st
        v = View(ex, st, c.args[0].addr)
        k, r, p = self.target(c), c.ret.addr, c.args[2].addr
        if getattr(c, 'caller', False):
            st.aux['prev'] = p
        out = [('a node at or after the key, or null', z3.Or(r == 0, z3.And(v.node(r), v.r(r) >= k))),
               ('the earliest such node', v.all(lambda g: z3.Implies(v.r(g) >= k, z3.And(r != 0, v.r(r) <= v.r(g)))))]
        if ex.role != 'reader' and not (is_num(p) and num(p) == 0):
            out += [('prev[%d] is the last node before the key on its level' % l, z3.Or(p == 0, z3.Not(l < v.mh), good(v, cell(c, st, p, l), l, k))) for l in range(TOPL)]
        return out


class FindLT(Search):
    name = NSK + r'FindLessThan\('

    def post(self, c):
        v = View(c.ex, c.st, c.args[0].addr)
        k, r = self.target(c), c.ret.addr
        return [('the head or a node before the key', z3.Or(r == v.head, z3.And(v.node(r), v.r(r) < k))),
                ('the latest such node', v.all(lambda g: z3.Implies(v.r(g) < k, z3.And(r != v.head, v.r(g) <= v.r(r)))))]


class FindLast(Search):
    name = NSK + r'FindLast\('

    def post(self, c):
        v = View(c.ex, c.st, c.args[0].addr)
        r = c.ret.addr
        return [('the head or a node', z3.Or(r == v.head, v.node(r))), ('no node comes after it', v.all(lambda g: z3.And(r != v.head, v.r(g) <= v.r(r))))]


class WalkLoop(Loop):
    fn = r'::Find(GreaterOrEqual|LessThan)\('
    """x moves right and down; it stays before the key"""
    roles = {'x': 'ptr', 'level': ('i32', 'i64')}
    last = False

    def inv(self, c):
        ex, st = c.ex, c.st
        L = ex.list_at
        v = View(ex, st, L)
        x, l = c.v['x'].addr, ex.A.signed(c.v['level'], 32)
        k = None if self.last else RANK(named(ex, st, keyval(ex, c.old, c.args[1])))
        out = [('level in range', z3.And(0 <= l, l < (TOPL if ex.role == 'reader' else v.mh))), ('the node has this level', z3.And(x != 0, v.H[x] > l))]
        if k is not None:
            out.append(('the node comes before the key', z3.Or(x == v.head, v.r(x) < k)))
        p = getattr(ex, 'prev_at', None)
        if p is not None and ex.role != 'reader':
            out += [('prev[%d] holds the last node before the key once the level is done' % j,
                     z3.Implies(z3.And(p != 0, l < j, j < v.mh), good(v, cell(c, st, p, j), j, k))) for j in range(TOPL)]
        return out

    def decreases(self, c):
        ex = c.ex
        v = View(ex, c.st, ex.list_at)
        return [ex.A.signed(c.v['level'], 32), (1 << 65) - prank(v, c.v['x'].addr)]


class LastLoop(WalkLoop):
    fn = r'::FindLast\('
    last = True


class RowLoop(WalkLoop):
    """a search written as two loops: this one moves right on a level"""
    roles = {'x': 'ptr', 'next': 'ptr', 'level': ('outer i32', 'outer i64')}
    optional = ('next',)

    def inv(self, c):
        v = View(c.ex, c.st, c.ex.list_at)
        out = WalkLoop.inv(self, c)
        if c.v['next'] is None:
            return out
        x, y, l = c.v['x'].addr, c.v['next'].addr, c.ex.A.signed(c.v['level'], 32)
        if c.ex.role == 'reader':
            return out + [('next is a node the link may lead to', link_ok(v, x, l, y))]
        return out + [('next is the node the link leads to', y == v.NX[x][l])]

    def decreases(self, c):
        v = View(c.ex, c.st, c.ex.list_at)
        return [(1 << 65) - prank(v, c.v['x'].addr)]


class ColumnLoop(WalkLoop):
    """... and this one moves down at a node"""
    roles = {'level': ('i32', 'i64'), 'x': 'outer ptr'}

    def inv(self, c):
        A = c.ex.A
        return WalkLoop.inv(self, c) + [('moves down only', A.signed(c.v['level'], 32) <= A.signed(c.e['level'], 32))]

    def decreases(self, c):
        return [c.ex.A.signed(c.v['level'], 32)]


class LastRowLoop(RowLoop):
    fn = r'::FindLast\('
    last = True


class LastColumnLoop(ColumnLoop):
    fn = r'::FindLast\('
    last = True


def contains_post(c):
    v = View(c.ex, c.st, c.args[0].addr)
    k = RANK(named(c.ex, c.st, keyval(c.ex, c.old, c.args[1])))
    return [('false only if no key compares equal', z3.Implies(z3.Not(c.ret), v.all(lambda g: v.r(g) != k))),
            ('true only if a node with an equal key is in the list', z3.Implies(c.ret, z3.Not(v.all_nodes(lambda g: v.r(g) != k))))]


class ContainsT(Search):
    def post(self, c):
        return contains_post(c)


# ------------------------------------------------------------ iterators
class ItOp(Search):
    """operations of an iterator that is invalid or positioned at a node"""
    needs_valid = False
    key_arg = False

    def pre(self, c):
        ex, st = c.ex, c.st
        t = c.args[0].addr
        L = fld(ex, st, IT, 'list_')[t]
        ex.list_at = L
        v = View(ex, st, L)
        n = fld(ex, st, IT, 'node_')[t]
        out = [('iterator in memory', z3.And(t > 0, t + 16 < HEAPMAX)), ('list in memory', z3.And(L > 0, L + 64 < HEAPMAX))]
        out += base(v) if ex.role == 'reader' else SI(ex, st, L)
        return out + [('the iterator is invalid or at a node', z3.Or(n == 0, v.node(n)) if not self.needs_valid else v.node(n))]

    def modifies(self, c):
        return {c.ex.fkey(IT, 'node_'): [(c.args[0].addr,)]}

    def now(self, c, st=None):
        return fld(c.ex, st or c.st, IT, 'node_')[c.args[0].addr]

    def post(self, c):
        v = View(c.ex, c.st, c.ex.list_at)
        n = self.now(c)
        return [('invalid or at a node', z3.Or(n == 0, v.node(n)))] + self.moved(c, v, n)


class ItNext(ItOp):
    needs_valid = True

    def moved(self, c, v, n):
        o = self.now(c, c.old)
        return [('moves to a greater key', z3.Implies(n != 0, v.r(n) > v.r(o))),
                ('skips no key', v.all(lambda g: z3.Implies(v.r(g) > v.r(o), z3.And(n != 0, v.r(n) <= v.r(g)))))]


class ItPrev(ItOp):
    needs_valid = True

    def moved(self, c, v, n):
        o = self.now(c, c.old)
        return [('moves to a smaller key', z3.Implies(n != 0, v.r(n) < v.r(o))),
                ('skips no key', v.all(lambda g: z3.Implies(v.r(g) < v.r(o), z3.And(n != 0, v.r(n) >= v.r(g)))))]


class ItSeek(ItOp):
    def moved(self, c, v, n):
        k = self.target(c)
        return [('lands at or after the target', z3.Implies(n != 0, v.r(n) >= k)),
                ('on the first such key', v.all(lambda g: z3.Implies(v.r(g) >= k, z3.And(n != 0, v.r(n) <= v.r(g)))))]


class ItFirst(ItOp):
    def moved(self, c, v, n):
        return [('lands on the first key, if any', v.all(lambda g: z3.And(n != 0, v.r(n) <= v.r(g))))]


class ItLast(ItOp):
    def moved(self, c, v, n):
        return [('lands on the last key, if any', v.all(lambda g: z3.And(n != 0, v.r(n) >= v.r(g))))]


class ItKey(ItOp):
    needs_valid = True

    def modifies(self, c):
        return {}

    def moved(self, c, v, n):
        p = c.ret
        return [('refers to the key of the current node', z3.And(z3.BoolVal(p.tag is not None and p.tag[0] == keyreg(c.ex)), (p.tag[1][0] if p.tag else p.addr) == n))]


class ItValid(ItOp):
    def modifies(self, c):
        return {}

    def moved(self, c, v, n):
        return [('valid exactly when at a node', c.ret == (n != 0))]


class ItCtor(FnSpec):
    def pre(self, c):
        t = c.args[0].addr
        c.ex.list_at = c.args[1].addr
        return [('iterator in memory', z3.And(t > 0, t + 16 < HEAPMAX))]

    def modifies(self, c):
        t = c.args[0].addr
        return {c.ex.fkey(IT, 'node_'): [(t,)], c.ex.fkey(IT, 'list_'): [(t,)]}

    def post(self, c):
        t = c.args[0].addr
        return [('over the given list, not valid', z3.And(fld(c.ex, c.st, IT, 'list_')[t] == c.args[1].addr, fld(c.ex, c.st, IT, 'node_')[t] == 0))]


# ------------------------------------------------------------ insertion
def goodlt(v, p, l, k):
    y = v.NX[p][l]
    return z3.And(p != 0, v.H[p] > l, z3.Or(p == v.head, v.r(p) < k), z3.Or(y == 0, v.r(y) > k))


class InsertT(Search):
    def pre(self, c):
        out = Search.pre(self, c)
        v = View(c.ex, c.st, c.args[0].addr)
        k = self.target(c)
        return out + [('no key in the list compares equal', v.all_nodes(lambda g: v.r(g) != k))]

    def modifies(self, c):
        ex = c.ex
        L = c.args[0].addr
        m = HeightC().modifies(c)
        for k in (('H',), ('CAP',), ('INI',), links(ex), keyreg(ex), PV):
            m[k] = None
        m[ex.fkey(SL, 'max_height_')] = [(L,)]
        return m

    def post(self, c):
        ex, st = c.ex, c.st
        L = c.args[0].addr
        x = st.aux.get('newnode')
        if x is None:
            return [('a node is inserted', z3.BoolVal(False))]
        k = self.target(c)
        H0, H1, K0, K1 = Hh(ex, c.old), Hh(ex, st), KEY(ex, c.old), KEY(ex, st)
        return SI(ex, st, L) + [('exactly one node is added', z3.And(H0[x] == 0, H1[x] > 0, x != head_of(ex, st, L), H1 == z3.Store(H0, x, H1[x]))),
                                ('it holds the key', z3.And(K1 == z3.Store(K0, x, K1[x]), RANK(K1[x]) == k)),
                                ('the head stays', head_of(ex, st, L) == head_of(ex, c.old, L))]


class RaiseLoop(Loop):
    """the levels the list did not have start at the head"""
    roles = {'i': ('i32', 'i64')}
    fn = r'::Insert\('

    def applies(self, ex, st):
        return st.aux.get('newnode') is None

    def inv(self, c):
        ex, st = c.ex, c.st
        i = ex.A.signed(c.v['i'], 32)
        v = View(ex, st, ex.list_at)
        k = RANK(named(ex, st, keyval(ex, c.old, c.args[1])))
        p = st.aux['prev']
        i0 = ex.A.signed(c.e['i'], 32)
        return [('index in range', z3.And(i0 <= i, i <= TOPL))] + [
            ('the predecessor on level %d is known' % j, z3.Implies(j < i, goodlt(v, cell(c, st, p, j), j, k))) for j in range(TOPL)]

    def decreases(self, c):
        return TOPL - c.v['i']


class LinkLoop(Loop):
    """the new node is linked on the levels below i"""
    roles = {'i': ('i32', 'i64')}
    fn = r'::Insert\('

    def applies(self, ex, st):
        return st.aux.get('newnode') is not None

    def inv(self, c):
        ex, st = c.ex, c.st
        i = ex.A.signed(c.v['i'], 32)
        x, p = st.aux['newnode'], st.aux['prev']
        v = View(ex, st, ex.list_at)
        e = c.entry
        k = RANK(named(ex, st, keyval(ex, c.old, c.args[1])))
        H0 = named(ex, st, Hh(ex, c.old))
        NX0 = named(ex, st, NX(ex, e))
        cap = CAP(ex, st)[x]
        out = [('index in range', z3.And(0 <= i, i <= TOPL)),
               ('the new node is linked on exactly the levels below', z3.And(Hh(ex, st) == z3.Store(H0, x, v.H[x]), v.H[x] == i))]
        out += SI(ex, st, ex.list_at)
        out += [('the predecessor on level %d is known' % j, z3.Implies(z3.And(i <= j, j < cap, j < v.mh), z3.And(goodlt(v, cell(c, st, p, j), j, k), cell(c, st, p, j) != x))) for j in range(TOPL)]
        out += [
                ('the links of the new node above are as before', z3.And([z3.Implies(i <= j, z3.And(v.NX[x][j] == NX0[x][j], INI(ex, st)[x][j] == INI(ex, e)[x][j])) for j in range(TOPL)])),
                ('the links of the new node below are initialised', z3.And([z3.Implies(j < i, INI(ex, st)[x][j]) for j in range(TOPL)]))]
        return out

    def decreases(self, c):
        return TOPL - c.v['i']


def ctor_pre(c):
    ex = c.ex
    L = c.args[0].addr
    ex.list_at = L
    put(ex, c.st, 'H', z3.K(Int, z3.IntVal(0)))
    put(ex, c.st, 'CAP', z3.K(Int, z3.IntVal(0)))
    return [sane_list(c, L)]


def ctor_post(c):
    ex, st = c.ex, c.st
    L = c.args[0].addr
    h = head_of(ex, st, L)
    H = z3.Store(z3.K(Int, z3.IntVal(0)), h, z3.IntVal(TOPL))
    f = z3.Int('f!')
    return SI(ex, st, L, H) + [('no key is in it', z3.And(Hh(ex, st) == z3.K(Int, z3.IntVal(0)), z3.BoolVal(True)))]


def list_tasks(role):
    rd = 'seq' if role == 'C10' else 'reader'
    wr = 'seq' if role == 'C10' else 'writer'
    kw = dict(models=MODELS)
    def t(name, fn, spec, r, loops=(), contracts=(), **k):
        return Task(name, NSK + fn, spec, 'int', config=cfg(r), loops=loops, contracts=contracts, models=MODELS, **k)
    out = [simple('Random::Next frame', r'^lsmdb::Random::Next\(\)', None, None, lambda c: NextC().modifies(c), config=cfg('seq')),
           t('NewNode', r'NewNode\(', NewNodeT, wr, contracts=[AllocC], helper=True),
           t('RandomHeight', r'RandomHeight\(', HeightC, wr, [HeightLoop], [NextC], helper=True)]
    fg = (r'FindGreaterOrEqual\(', FindGE)
    out += [t('FindGreaterOrEqual', *fg, rd, [WalkLoop, RowLoop, ColumnLoop], helper=True),
            t('FindLessThan', r'FindLessThan\(', FindLT, rd, [WalkLoop, RowLoop, ColumnLoop], helper=True),
            t('FindLast', r'FindLast\(', FindLast, rd, [LastLoop, LastRowLoop, LastColumnLoop], helper=True)]
    F = [FindGE, FindLT, FindLast]
    L = [WalkLoop, LastLoop, RowLoop, LastRowLoop, ColumnLoop, LastColumnLoop]
    out += [t('Contains', r'Contains\(', ContainsT, rd, L, F),
            t('Iterator()', r'Iterator::Iterator\(', ItCtor, rd), t('Valid', r'Iterator::Valid\(', ItValid, rd), t('key', r'Iterator::key\(', ItKey, rd),
            t('Next', r'Iterator::Next\(', ItNext, rd), t('Prev', r'Iterator::Prev\(', ItPrev, rd, L, F), t('Seek', r'Iterator::Seek\(', ItSeek, rd, L, F),
            t('SeekToFirst', r'Iterator::SeekToFirst\(', ItFirst, rd), t('SeekToLast', r'Iterator::SeekToLast\(', ItLast, rd, L, F)]
    W = [FindGE, NewNodeC, HeightC]
    if role == 'C11':
        class WFindGE(FindGE):
            pass
        out.append(t('FindGreaterOrEqual (writer)', r'FindGreaterOrEqual\(', FindGE, 'writer', [WalkLoop, RowLoop, ColumnLoop], helper=True))
    out += [t('Insert', r'Insert\(', InsertT, wr, [RaiseLoop, LinkLoop, WalkLoop, RowLoop, ColumnLoop, HeightLoop], W + [AllocC, NextC]),
            simple('SkipList()', NSK + r'SkipList\(', ctor_pre, ctor_post, None, no_frame=True, contracts=[NewNodeC, AllocC], config=cfg('seq'), models=MODELS)]
    return out

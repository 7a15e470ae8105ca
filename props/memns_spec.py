"""The namespace of the in-memory environment: a trusted contract of std::map<string, FileState*> and the invariant of
names, reference counts and handles.

Ghost state: HAS (name -> present), FILE (address -> a FileState lives there), HND (file -> open handles on it), NAMEOF (file ->
its name, when it has one).  A map entry of key k lives in the node NODE(k); the stored file is the node's real memory.
"""
from .memfile_spec import *
from .C25 import shared, put

KeyS = z3.DeclareSort('FileName')
BYTES = z3.SeqSort(Int)
K = z3.Function('name_of_bytes', BYTES, KeyS)
KS = z3.Function('bytes_of_name', KeyS, BYTES)
NODE = z3.Function('node_of_name', KeyS, Int)
KEYOF = z3.Function('name_of_node', Int, KeyS)
KEYAT = z3.Function('nth_name', Int, KeyS)
IX = z3.Function('rank_of_name', KeyS, Int)
COUNT = z3.Const('names', Int)
SETS = z3.ArraySort(KeyS, z3.BoolSort())
BOOLS = z3.ArraySort(Int, z3.BoolSort())
NAMES = z3.ArraySort(Int, KeyS)
INTS = z3.ArraySort(Int, Int)
ENV = 'InMemoryEnv'
VAL = ('F', 'pair', 32)
NSN = NSX + ENV + '::'


def HAS(ex, st):
    return shared(ex, st, 'HAS', SETS)


def FILE(ex, st):
    return shared(ex, st, 'FILE', BOOLS)


def HND(ex, st):
    return shared(ex, st, 'HND', INTS)


def NAMEOF(ex, st):
    return shared(ex, st, 'NAMEOF', NAMES)


def val(ex, st, k):
    return ex.region(st, VAL, 'ptr')[NODE(k) + 32]


def keyof_str(ex, st, a):
    s = M.str_get(ex, st, a)
    k = K(s)
    st.assume(KS(k) == s)
    return k


def this(ex):
    return ex.root_args[ex.this_ix].addr


def mapaddr(ex):
    return this(ex) + ex.fkey(ENV, 'file_map_')[2]


def END(ex):
    return mapaddr(ex) + 8


def envmu(ex):
    return this(ex) + ex.fkey(ENV, 'mutex_')[2]


def map_axioms(ex):
    k = z3.Const('k!m', KeyS)
    i = z3.Int('i!m')
    e = END(ex)
    return [z3.ForAll([k], z3.And(KEYOF(NODE(k)) == k, NODE(k) > 0, NODE(k) + 72 < HEAPMAX, z3.Or(NODE(k) + 72 <= this(ex), this(ex) + 200 <= NODE(k))), patterns=[NODE(k)])]


def enum_axioms(ex, st):
    """the names present now, in the map's order"""
    h = HAS(ex, st)
    k = z3.Const('k!e', KeyS)
    i = z3.Int('i!e')
    st.ghost['enum'] = h
    st.assume(COUNT >= 0, COUNT < (1 << 57),
              z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < COUNT), z3.And(h[KEYAT(i)], IX(KEYAT(i)) == i)), patterns=[KEYAT(i)]),
              z3.ForAll([k], z3.Implies(h[k], z3.And(0 <= IX(k), IX(k) < COUNT, KEYAT(IX(k)) == k)), patterns=[IX(k)]))


def use(ex, st, a, ins, change=False):
    ex.oblige(st, 'the environment\'s own map', a.addr == mapaddr(ex), ins.line)
    ex.oblige(st, 'the namespace is only touched with its mutex held', held(st, envmu(ex)) if not getattr(ex, 'exclusive', False) else z3.BoolVal(True), ins.line)


def entry_facts(ex, st, k):
    st.assume(z3.Implies(HAS(ex, st)[k], M.str_get(ex, st, NODE(k) + 32) == KS(k)))


def m_find(ex, st, a, ins, dem):
    use(ex, st, a[0], ins)
    k = keyof_str(ex, st, a[1].addr)
    entry_facts(ex, st, k)
    outs = []
    for there in (True, False):
        g = HAS(ex, st)[k] if there else z3.Not(HAS(ex, st)[k])
        if not ex.feasible(st, g):
            continue
        s = st.fork()
        s.assume(g)
        outs.append((s, P(NODE(k) if there else END(ex))))
    return outs


def m_count(ex, st, a, ins, dem):
    use(ex, st, a[0], ins)
    return z3.If(HAS(ex, st)[keyof_str(ex, st, a[1].addr)], z3.IntVal(1), z3.IntVal(0))


def m_end(ex, st, a, ins, dem):
    use(ex, st, a[0], ins)
    return P(END(ex))


def at_pos(ex, i):
    return z3.If(i < COUNT, NODE(KEYAT(i)), END(ex))


def m_begin(ex, st, a, ins, dem):
    use(ex, st, a[0], ins)
    if 'enum' not in st.ghost:
        enum_axioms(ex, st)
    ex.oblige(st, 'the namespace is enumerated as it was', st.ghost['enum'] == HAS(ex, st), ins.line)
    step_facts(ex, st, z3.IntVal(0))
    return P(at_pos(ex, z3.IntVal(0)))


def step_facts(ex, st, i):
    k = KEYAT(i)
    st.assume(z3.Implies(z3.And(0 <= i, i < COUNT), M.str_get(ex, st, NODE(k) + 32) == KS(k)))
    h = getattr(ex, 'on_step', None)
    if h:
        h(ex, st, i)


def m_index(ex, st, a, ins, dem):
    """operator[]: creates a null entry when there is none"""
    use(ex, st, a[0], ins)
    k = keyof_str(ex, st, a[1].addr)
    n = z3.If(HAS(ex, st)[k], val(ex, st, k), z3.IntVal(0))
    ex.log_write(VAL, (NODE(k) + 32,))
    st.mem[VAL] = ex.upd(ex.region(st, VAL, 'ptr'), (NODE(k) + 32,), n)
    put(ex, st, 'HAS', z3.Store(HAS(ex, st), k, z3.BoolVal(True)))
    entry_facts(ex, st, k)
    return P(NODE(k) + 32 + 32, (VAL, (NODE(k) + 32,)))


def m_erase_key(ex, st, a, ins, dem):
    use(ex, st, a[0], ins)
    k = keyof_str(ex, st, a[1].addr)
    h = HAS(ex, st)
    put(ex, st, 'HAS', z3.Store(h, k, z3.BoolVal(False)))
    return z3.If(h[k], z3.IntVal(1), z3.IntVal(0))


def m_erase_it(ex, st, a, ins, dem):
    use(ex, st, a[0], ins)
    n = a[1].addr
    k = KEYOF(n)
    h = HAS(ex, st)
    ex.oblige(st, 'only an entry of the map is erased through an iterator', z3.And(n == NODE(k), h[k]), ins.line, 'safety')
    put(ex, st, 'HAS', z3.Store(h, k, z3.BoolVal(False)))
    return P(ex.fresh('next', Int))


def m_emplace(ex, st, a, ins, dem):
    use(ex, st, a[0], ins)
    k = keyof_str(ex, st, a[1].addr)
    h = HAS(ex, st)
    n = z3.If(h[k], val(ex, st, k), ex.load(st, a[2], 'ptr', ins.line).addr)
    ex.log_write(VAL, (NODE(k) + 32,))
    st.mem[VAL] = ex.upd(ex.region(st, VAL, 'ptr'), (NODE(k) + 32,), n)
    put(ex, st, 'HAS', z3.Store(h, k, z3.BoolVal(True)))
    return [(st, [P(NODE(k)), z3.If(h[k], z3.IntVal(0), z3.IntVal(1))])]


def itp(p, const=False):
    nm = '_Rb_tree_const_iterator' if const else '_Rb_tree_iterator'
    return P(p.addr, (('F', nm, 0), (p.addr,)))


def it_load(ex, st, p, ins, dem):
    return ex.load(st, itp(p, 'const_iterator' in dem.split('::operator')[0].split('<')[0]), 'ptr', ins.line).addr


def m_deref(ex, st, a, ins, dem):
    n = it_load(ex, st, a[0], ins, dem)
    k = KEYOF(n)
    ex.oblige(st, 'an iterator is dereferenced only on an entry of the map', z3.And(n == NODE(k), HAS(ex, st)[k]), ins.line, 'safety')
    entry_facts(ex, st, k)
    return P(n + 32)


def m_incr(ex, st, a, ins, dem):
    n = it_load(ex, st, a[0], ins, dem)
    k = KEYOF(n)
    i = IX(k) + 1
    if 'enum' not in st.ghost:
        raise Unsupported('increment of an iterator outside an enumeration')
    ex.oblige(st, 'an iterator is advanced only from an entry of the unchanged map', z3.And(n == NODE(k), HAS(ex, st)[k], st.ghost['enum'] == HAS(ex, st)), ins.line, 'safety')
    step_facts(ex, st, i)
    ex.store(st, itp(a[0], 'const_iterator' in dem.split('::operator')[0].split('<')[0]), 'ptr', P(at_pos(ex, i)), ins.line)
    return a[0]


def m_itcopy(ex, st, a, ins, dem):
    ex.store(st, itp(a[0], True), 'ptr', ex.load(st, itp(a[1]), 'ptr', ins.line), ins.line)
    return None


def m_eq(ex, st, a, ins, dem):
    const = dem.find('_const_iterator') >= 0
    x, y = (ex.load(st, itp(p, const), 'ptr', ins.line).addr for p in a[:2])
    return x != y if 'operator!=' in dem else x == y


MAP = r'^(.* )?std::map<.*FileState\*.*>::'
IT = r'^std::_Rb_tree_(const_)?iterator<.*FileState\*.*>::'
MAP_MODELS = [(re.compile(p), f) for p, f in [
    (MAP + r'find\(', m_find), (MAP + r'count\(', m_count), (MAP + r'c?end\(\)', m_end), (MAP + r'c?begin\(\)', m_begin), (MAP + r'operator\[\]\(', m_index),
    (MAP + r'erase\(std::__cxx11', m_erase_key), (MAP + r'erase(\[abi:cxx11\])?\(std::_Rb_tree_', m_erase_it), (MAP + r'(emplace|try_emplace)<', m_emplace),
    (IT + r'operator(->|\*)\(\) const', m_deref), (IT + r'operator\+\+\(\)', m_incr), (IT + r'_Rb_tree_const_iterator\(', m_itcopy),
    (r'^std::operator(==|!=)\(std::_Rb_tree_', m_eq),
    (MAP + r'map\(\)', lambda ex, st, a, ins, dem: put(ex, st, 'HAS', z3.K(KeyS, z3.BoolVal(False)))), (MAP + r'~map\(\)', lambda ex, st, a, ins, dem: None)]]
MAP_TRUST = ['std::map is a finite map whose iterators enumerate its keys once each and whose entries stay where they are (ISO C++)']


# ------------------------------------------------------------ invariant
def named_file(ex, st, f, has=None, vals=None, nm=None):
    """the file has a name"""
    has = HAS(ex, st) if has is None else has
    vals = ex.region(st, VAL, 'ptr') if vals is None else vals
    nm = NAMEOF(ex, st) if nm is None else nm
    return z3.And(has[nm[f]], vals[NODE(nm[f]) + 32] == f)


def INV(c, st, nameof=None, hnd=None, has=None):
    ex = c.ex
    has, fl, hd, nm = (named(ex, st, x) for x in (HAS(ex, st) if has is None else has, FILE(ex, st), HND(ex, st) if hnd is None else hnd, NAMEOF(ex, st) if nameof is None else nameof))
    vals = named(ex, st, ex.region(st, VAL, 'ptr'))
    refs = named(ex, st, c.F(FS, 'refs_', st))
    k = z3.Const('k!i', KeyS)
    f = z3.Int('f!i')
    v = vals[NODE(k) + 32]
    return [('every name holds a file of its own', z3.ForAll([k], z3.Implies(has[k], z3.And(v != 0, fl[v], nm[v] == k)), patterns=[has[k], NODE(k)])),
            ('a file lives exactly while it has a name or an open handle, each counted once',
             z3.ForAll([f], z3.Implies(fl[f], z3.And(in_mem(f), hd[f] >= 0, refs[f] >= 1, refs[f] == hd[f] + z3.If(named_file(ex, st, f, has, vals, nm), 1, 0))), patterns=[fl[f], nm[f]])),
            ('only live files have handles', z3.ForAll([f], z3.Implies(z3.Not(fl[f]), hd[f] == 0), patterns=[hd[f]]))]


def same_names(c, except_=()):
    """every other name is untouched"""
    ex = c.ex
    k = z3.Const('k!s', KeyS)
    h1, h0 = named(ex, c.st, HAS(ex, c.st)), HAS(ex, c.old)
    v1, v0 = named(ex, c.st, ex.region(c.st, VAL, 'ptr')), ex.region(c.old, VAL, 'ptr')
    return z3.ForAll([k], z3.Implies(z3.And([k != x for x in except_] + [z3.BoolVal(True)]),
                                     z3.And(h1[k] == h0[k], z3.Implies(h0[k], v1[NODE(k) + 32] == v0[NODE(k) + 32]))), patterns=[h1[k], h0[k], NODE(k)])


def same_files(c, except_=()):
    """every other file is untouched: it lives, with its content"""
    ex = c.ex
    f = z3.Int('f!s')
    st, old = c.st, c.old
    l1, l0 = named(ex, st, FILE(ex, st)), FILE(ex, old)
    s1, s0 = named(ex, st, c.F(FS, 'size_', st)), c.F(FS, 'size_', old)
    r1, r0 = named(ex, st, c.F(FS, 'refs_', st)), c.F(FS, 'refs_', old)
    o = ex.fkey(FS, 'blocks_')[2]
    n1, n0 = (ghost_map(ex, s, 'VN', Int, 'i64') for s in (st, old))
    e1, e0 = (ghost_map(ex, s, 'VE', ARR, 'arr') for s in (st, old))
    n1, e1 = named(ex, st, n1), named(ex, st, e1)
    return z3.ForAll([f], z3.Implies(z3.And([f != x for x in except_] + [z3.BoolVal(True)]),
                                     z3.And(l1[f] == l0[f], z3.Implies(l0[f], z3.And(r1[f] == r0[f], s1[f] == s0[f], n1[f + o] == n0[f + o], e1[f + o] == e0[f + o])))),
                     patterns=[l1[f], l0[f]])


def content_kept(c, f):
    ex = c.ex
    o = ex.fkey(FS, 'blocks_')[2]
    return z3.And(fsize(c, f) == fsize(c, f, c.old), VN(ex, c.st, f + o) == VN(ex, c.old, f + o), VE(ex, c.st, f + o) == VE(ex, c.old, f + o))


# ------------------------------------------------------------ contracts of the parts
def refs_free(c, f):
    return z3.Not(held(c.st, f + off(c.ex, 'refs_mutex_')))


def blocks_free(c, f):
    return z3.Not(held(c.st, f + off(c.ex, 'blocks_mutex_')))


class RefC(FnSpec):
    """FileState::Ref"""
    name = '^' + NSX + r'FileState::Ref\(\)'

    def pre(self, c):
        f = c.args[0].addr
        return [('a live file', FILE(c.ex, c.st)[f]), ('mutex free', refs_free(c, f)), ('fewer than 2^31 - 1 references', frefs(c, f) < (1 << 31) - 1)]

    def post(self, c):
        f = c.args[0].addr
        return [('one reference more', frefs(c, f) == frefs(c, f, c.old) + 1)]

    def modifies(self, c):
        return {c.ex.fkey(FS, 'refs_'): [(c.args[0].addr,)]}


class UnrefC(FnSpec):
    """FileState::Unref"""
    name = '^' + NSX + r'FileState::Unref\(\)'

    def pre(self, c):
        f = c.args[0].addr
        return [('a live file', FILE(c.ex, c.st)[f]), ('at least one reference', frefs(c, f) >= 1), ('mutexes free', z3.And(refs_free(c, f), blocks_free(c, f)))]

    def post(self, c):
        ex = c.ex
        f = c.args[0].addr
        r = frefs(c, f, c.old)
        v = fvec(ex, f)
        return [('the last reference frees the file, exactly then', FILE(ex, c.st) == z3.Store(FILE(ex, c.old), f, r > 1)),
                ('one reference less', z3.Implies(r > 1, frefs(c, f) == r - 1)),
                ('a file still referenced keeps its content', z3.Implies(r > 1, content_kept(c, f))),
                ('the mutexes are as before', c.st.ghost['held'] == c.old.ghost['held'])]

    def modifies(self, c):
        ex = c.ex
        f = c.args[0].addr
        FILE(ex, c.st)
        VN(ex, c.st, fvec(ex, f)), VE(ex, c.st, fvec(ex, f)), M.live(ex, c.st)
        return {('FILE',): None, ('LIVE',): None, ex.fkey(FS, 'refs_'): [(f,)], ex.fkey(FS, 'size_'): [(f,)], ('VN',): [(fvec(ex, f),)]}


class DtorC(FnSpec):
    """~FileState (C16: frees exactly the file's blocks)"""
    name = '^' + NSX + r'FileState::~FileState\(\)'

    def pre(self, c):
        return [('mutexes free', z3.And(refs_free(c, c.args[0].addr), blocks_free(c, c.args[0].addr)))]

    def modifies(self, c):
        ex = c.ex
        f = c.args[0].addr
        VN(ex, c.st, fvec(ex, f)), M.live(ex, c.st)
        return {('LIVE',): None, ex.fkey(FS, 'size_'): [(f,)], ('VN',): [(fvec(ex, f),)]}


class TruncC(FnSpec):
    """FileState::Truncate (proved in C16)"""
    name = '^' + NSX + r'FileState::Truncate\(\)'

    def pre(self, c):
        f = c.args[0].addr
        return [('a live file', FILE(c.ex, c.st)[f]), ('mutex free', blocks_free(c, f))]

    def post(self, c):
        ex = c.ex
        f = c.args[0].addr
        return [('empty', z3.And(fsize(c, f) == 0, VN(ex, c.st, fvec(ex, f)) == 0)), ('the mutexes are as before', c.st.ghost['held'] == c.old.ghost['held'])]

    modifies = DtorC.modifies


class SizeC(FnSpec):
    """FileState::Size (proved in C16)"""
    name = '^' + NSX + r'FileState::Size\(\)'

    def pre(self, c):
        f = c.args[0].addr
        return [('a live file', FILE(c.ex, c.st)[f]), ('mutex free', blocks_free(c, f))]

    def post(self, c):
        return [('the size', c.ret == fsize(c, c.args[0].addr)), ('the mutexes are as before', c.st.ghost['held'] == c.old.ghost['held'])]


class NewC(FnSpec):
    """FileState() (proved in C16)"""
    name = '^' + NSX + r'FileState::FileState\(\)'

    def pre(self, c):
        return [('memory for a file', z3.And(in_mem(c.args[0].addr), z3.Not(FILE(c.ex, c.st)[c.args[0].addr])))]

    def post(self, c):
        ex = c.ex
        f = c.args[0].addr
        return [('empty, without references', z3.And(frefs(c, f) == 0, fsize(c, f) == 0, VN(ex, c.st, fvec(ex, f)) == 0)), ('a file', FILE(ex, c.st) == z3.Store(FILE(ex, c.old), f, z3.BoolVal(True))),
                ('its mutexes are free', z3.And(refs_free(c, f), blocks_free(c, f)))]

    def modifies(self, c):
        ex = c.ex
        f = c.args[0].addr
        FILE(ex, c.st), VN(ex, c.st, f)
        m = vmods(c, fvec(ex, f))
        VE(ex, c.st, f), VI(ex, c.st, f), VD(ex, c.st, f)
        m.pop(('LIVE',)), m.pop(('EVER',)), m.pop(('E', 'ptr'))
        m.update({('FILE',): None, ex.fkey(FS, 'refs_'): [(f,)], ex.fkey(FS, 'size_'): [(f,)]})
        return m


def handle_contract(cls):
    class H(FnSpec):
        name = '^' + NSX + cls + '::' + cls + r'\('

        def pre(self, c):
            ex = c.ex
            f = c.args[1].addr
            p = [('a live file', FILE(ex, c.st)[f]), ('its mutex is free', refs_free(c, f)), ('fewer than 2^31 - 1 references', frefs(c, f) < (1 << 31) - 1)]
            if not getattr(ex, 'exclusive', False):
                p.append(('a handle is opened under the namespace\'s mutex', held(c.st, envmu(ex))))
            return p

        def post(self, c):
            ex = c.ex
            t, f = c.args[0].addr, c.args[1].addr
            out = [('on this file', c.F(cls, 'file_')[t] == f), ('one reference taken', frefs(c, f) == frefs(c, f, c.old) + 1),
                   ('one handle more', HND(ex, c.st) == z3.Store(HND(ex, c.old), f, HND(ex, c.old)[f] + 1))]
            if cls == 'SequentialFileImpl':
                out.append(('from its start', c.F(cls, 'pos_')[t] == 0))
            return out

        def modifies(self, c):
            ex = c.ex
            t = c.args[0].addr
            HND(ex, c.st)
            m = {('HND',): None, ex.fkey(FS, 'refs_'): [(c.args[1].addr,)], ex.fkey(cls, 'file_'): [(t,)]}
            if cls == 'SequentialFileImpl':
                m[ex.fkey(cls, 'pos_')] = [(t,)]
            return m
    return H

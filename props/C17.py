"""The in-memory namespace: names, listing, reference counts and the life of files."""
from .memns_spec import *

TUS = ['memenv', 'inline_inst', 'env']
DRIVER = {'src': 'memfile.cc', 'sources': ['helpers/memenv/memenv.cc', 'util/env.cc', 'util/status.cc', 'util/env_posix.cc', 'util/logging.cc'], 'extra': ['-lpthread'], 'configs': [{'sanitize': 'address,undefined'}, {'sanitize': 'thread'}]}
DRIVER_SECS = 20
TRUST = SYNC_TRUST + STATUS_TRUST + MAP_TRUST + VEC_TRUST + ['operator new returns memory no live file occupies (ISO C++)']
ASSUME = ['fewer than 2^31 - 1 handles on one file', 'callers pass handles and environments that have not been destroyed',
          'FileState\'s members are private: its block-list invariant is what C16 proves each of its operations to establish and keep']

LIST = z3.DeclareSort('ListOfNames')
NIL = z3.Const('no_names', LIST)
APP = z3.Function('with_name', LIST, BYTES, LIST)
LISTF = z3.Function('listing_of_first', Int, LIST)


def base_cfg(this_ix, exclusive=False, more=None):
    def cfg(ex, st):
        init_held(st)
        ex.this_ix = this_ix
        ex.exclusive = exclusive
        ex.light = True
        HAS(ex, st), FILE(ex, st), HND(ex, st), NAMEOF(ex, st)
        st.ghost['locks'] = z3.IntVal(0)

        def alloc(ex_, s, a, n):
            s.assume(a > 0, a + n < HEAPMAX, a % 16 == 0, z3.Not(FILE(ex, s)[a]))
        ex.alloc_hook = alloc

        def on_lock(ex_, s, mu):
            n = s.ghost['locks']
            s.ghost['locks'] = z3.If(mu == envmu(ex), n + 1, n)
        ex.on_lock = on_lock

        def on_unlock(ex_, s, mu, ins):
            ex.oblige(s, 'an operation is one critical section of the namespace', z3.Implies(mu == envmu(ex), s.ghost['locks'] == 1), ins.line)
        ex.on_unlock = on_unlock

        def acc(ex_, s, rw, p, key, idx, ty, line, v=None):
            if key == VAL and not is_stack(idx[0]):
                n = idx[0] - 32
                ex.oblige(s, 'only entries of the map are accessed', z3.And(n == NODE(KEYOF(n)), HAS(ex, s)[KEYOF(n)]), line, 'safety')
                if not exclusive:
                    ex.oblige(s, 'the namespace is only touched with its mutex held', held(s, envmu(ex)), line)
        ex.access_hook = acc
        if more:
            more(ex, st)
    return cfg


def pre(c, name=True):
    ex = c.ex
    if not ex.axioms:
        ex.axioms += map_axioms(ex)
    e = this(ex)
    out = [('environment in memory', in_mem(e, 200))] + INV(c, c.st)
    f = z3.Int('f!n')
    out.append(('files are objects of their own', z3.ForAll([f], z3.Implies(FILE(ex, c.st)[f], z3.Or(f + FSIZE <= e, e + 200 <= f)), patterns=[FILE(ex, c.st)[f]])))
    fl = FILE(ex, c.st)
    out.append(('fewer than 2^31 - 1 references', z3.ForAll([f], z3.Implies(fl[f], frefs(c, f) < (1 << 31) - 2), patterns=[fl[f]])))
    return out


def done(c, nameof=None):
    return [('the mutexes are released', c.st.ghost['held'] == c.old.ghost['held'])] + [('afterwards ' + l, g) for l, g in INV(c, c.st, nameof=nameof)]


def kname(c, i):
    return keyof_str(c.ex, c.st, c.args[i].addr)


def out_handle(c, i):
    return c.ex.region(c.st, ('E', 'ptr'), 'ptr')[c.args[i].addr]


def open_post(cls):
    def post(c):
        ex = c.ex
        k = kname(c, 2)
        has = HAS(ex, c.old)[k]
        f = val(ex, c.old, k)
        h = out_handle(c, 3)
        o = c.F(cls, 'file_')[h]
        out = [('opens exactly an existing name', s_ok(c, c.args[0].addr) == has),
               ('a missing name gives no handle', z3.Implies(z3.Not(has), h == 0)),
               ('the handle is on the named file', z3.Implies(has, z3.And(h != 0, o == f))),
               ('one handle more on it', HND(ex, c.st) == z3.If(has, z3.Store(HND(ex, c.old), f, HND(ex, c.old)[f] + 1), HND(ex, c.old))),
               ('every name is untouched', same_names(c)),
               ('every other file is untouched', same_files(c, [z3.If(has, f, 0)])),
               ('opening keeps the content', z3.Implies(has, content_kept(c, f)))]
        if cls == 'SequentialFileImpl':
            out.append(('reads from the start', z3.Implies(has, c.F(cls, 'pos_')[h] == 0)))
        return out + done(c)
    return post


def write_post(trunc):
    def post(c):
        ex = c.ex
        k = kname(c, 2)
        has = HAS(ex, c.old)[k]
        f = val(ex, c.st, k)
        h = out_handle(c, 3)
        return [('always opens', z3.And(s_ok(c, c.args[0].addr), h != 0)), ('the name exists afterwards', HAS(ex, c.st)[k]),
                ('an existing file is kept', z3.Implies(has, f == val(ex, c.old, k))),
                ('a missing one is created', z3.Implies(z3.Not(has), z3.And(f != 0, z3.Not(FILE(ex, c.old)[f]), FILE(ex, c.st)[f]))),
                ('empty' if trunc else 'empty when created', z3.Implies(z3.BoolVal(True) if trunc else z3.Not(has), z3.And(fsize(c, f) == 0, VN(ex, c.st, fvec(ex, f)) == 0))),
                ('an existing file keeps its content', z3.Implies(has, content_kept(c, f)) if not trunc else z3.BoolVal(True)),
                ('the handle is on the named file', c.F('WritableFileImpl', 'file_')[h] == f),
                ('one handle more on it', HND(ex, c.st) == z3.Store(HND(ex, c.old), f, HND(ex, c.old)[f] + 1)),
                ('every other name is untouched', same_names(c, [k])),
                ('every other file is untouched', same_files(c, [f]))] + done(c, z3.Store(NAMEOF(ex, c.old), f, k))
    return post


def exists_post(c):
    return [('true exactly for a present name', c.ret == HAS(c.ex, c.old)[keyof_str(c.ex, c.st, c.args[1].addr)] if z3.is_bool(c.ret) else
             (c.ret != 0) == HAS(c.ex, c.old)[keyof_str(c.ex, c.st, c.args[1].addr)]), ('nothing changes', z3.And(same_names(c), same_files(c)))] + done(c)


def size_post(c):
    ex = c.ex
    k = kname(c, 2)
    has = HAS(ex, c.old)[k]
    return [('fails exactly for a missing name', s_ok(c, c.args[0].addr) == has),
            ('the file\'s size', z3.Implies(has, c.E('i64')[c.args[3].addr] == fsize(c, val(ex, c.old, k), c.old))),
            ('a missing name has no effect', z3.Implies(z3.Not(has), c.E('i64')[c.args[3].addr] == c.E('i64', c.old)[c.args[3].addr])),
            ('nothing changes', z3.And(same_names(c), same_files(c)))] + done(c)


def gone(c, f, when):
    """what losing its name does to a file"""
    ex = c.ex
    return [('a file without name and handles is freed', z3.Implies(z3.And(when, HND(ex, c.old)[f] == 0), z3.Not(FILE(ex, c.st)[f]))),
            ('an open file stays, with its content', z3.Implies(z3.And(when, HND(ex, c.old)[f] > 0), z3.And(FILE(ex, c.st)[f], content_kept(c, f))))]


def remove_post(c):
    ex = c.ex
    k = kname(c, 2)
    has = HAS(ex, c.old)[k]
    f = val(ex, c.old, k)
    return [('fails exactly for a missing name', s_ok(c, c.args[0].addr) == has), ('the name is gone', z3.Not(HAS(ex, c.st)[k])),
            ('every other name is untouched', same_names(c, [k])), ('every other file is untouched', same_files(c, [z3.If(has, f, 0)])),
            ('no handle changes', HND(ex, c.st) == HND(ex, c.old))] + gone(c, f, has) + done(c)


def rename_post(c):
    ex = c.ex
    s, t = kname(c, 2), kname(c, 3)
    has, hast = HAS(ex, c.old)[s], HAS(ex, c.old)[t]
    f, g = val(ex, c.old, s), val(ex, c.old, t)
    real = z3.And(has, s != t)
    return [('fails exactly for a missing source', s_ok(c, c.args[0].addr) == has),
            ('otherwise without effect', z3.Implies(z3.Not(real), z3.And(same_names(c), same_files(c)))),
            ('the target is the source\'s file', z3.Implies(has, z3.And(HAS(ex, c.st)[t], val(ex, c.st, t) == f))),
            ('the source is gone', z3.Implies(real, z3.Not(HAS(ex, c.st)[s]))),
            ('the file is untouched', z3.Implies(has, z3.And(FILE(ex, c.st)[f], content_kept(c, f)))),
            ('every other name is untouched', same_names(c, [s, t])),
            ('every other file is untouched', same_files(c, [z3.If(z3.And(real, hast), g, 0)])),
            ('no handle changes', HND(ex, c.st) == HND(ex, c.old))] + gone(c, g, z3.And(real, hast)) + done(c, z3.If(real, z3.Store(NAMEOF(ex, c.old), f, t), NAMEOF(ex, c.old)))


# ------------------------------------------------------------ listing
def vlist(ex, st):
    return ghost_map(ex, st, 'VLIST', LIST, 'x')


def l_clear(ex, st, a, ins, dem):
    vlist(ex, st)
    gm_set(ex, st, 'VLIST', a[0].addr, NIL)
    return None


def l_push(ex, st, a, ins, dem):
    gm_set(ex, st, 'VLIST', a[0].addr, APP(vlist(ex, st)[a[0].addr], M.str_get(ex, st, a[1].addr)))
    return None


VS = r'^(void |auto )?std::vector<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>, .*>::'
LIST_MODELS = [(re.compile(p), f) for p, f in [
    (VS + r'clear\(\)', l_clear), (VS + r'(push_back\(|emplace_back<std::__cxx11)', l_push)]]


class StartsC(FnSpec):
    """Slice::starts_with (proved in C04)"""
    name = r'^lsmdb::Slice::starts_with\('

    def post(self, c):
        ex, st = c.ex, c.st
        (d, n), (e, m) = slice_of(c, c.args[0].addr), slice_of(c, c.args[1].addr)
        st.assume(n >= 0, m >= 0)
        r = c.ret if z3.is_bool(c.ret) else c.ret != 0
        return [('prefix', r == z3.PrefixOf(M.seqof(ex, st, P(e), m), M.seqof(ex, st, P(d), n)))]


def under(ex, k):
    """the name lies under the directory; its rest"""
    d, s = ex.dirseq, KS(k)
    n = z3.Length(d)
    return z3.And(z3.Length(s) > n, s[n] == 47, z3.PrefixOf(d, s)), z3.Extract(s, n + 1, z3.Length(s) - n - 1)


def list_step(ex, st, i):
    m, rest = under(ex, KEYAT(i))
    st.assume(LISTF(0) == NIL, z3.Implies(i >= 0, LISTF(i + 1) == z3.If(m, APP(LISTF(i), rest), LISTF(i))))


def list_cfg(ex, st):
    ex.on_step = list_step
    vlist(ex, st)


def list_pre(c):
    ex = c.ex
    ex.dirseq = M.str_get(ex, c.st, c.args[2].addr)
    return pre(c) + [('the result is an object of its own', z3.And(c.args[3].addr > 0, c.args[3].addr != c.args[2].addr))]


class MapLoop(Loop):
    roles = {'p': 'ptr'}

    def pos(self, c):
        p = c.v['p'].addr
        return z3.If(p == END(c.ex), COUNT, IX(KEYOF(p)))

    def at_header(self, c):
        step_facts(c.ex, c.st, self.pos(c))

    def place(self, c):
        p = c.v['p'].addr
        k = KEYOF(p)
        return [('the iterator is on an entry or at the end', z3.Or(p == END(c.ex), z3.And(p == NODE(k), HAS(c.ex, c.old)[k], IX(k) >= 0, IX(k) < COUNT, KEYAT(IX(k)) == k))),
                ('the map is unchanged', HAS(c.ex, c.st) == HAS(c.ex, c.old))]

    def decreases(self, c):
        return COUNT - self.pos(c)


class ListLoop(MapLoop):
    fn = NSN + r'GetChildren'

    def inv(self, c):
        return self.place(c) + [('the names seen so far are listed', vlist(c.ex, c.st)[c.args[3].addr] == LISTF(self.pos(c))),
                                ('mutex held', held(c.st, envmu(c.ex)))]


def list_post(c):
    return [('succeeds', s_ok(c, c.args[0].addr)), ('exactly the names under the directory, relative to it, once each', vlist(c.ex, c.st)[c.args[3].addr] == LISTF(COUNT)),
            ('nothing changes', z3.And(same_names(c), same_files(c)))] + done(c)


# ------------------------------------------------------------ destruction
class EnvDtorLoop(MapLoop):
    fn = NSN + r'~InMemoryEnv'

    def inv(self, c):
        return self.place(c) + [('exactly the files named so far have lost their name', released(c, self.pos(c))), ('no handle changes', HND(c.ex, c.st) == HND(c.ex, c.old)),
                                ('the entries are unchanged', c.ex.region(c.st, VAL, 'ptr') == c.ex.region(c.old, VAL, 'ptr'))]


def released(c, i):
    ex = c.ex
    f = z3.Int('f!r')
    l1, l0 = named(ex, c.st, FILE(ex, c.st)), FILE(ex, c.old)
    r1, r0 = named(ex, c.st, c.F(FS, 'refs_')), c.F(FS, 'refs_', c.old)
    nm, hd = NAMEOF(ex, c.old), HND(ex, c.old)
    gone = z3.And(named_file(ex, c.old, f), IX(nm[f]) < i)
    return z3.ForAll([f], z3.And(l1[f] == z3.And(l0[f], z3.Or(z3.Not(gone), hd[f] > 0)), z3.Implies(l1[f], z3.And(r1[f] == r0[f] - z3.If(gone, 1, 0), content_kept(c, f)))), patterns=[l1[f], l0[f]])


def dtor_post(c):
    ex = c.ex
    f = z3.Int('f!d')
    l1, l0, hd = named(ex, c.st, FILE(ex, c.st)), FILE(ex, c.old), HND(ex, c.old)
    return [('exactly the open files stay', z3.ForAll([f], l1[f] == z3.And(l0[f], hd[f] > 0), patterns=[l1[f]])),
            ('each referenced by its handles only', z3.ForAll([f], z3.Implies(l1[f], frefs(c, f) == hd[f]), patterns=[l1[f]]))]


# ------------------------------------------------------------ FileState and handles
def part_cfg(ex, st):
    init_held(st)
    ex.exclusive = True
    ex.light = True
    ex.this_ix = 0
    HAS(ex, st), FILE(ex, st), HND(ex, st)

    def acc(ex_, s, rw, p, key, idx, ty, line, v=None):
        if key == ex.fkey(FS, 'refs_') and not is_stack(idx[0]):
            ex.oblige(s, 'the reference count is only touched with its mutex held', held(s, idx[0] + off(ex, 'refs_mutex_')), line)
    ex.access_hook = acc


def of_contract(C, extra=None):
    """pre/post/modifies of a task from the contract its callers use"""
    def p(c):
        return C().pre(c) + [('object in memory', in_mem(c.args[0].addr))] + (extra(c) if extra else [])
    return p, lambda c: C().post(c), lambda c: C().modifies(c)


def m_delete_file(ex, st, a, ins, dem):
    f = a[0].addr
    ex.oblige(st, 'a file is freed once', FILE(ex, st)[f], ins.line, 'safety')
    ex.oblige(st, 'a file is not freed holding its mutex', z3.And(z3.Not(held(st, f + off(ex, 'refs_mutex_'))), z3.Not(held(st, f + off(ex, 'blocks_mutex_')))), ins.line, 'safety')
    put(ex, st, 'FILE', z3.Store(FILE(ex, st), f, z3.BoolVal(False)))
    return None


DELETE = [(re.compile(r'^operator delete\(void\*'), m_delete_file)]


def hdtor(cls):
    def p(c):
        ex = c.ex
        t = c.args[0].addr
        f = c.F(cls, 'file_')[t]
        return [('handle in memory', in_mem(t, 24)), ('an open handle on a live file', z3.And(in_mem(f), FILE(ex, c.st)[f], HND(ex, c.st)[f] >= 1)), ('handle apart from the file', z3.Or(t + 24 <= f, f + FSIZE <= t)),
                ('mutexes free', z3.And(refs_free(c, f), blocks_free(c, f)))] + INV(c, c.st)

    def q(c):
        ex = c.ex
        f = c.F(cls, 'file_', c.old)[c.args[0].addr]
        h1 = z3.Store(HND(ex, c.old), f, HND(ex, c.old)[f] - 1)
        named_ = named_file(ex, c.old, f)
        return [('a file without name and handles is freed', z3.Implies(z3.And(h1[f] == 0, z3.Not(named_)), z3.Not(FILE(ex, c.st)[f]))),
                ('a file with a name or another handle stays, with its content', z3.Implies(z3.Or(h1[f] > 0, named_), z3.And(FILE(ex, c.st)[f], content_kept(c, f)))),
                ('every other file is untouched', same_files(c, [f])), ('every name is untouched', same_names(c)),
                ('the mutexes are as before', c.st.ghost['held'] == c.old.ghost['held'])] + [('with one handle less, ' + l, g) for l, g in INV(c, c.st, hnd=h1)]
    return p, q


def hctor(cls):
    H = handle_contract(cls)

    def p(c):
        return H().pre(c) + [('objects in memory', z3.And(in_mem(c.args[0].addr, 24), in_mem(c.args[1].addr), z3.Or(c.args[0].addr + 24 <= c.args[1].addr, c.args[1].addr + FSIZE <= c.args[0].addr)))]

    def q(c):
        return [(l, g) for l, g in H().post(c) if 'handle more' not in l]
    return p, q


def map_ctor_post(c):
    ex = c.ex
    return [('no names', HAS(ex, c.st) == z3.K(KeyS, z3.BoolVal(False)))]


def tasks(prog):
    S, R, W = 'SequentialFileImpl', 'RandomAccessFileImpl', 'WritableFileImpl'
    models = LIST_MODELS + MAP_MODELS + VEC_MODELS + SYNC_MODELS + STATUS_MODELS
    cons = [RefC, UnrefC, TruncC, SizeC, NewC, StartsC] + [handle_contract(x) for x in (S, R, W)]
    kw = dict(models=models, contracts=cons, no_frame=True)
    E = '^' + NSN
    T = [
        simple('NewSequentialFile', E + r'NewSequentialFile\(', pre, open_post(S), config=base_cfg(1), **kw),
        simple('NewRandomAccessFile', E + r'NewRandomAccessFile\(', pre, open_post(R), config=base_cfg(1), **kw),
        simple('NewWritableFile', E + r'NewWritableFile\(', pre, write_post(True), config=base_cfg(1), **kw),
        simple('NewAppendableFile', E + r'NewAppendableFile\(', pre, write_post(False), config=base_cfg(1), **kw),
        simple('FileExists', E + r'FileExists\(', pre, exists_post, config=base_cfg(0), **kw),
        simple('GetFileSize', E + r'GetFileSize\(', pre, size_post, config=base_cfg(1), **kw),
        simple('RemoveFile', E + r'RemoveFile\(', pre, remove_post, config=base_cfg(1), **kw),
        simple('RenameFile', E + r'RenameFile\(', pre, rename_post, config=base_cfg(1), **kw),
        simple('GetChildren', E + r'GetChildren\(', list_pre, list_post, config=base_cfg(1, more=list_cfg), loops=[ListLoop], **kw),
        simple('~InMemoryEnv', E + r'~InMemoryEnv\(', pre, dtor_post, config=base_cfg(0, True), loops=[EnvDtorLoop], **kw),
    ]
    T.append(simple('InMemoryEnv()', E + r'InMemoryEnv\(', lambda c: [('object in memory', in_mem(c.args[0].addr, 200))], map_ctor_post, config=base_cfg(0, True), **kw))
    F = '^' + NSX + 'FileState::'
    p, q, m = of_contract(RefC)
    T.append(simple('FileState::Ref', F + r'Ref\(', p, q, m, config=part_cfg, models=models))
    p, q, m = of_contract(UnrefC, lambda c: [('fewer than 2^31 references', frefs(c, c.args[0].addr) < 1 << 31)])
    T.append(simple('FileState::Unref', F + r'Unref\(', p, q, m, config=part_cfg, models=DELETE + models, contracts=[DtorC]))
    for cls in (S, R, W):
        p, q = hctor(cls)
        T.append(simple(cls + '()', '^' + NSX + cls + '::' + cls + r'\(', p, q, None, config=part_cfg, models=models, contracts=[RefC], no_frame=True))
        p, q = hdtor(cls)
        T.append(simple('~' + cls, '^' + NSX + cls + '::~' + cls + r'\(', p, q, None, config=part_cfg, models=models, contracts=[UnrefC], no_frame=True))
    return T

"""PosixSequentialFile, PosixRandomAccessFile, PosixMmapReadableFile: reads return exactly what the system delivered."""
from .posix_spec import *

TUS = ['env_posix', 'env']
DRIVER = posix_driver(20)
DRIVER_SECS = 25
TRUST = POSIX_TRUST
ASSUME = POSIX_ASSUME + ['a sequential file object is used by one thread at a time (the interface\'s contract)',
                         'pread delivers the bytes stored at the position it is given, read those at the descriptor\'s position']
SEQ, RND, MAP = 'PosixSequentialFile', 'PosixRandomAccessFile', 'PosixMmapReadableFile'


def ok(c):
    return sstate(c, c.args[0].addr) == 0


def t_(c):
    return c.args[getattr(c.ex, 'this_arg', 1)].addr


def fld(c, cls, f, st=None):
    return c.F(cls, f, st)[t_(c)]


def open_fd(c, fd):
    return z3.And(fd >= 0, fd < (1 << 31), opened(c.ex, c.st)[fd])


def same_open(c):
    return opened(c.ex, c.st) == opened(c.ex, c.old)


def base_config(this_arg=1, more=None):
    def cfg(ex, st):
        ex.this_arg = this_arg
        st.ghost['failed'] = z3.BoolVal(False)
        st.ghost['readfails'] = z3.BoolVal(False)
        st.ghost['reads'] = z3.IntVal(0)
        st.ghost['delivered'] = M.empty(ex)
        st.ghost['delivered_n'] = z3.IntVal(0)
        st.ghost['closes'] = z3.IntVal(0)
        if more:
            more(ex, st)
    return cfg


def read_config(cls, n_arg, scratch_arg, off_arg=None):
    def more(ex, st):
        a = ex.root_args

        def rhook(ex, s, fd, p, n, off, r, ins):
            c = Cx(ex, s, args=ex.root_args, old=ex.root_old)
            mine = fd == c.F(cls, 'fd_', ex.root_old)[t_(c)]
            if cls == RND:
                fn = M.str_get(ex, ex.root_old, t_(c) + ex.fkey(RND, 'filename_')[2])
                mine = z3.If(perm(c, ex.root_old), mine, paths(ex, s)[fd] == fn)
                ex.oblige(s, 'read at the requested position', off == ex.root_args[off_arg] if off is not None else z3.BoolVal(False), ins.line)
            ex.oblige(s, 'read from the file\'s own descriptor', mine, ins.line)
        ex.read_hook = rhook

        def wins():
            return [(ex.root_args[scratch_arg].addr, ex.root_args[n_arg])]
        read_windows(ex, wins, 'the caller\'s buffer', writes=wins)
    return more


def result(c, i):
    return slice_of(c, c.args[i].addr)


def read_post(c, res, scratch, n):
    g = c.st.ghost
    d, k = result(c, res)
    good = ok(c)
    return [('success exactly when the system delivered', good == z3.And(z3.Not(g['failed']), z3.Not(g['readfails']))),
            ('one delivery per read', z3.Implies(good, g['reads'] == 1)),
            ('the slice is the delivered range', z3.Implies(good, z3.And(d == c.args[scratch].addr, k == g['delivered_n'], k <= c.args[n]))),
            ('holding exactly the delivered bytes', z3.Implies(good, bs(c.ex, c.st, d, k) == g['delivered'])),
            ('every descriptor the read opened is released', same_open(c))]


def bufpre(c, scratch, n, res):
    s, k, r = c.args[scratch].addr, c.args[n], c.args[res].addr
    return [('the caller\'s buffer', z3.And(s > 0, k < (1 << 62), s + k < HEAPMAX, r > 0, r + 16 < HEAPMAX)),
            ('buffer apart from the slice and the file', z3.And(z3.Or(r + 16 <= s, s + k <= r), z3.Or(t_(c) + 64 <= s, s + k <= t_(c))))]


def mods(c):
    ex = c.ex
    r = c.args[4].addr if len(c.args) > 5 else c.args[3].addr
    return {key(ex): None, ('E', 'i8'): None, ('E', 'i32'): None, ('OPEN',): None, ('PATH',): None, ('STR',): None,
            ex.fkey('Slice', 'data_'): [(r,)], ex.fkey('Slice', 'size_'): [(r,)]}


def dmods(c):
    return {key(c.ex): None, ('E', 'i32'): None, ('OPEN',): None, ('PATH',): None, ('STR',): None, ('E', 'ptr'): None, ('MAPPED',): None, ('F', 'Limiter', 0): None,
            ('E', 'i8'): None}


def perm(c, st=None):
    return c.F(RND, 'has_permanent_fd_', st)[t_(c)] != 0


def rnd_pre(c):
    h = c.F(RND, 'has_permanent_fd_')[t_(c)]
    fd = fld(c, RND, 'fd_')
    return [('a bool', h <= 1), ('descriptor invariant', z3.If(h != 0, open_fd(c, fd), fd == BAD)),
            ('object in memory', z3.And(t_(c) > 0, t_(c) + 64 < HEAPMAX))]


def map_inv(c):
    b, l = c.F(MAP, 'mmap_base_')[t_(c)], fld(c, MAP, 'length_')
    return [('a mapping of that length', z3.And(b > 0, l > 0, b + l < HEAPMAX, mapped(c.ex, c.st)[b] == l)),
            ('object in memory', z3.And(t_(c) > 0, t_(c) + 64 < HEAPMAX))]


def sized(n):
    return [('size of the request representable', n < (1 << 63))]


def tasks(prog):
    kw = dict(models=STATUS_MODELS + POSIX_MODELS, loops=[RetryLoop], contracts=[PosixErr])

    def seq_pre(c):
        return [('open descriptor', open_fd(c, fld(c, SEQ, 'fd_'))), ('object in memory', z3.And(t_(c) > 0, t_(c) + 64 < HEAPMAX))]

    def skip_post(c):
        ev = [e for e in c.st.events if e[0] == 'lseek']
        good = z3.And([z3.BoolVal(len(ev) == 1)] + ([ev[0][1] == fld(c, SEQ, 'fd_', c.old), ev[0][2] == c.args[2], ev[0][3] == 1] if ev else []))
        return [('exactly one seek forward by n from the current position', good),
                ('success exactly when the seek succeeded', ok(c) == z3.Not(c.st.ghost['failed'])), ('nothing opened or closed', same_open(c))]

    def closed_once(fd):
        def post(c):
            return [('the descriptor is closed exactly once', z3.And(c.st.ghost['closes'] == 1, opened(c.ex, c.st) == z3.Store(opened(c.ex, c.old), fd(c), False)))]
        return post

    def map_read_post(c):
        b, l = c.F(MAP, 'mmap_base_', c.old)[t_(c)], fld(c, MAP, 'length_', c.old)
        off, n = c.args[2], c.args[3]
        d, k = result(c, 4)
        inside = off + n <= l
        return [('success exactly for ranges inside the file', ok(c) == inside),
                ('the slice is exactly that range of the mapping', z3.Implies(ok(c), z3.And(d == b + off, k == n))),
                ('on success it lies inside the mapping', z3.Implies(ok(c), z3.And(b <= d, d + k <= b + l)))]

    def map_dtor_post(c):
        b, l = c.F(MAP, 'mmap_base_', c.old)[t_(c)], fld(c, MAP, 'length_', c.old)
        ev = [e for e in c.st.events if e[0] == 'munmap']
        return [('the mapping is removed exactly once, in full', z3.And([z3.BoolVal(len(ev) == 1)] + ([ev[0][1] == b, ev[0][2] == l] if ev else [])))]

    def rnd_dtor_post(c):
        h = perm(c, c.old)
        return [('a permanent descriptor is closed exactly once', z3.And(c.st.ghost['closes'] == z3.If(h, 1, 0),
                 opened(c.ex, c.st) == z3.If(h, z3.Store(opened(c.ex, c.old), fld(c, RND, 'fd_', c.old), False), opened(c.ex, c.old))))]

    def seq_ctor_post(c):
        return [('takes the descriptor', z3.And(fld(c, SEQ, 'fd_') == c.args[2], same_open(c)))]

    def map_ctor_post(c):
        return [('takes the mapping', z3.And(c.F(MAP, 'mmap_base_')[t_(c)] == c.args[2].addr, fld(c, MAP, 'length_') == c.args[3],
                                             mapped(c.ex, c.st) == mapped(c.ex, c.old)))]

    def ctor_pre(c):
        return [('object in memory', z3.And(t_(c) > 0, t_(c) + 64 < HEAPMAX))]

    def ctor_mods(cls, fs):
        def m(c):
            d = dmods(c)
            d.update({c.ex.fkey(cls, f): [(t_(c),)] for f in fs})
            return d
        return m

    from . import C22

    def map_more(ex, st):
        def mhook(ex_, s, a, ins):
            name = M.str_get(ex, ex.root_old, ex.root_args[2].addr)
            sizes = [v for p, v in s.aux.get('stats', ())]
            same = [p == name for p, v in s.aux.get('stats', ())]
            ex.oblige(s, 'the mapping covers the named file from its start, as long as the file is', z3.And(
                paths(ex, s)[a[4]] == name, opened(ex, s)[a[4]], a[5] == 0, z3.Or([z3.And(q, a[1] == v) for q, v in zip(same, sizes)] or [z3.BoolVal(False)])), ins.line)
            ex.oblige(s, 'a readable mapping', z3.And(a[2] % 2 == 1), ins.line)
        ex.mmap_hook = mhook

    def new_post(c):
        # the object's fields describe what was opened: checked together with ownership
        return C22.new_post((SEQ, RND, MAP), c) + named(c)

    def named(c):
        obj = C22.value_at(C22.res(c))
        cls, isit = C22.vtable_of(c, obj)
        name = M.str_get(c.ex, c.old, c.args[2].addr)
        if cls == RND:
            fd = fld_at(c, RND, 'fd_', obj)
            fn = M.str_get(c.ex, c.st, obj + c.ex.fkey(RND, 'filename_')[2])
            return [('reads go to the named file', z3.Implies(okst(c), z3.And(fn == name, z3.Implies(c.F(RND, 'has_permanent_fd_')[obj] != 0, paths(c.ex, c.st)[fd] == name))))]
        if cls == SEQ:
            return [('reads go to the named file', z3.Implies(okst(c), paths(c.ex, c.st)[fld_at(c, SEQ, 'fd_', obj)] == name))]
        return []

    def fld_at(c, cls, f, o):
        return c.F(cls, f)[o]

    def okst(c):
        return sstate(c, c.args[0].addr) == 0
    kn = dict(models=C22.MODELS, loops=[RetryLoop], contracts=[PosixErr])
    return [
        posix_error_task(),
        simple('SequentialFile()', SEQ + r'::PosixSequentialFile\(', ctor_pre, seq_ctor_post, ctor_mods(SEQ, ['fd_']), config=base_config(0), **kw),
        simple('MmapReadableFile()', MAP + r'::PosixMmapReadableFile\(', ctor_pre, map_ctor_post, ctor_mods(MAP, ['mmap_base_', 'length_', 'mmap_limiter_']), config=base_config(0), **kw),
        simple('NewSequentialFile', r'PosixEnv::NewSequentialFile\(', C22.new_pre, new_post, C22.pathmods, config=C22.lim_config(), **kn),
        simple('NewRandomAccessFile', r'PosixEnv::NewRandomAccessFile\(', C22.new_pre, new_post, C22.pathmods, config=C22.lim_config(more=map_more), **kn),
        simple('SequentialFile::Read', SEQ + r'::Read\(', lambda c: seq_pre(c) + bufpre(c, 4, 2, 3), lambda c: read_post(c, 3, 4, 2), mods,
               config=base_config(1, read_config(SEQ, 2, 4)), **kw),
        simple('SequentialFile::Skip', SEQ + r'::Skip\(', seq_pre, skip_post, lambda c: {key(c.ex): None, ('E', 'i32'): None, ('STR',): None, ('E', 'i8'): None},
               config=base_config(), **kw),
        simple('~SequentialFile', SEQ + r'::~PosixSequentialFile\(', seq_pre, closed_once(lambda c: fld(c, SEQ, 'fd_', c.old)), dmods, config=base_config(0), **kw),
        simple('RandomAccessFile::Read', RND + r'::Read\(', lambda c: rnd_pre(c) + bufpre(c, 5, 3, 4), lambda c: read_post(c, 4, 5, 3), mods,
               config=base_config(1, read_config(RND, 3, 5, 2)), **kw),
        simple('~RandomAccessFile', RND + r'::~PosixRandomAccessFile\(', rnd_pre, rnd_dtor_post, dmods, config=base_config(0), **kw),
        simple('MmapReadableFile::Read', MAP + r'::Read\(', lambda c: map_inv(c) + bufpre(c, 5, 3, 4)[:0] + [('result slice', z3.And(c.args[4].addr > 0, z3.Or(c.args[4].addr + 16 <= t_(c), c.args[4].addr >= t_(c) + 64)))],
               map_read_post, mods, config=base_config(), **kw),
        simple('~MmapReadableFile', MAP + r'::~PosixMmapReadableFile\(', map_inv, map_dtor_post, dmods, config=base_config(0), **kw),
    ]

"""In-memory files hold exactly the appended bytes: FileState and the file objects built on it."""
from .memfile_spec import *

TUS = ['memenv', 'inline_inst']
DRIVER = {'src': 'memfile.cc', 'sources': ['helpers/memenv/memenv.cc', 'util/env.cc', 'util/status.cc', 'util/env_posix.cc', 'util/logging.cc'], 'extra': ['-lpthread'], 'configs': [{'sanitize': 'address,undefined'}, {'sanitize': 'thread'}]}
DRIVER_SECS = 20
TRUST = FILE_TRUST + ['operator new returns fresh memory overlapping no live block (ISO C++)']
ASSUME = ['a file stays below 2^56 bytes', 'callers\' buffers are memory of their own, as the interface requires']


def cfg(ex, st):
    file_cfg(ex, st)


def ctor_cfg(ex, st):
    file_cfg(ex, st, False)


def size_post(c):
    f = c.args[0].addr
    return [('the size', c.ret == fsize(c, f, c.old)), ('the mutexes are as before', c.st.ghost['held'] == c.old.ghost['held'])]


def size_pre(c):
    ex = c.ex
    ex.fvec = None
    f = c.args[0].addr
    return [('object in memory', in_mem(f)), ('mutex free', z3.Not(held(c.st, f + off(ex, 'blocks_mutex_'))))]


def ctor_post(c):
    f = c.args[0].addr
    return [('no references, empty', z3.And(frefs(c, f) == 0, fsize(c, f) == 0, VN(c.ex, c.st, fvec(c.ex, f)) == 0))]


# -------------------------------------------------- file objects
def the_file(c, cls, st=None):
    return c.F(cls, 'file_', st)[c.args[1].addr]


class Shift:
    """the arguments of the FileState operation a file object's operation stands for"""

    def __init__(self, c, args):
        self.__dict__.update(c.__dict__)
        self.args = args

    def __getattr__(self, k):
        raise AttributeError(k)

    F, E, g = Cx.F, Cx.E, Cx.g


def wrap_read_pre(cls, seq):
    def pre(c):
        ex = c.ex
        f = the_file(c, cls)
        t = c.args[1].addr
        if seq:
            o, n, r, p = c.F(cls, 'pos_')[t], c.args[2], c.args[3], c.args[4]
        else:
            o, n, r, p = c.args[2], c.args[3], c.args[4], c.args[5]
        ex.wargs = [c.args[0], P(f), o, n, r, p]
        out = read_pre(Shift(c, ex.wargs))
        ex.fvec = None
        return out + [('file object apart', z3.And(in_mem(t, 24), z3.And([z3.Or(t + 24 <= a, a + k <= t) for a, k in ((f, FSIZE), (r.addr, 16), (c.args[0].addr, 8), (p.addr, n))])))]
    return pre


def wrap_read_post(cls, seq):
    def post(c):
        ex = c.ex
        t = c.args[1].addr
        out = read_post(Shift(c, ex.wargs))
        if seq:
            p0, p1 = c.F(cls, 'pos_', c.old)[t], c.F(cls, 'pos_')[t]
            sz = fsize(c, c.F(cls, 'file_', c.old)[t], c.old)
            n = c.args[2]
            out.append(('the position moves by the bytes delivered', p1 == z3.If(p0 <= sz, p0 + z3.If(n <= sz - p0, n, sz - p0), p0)))
        out.append(('the object keeps its file', c.F(cls, 'file_')[t] == c.F(cls, 'file_', c.old)[t]))
        return out
    return post


def wrap_mods(cls, seq):
    def m(c):
        ex = c.ex
        r = ex.wargs[4].addr
        d = {('E', 'i8'): None, key(ex): None, ex.fkey('Slice', 'data_'): [(r,)], ex.fkey('Slice', 'size_'): [(r,)]}
        if seq:
            d[ex.fkey(cls, 'pos_')] = [(c.args[1].addr,)]
        return d
    return m


def skip_pre(c):
    ex = c.ex
    t = c.args[1].addr
    f = c.F('SequentialFileImpl', 'file_')[t]
    ex.fvec = None
    return [('objects in memory', z3.And(in_mem(f), in_mem(t, 24), z3.Or(t + 24 <= f, f + FSIZE <= t), z3.Or(t + 24 <= c.args[0].addr, c.args[0].addr + 8 <= t),
                                         z3.Or(f + FSIZE <= c.args[0].addr, c.args[0].addr + 8 <= f))),
            ('mutex free', z3.Not(held(c.st, f + off(ex, 'blocks_mutex_'))))]


def skip_post(c):
    t = c.args[1].addr
    cls = 'SequentialFileImpl'
    p0, p1 = c.F(cls, 'pos_', c.old)[t], c.F(cls, 'pos_')[t]
    sz = fsize(c, c.F(cls, 'file_', c.old)[t], c.old)
    n = c.args[2]
    good = p0 <= sz
    return [('moves by min(n, remaining)', z3.Implies(good, z3.And(s_ok(c, c.args[0].addr), p1 == p0 + z3.If(n <= sz - p0, n, sz - p0)))),
            ('a position beyond the size is an error and stays', z3.Implies(z3.Not(good), z3.And(z3.Not(s_ok(c, c.args[0].addr)), p1 == p0))),
            ('the mutexes are as before', c.st.ghost['held'] == c.old.ghost['held'])]


def wa_pre(c):
    ex = c.ex
    f = the_file(c, 'WritableFileImpl')
    ex.wargs = [c.args[0], P(f), c.args[2]]
    out = append_pre(Shift(c, ex.wargs))
    ex.fvec = None
    t = c.args[1].addr
    return out + [('object apart', z3.And(in_mem(t, 16), z3.Or(t + 16 <= f, f + FSIZE <= t)))]


def wa_post(c):
    return append_post(Shift(c, c.ex.wargs))


def ok_post(c):
    return [('succeeds', s_ok(c, c.args[0].addr))]


def ctor_of(cls, seq):
    def pre(c):
        c.ex.fvec = None
        return [('objects in memory', z3.And(in_mem(c.args[0].addr, 24), in_mem(c.args[1].addr), z3.Or(c.args[0].addr + 24 <= c.args[1].addr, c.args[1].addr + FSIZE <= c.args[0].addr))),
                ('mutex free', z3.Not(held(c.st, c.args[1].addr + off(c.ex, 'refs_mutex_')))), ('fewer than 2^31 - 1 handles', frefs(c, c.args[1].addr) < (1 << 31) - 1)]

    def post(c):
        t, f = c.args[0].addr, c.args[1].addr
        out = [('reads this file', c.F(cls, 'file_')[t] == f), ('one reference taken', frefs(c, f) == frefs(c, f, c.old) + 1)]
        if seq:
            out.append(('from its start', c.F(cls, 'pos_')[t] == 0))
        return out
    return pre, post


def tasks(prog):
    kw = dict(models=FILE_MODELS, config=cfg)
    F = '^' + NSX + 'FileState::'
    S, R, W = 'SequentialFileImpl', 'RandomAccessFileImpl', 'WritableFileImpl'
    T = [
        simple('FileState::Append', F + r'Append\(', append_pre, append_post, lambda c: fmods(c, c.args[1].addr), loops=[AppendLoop, AppendLoopOff], **kw),
        simple('FileState::Read', F + r'Read\(', read_pre, read_post, lambda c: {('E', 'i8'): None, key(c.ex): None, c.ex.fkey('Slice', 'data_'): [(c.args[4].addr,)],
               c.ex.fkey('Slice', 'size_'): [(c.args[4].addr,)]}, loops=[ReadLoop, ReadLoopOff], **kw),
        simple('FileState::Size', F + r'Size\(', size_pre, size_post, None, **kw),
        simple('FileState::Truncate', F + r'Truncate\(', trunc_pre, trunc_post, trunc_mods, loops=[TruncLoop, TruncLoopIx, TruncLoopPop], **kw),
        simple('FileState()', F + r'FileState\(', lambda c: [('object in memory', in_mem(c.args[0].addr))], ctor_post, None, no_frame=True, models=FILE_MODELS, config=ctor_cfg),
        simple('SequentialFileImpl::Read', NSX + S + r'::Read\(', wrap_read_pre(S, True), wrap_read_post(S, True), wrap_mods(S, True), contracts=[ReadC], **kw),
        simple('RandomAccessFileImpl::Read', NSX + R + r'::Read\(', wrap_read_pre(R, False), wrap_read_post(R, False), wrap_mods(R, False), contracts=[ReadC], **kw),
        simple('SequentialFileImpl::Skip', NSX + S + r'::Skip\(', skip_pre, skip_post, lambda c: {key(c.ex): None, c.ex.fkey(S, 'pos_'): [(c.args[1].addr,)]}, **kw),
        simple('WritableFileImpl::Append', NSX + W + r'::Append\(', wa_pre, wa_post, lambda c: fmods(c, c.ex.wargs[1].addr), contracts=[AppendC], **kw)]
    for n in ('Close', 'Flush', 'Sync'):
        T.append(simple('WritableFileImpl::' + n, NSX + W + '::' + n + r'\(', None, ok_post, lambda c: {key(c.ex): None}, **kw))
    for cls, seq in ((S, True), (R, False), (W, False)):
        p, q = ctor_of(cls, seq)
        T.append(simple(cls + '()', NSX + cls + '::' + cls + r'\(', p, q, None, no_frame=True, **kw))
    return T

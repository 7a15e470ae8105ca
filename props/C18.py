"""PosixWritableFile: every appended byte reaches the system once, in order."""
from .posix_spec import *

TUS = ['env_posix', 'env']
DRIVER = posix_driver(18)
DRIVER_SECS = 25
TRUST = POSIX_TRUST
ASSUME = POSIX_ASSUME + ['a file object is used by one thread at a time (the interface\'s contract)']


def ret_ok(c):
    return sstate(c, c.args[0].addr) == 0


def keep(c):
    return wf_inv(c) + [('a failure is reported', z3.Implies(c.st.ghost['failed'], z3.Not(ret_ok(c))))]


def same_fd(c):
    return [('descriptor kept', z3.And(wf(c, 'fd_') == wf(c, 'fd_', c.old), c.st.ghost['closes'] == 0))]


def tasks(prog):
    T = [posix_error_task()]
    helpers = [PosixErr]

    def data(c):
        return slice_of(c, c.args[2].addr, c.old)

    def append_pre(c):
        d, n = slice_of(c, c.args[2].addr)
        t = this(c)
        return wf_pre(c) + [('data is the caller\'s memory', z3.And(sane(d, n), z3.Or(d + n <= t, t + wf_size(c) <= d)))]

    def append_post(c):
        d, n = data(c)
        ok = ret_ok(c)
        new, old = view(c, c.st), view(c, c.old)
        return [('accepted and buffered bytes are the old ones followed by the data',
                 z3.Implies(ok, new == z3.Concat(old, bs(c.ex, c.st, d, n, M.bytes_mem(c.ex, c.old)))))] + keep(c) + same_fd(c)

    def flushed(c):
        return [('nothing remains buffered', z3.Implies(ret_ok(c), wf(c, 'pos_') == 0)),
                ('everything appended was handed to the system, in order', z3.Implies(ret_ok(c), c.st.ghost['out'] == view(c, c.old)))]

    def close_post(c):
        o = wf(c, 'fd_', c.old)
        return flushed(c) + keep(c) + [
            ('the descriptor is closed exactly once', z3.And(wf(c, 'fd_') == BAD, c.st.ghost['closes'] == z3.If(o == BAD, 0, 1), z3.Implies(o != BAD, z3.Not(opened(c.ex, c.st)[o]))))]

    def dtor_post(c):
        o = wf(c, 'fd_', c.old)
        return [('the descriptor is closed exactly once over the object\'s life', z3.And(c.st.ghost['closes'] == z3.If(o == BAD, 0, 1), z3.Implies(o != BAD, z3.Not(opened(c.ex, c.st)[o])))),
                ('buffered bytes are handed over', z3.Implies(z3.Not(c.st.ghost['failed']), z3.Implies(o != BAD, c.st.ghost['out'] == view(c, c.old))))]

    def ctor_post(c):
        return [('empty buffer', wf(c, 'pos_') == 0), ('takes the descriptor', wf(c, 'fd_') == c.args[2]),
                ('nothing written or closed', z3.And(c.st.ghost['closes'] == 0, c.st.ghost['out'] == c.old.ghost['out']))] + wf_inv(c)

    def ctor_mods(c):
        m = wf_mods(c)
        t = this(c)
        m[c.ex.fkey(WF, 'is_manifest_')] = [(t,)]
        m[('E', 'ptr')] = [(t,)]
        return m
    kw = dict(models=WF_MODELS, loops=WF_LOOPS, contracts=helpers)
    W = r'PosixWritableFile::'
    T += [
        simple('Append', W + r'Append\(', append_pre, append_post, wf_mods, config=wf_config(data_arg=2), budget=40, **kw),
        simple('Flush', W + r'Flush\(\)', wf_pre, lambda c: flushed(c) + keep(c) + same_fd(c), wf_mods, config=wf_config(), **kw),
        simple('Sync', W + r'Sync\(\)', wf_pre, lambda c: flushed(c) + keep(c) + [('descriptor kept', wf(c, 'fd_') == wf(c, 'fd_', c.old))],
               wf_mods, config=wf_config(close_counts=False), **kw),
        simple('Close', W + r'Close\(\)', wf_pre, close_post, wf_mods, config=wf_config(), **kw),
        simple('~PosixWritableFile', W + r'~PosixWritableFile\(', wf_pre, dtor_post, lambda c: wf_mods(c, {('E', 'ptr'): None}), config=wf_config(this_arg=0), **kw),
        simple('PosixWritableFile()', W + r'PosixWritableFile\(', lambda c: [('object in memory', z3.And(this(c) > 0, this(c) + wf_size(c) < HEAPMAX)),
                                                                             ('open descriptor', z3.And(c.args[2] >= 0, c.args[2] < (1 << 31), opened(c.ex, c.st)[c.args[2]])),
                                                                             ('argument is another object', z3.Or(c.args[1].addr + 32 <= this(c), c.args[1].addr >= this(c) + wf_size(c)))],
               ctor_post, ctor_mods, config=wf_config(this_arg=0, window=False), **kw),
    ]
    return T

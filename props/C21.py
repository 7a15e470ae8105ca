"""PosixEnv::LockFile / UnlockFile.

Ghost state: TABLE, the set of names locked by this process (the contents of the lock table, guarded by its mutex), and
`mine`, whether the operation at hand is the owner of the table entry of its name.  The other threads may change TABLE
arbitrarily whenever the mutex is free, except for an entry they do not own.  The process's fcntl() lock on a file is
dropped by closing any descriptor of it and replaced by locking it again, so both need the table entry of the name.
"""
from .posix_spec import *
from . import C22

TUS = ['env_posix', 'env']
DRIVER = posix_driver(21)
DRIVER_SECS = 25
TRUST = POSIX_TRUST + ['std::set<std::string>::insert/erase/find/count (ISO C++); port::Mutex gives mutual exclusion',
                       'fcntl(F_SETLK): takes the exclusive lock or fails at once when another process holds one; any close() of the file drops the process\'s lock (POSIX)']
ASSUME = POSIX_ASSUME + ['a file is identified by the path it is locked under (two spellings of one path are two files)',
                         'nothing else in the process closes a descriptor of a lock file']
ENV, LCK = 'PosixEnv', 'PosixFileLock'


def table(ex, st):
    k = ('TABLE',)
    if k not in ex.init_mem:
        ex.init_mem[k] = (z3.Const('M_TABLE', z3.ArraySort(M.seqsort(ex), z3.BoolSort())), 'bool')
    return st.mem.get(k, ex.init_mem[k][0])


def set_table(ex, st, t):
    ex.log_write(('TABLE',), None)
    st.mem[('TABLE',)] = t


def need_lock(ex, st, ins):
    ex.oblige(st, 'the lock table is only touched with its mutex held', st.ghost['locked'] == 1, ins.line)


def m_lock(ex, st, a, ins, dem):
    ex.oblige(st, 'the mutex is not locked twice', st.ghost['locked'] == 0, ins.line)
    st.ghost['locked'] = z3.IntVal(1)
    n = ex.fname
    t = ex.fresh('TABLE', table(ex, st).sort())
    st.assume(z3.Implies(st.ghost['mine'], t[n]))
    set_table(ex, st, t)
    return None


def m_unlock(ex, st, a, ins, dem):
    ex.oblige(st, 'the mutex is held when unlocked', st.ghost['locked'] == 1, ins.line)
    st.ghost['locked'] = z3.IntVal(0)
    return None


def m_insert(ex, st, a, ins, dem):
    need_lock(ex, st, ins)
    s = M.str_get(ex, st, a[1].addr)
    t = table(ex, st)
    new = z3.Not(t[s])
    ex.oblige(st, 'the entry made is the one of the file being locked', s == ex.fname, ins.line)
    st.ghost['mine'] = z3.Or(st.ghost['mine'], new)
    st.ghost['refused'] = z3.Or(st.ghost['refused'], z3.Not(new))
    set_table(ex, st, z3.Store(t, s, z3.BoolVal(True)))
    return [(st, (P(ex.fresh('it', z3.IntSort())), z3.If(new, z3.IntVal(1), z3.IntVal(0))))]


def m_erase(ex, st, a, ins, dem):
    need_lock(ex, st, ins)
    s = M.str_get(ex, st, a[1].addr)
    t = table(ex, st)
    ex.oblige(st, 'only the own entry is removed', z3.And(s == ex.fname, st.ghost['mine']), ins.line)
    st.ghost['mine'] = z3.BoolVal(False)
    set_table(ex, st, z3.Store(t, s, z3.BoolVal(False)))
    r = ex.fresh('n', z3.IntSort())
    st.assume(r == z3.If(t[s], 1, 0))
    return r


def m_count(ex, st, a, ins, dem):
    need_lock(ex, st, ins)
    s = M.str_get(ex, st, a[1].addr)
    st.ghost['refused'] = z3.Or(st.ghost['refused'], table(ex, st)[s])
    return z3.If(table(ex, st)[s], z3.IntVal(1), z3.IntVal(0))


def m_find(ex, st, a, ins, dem):
    need_lock(ex, st, ins)
    s = M.str_get(ex, st, a[1].addr)
    st.ghost['refused'] = z3.Or(st.ghost['refused'], table(ex, st)[s])
    f = z3.Function('set_node', M.seqsort(ex), z3.IntSort())
    e = a[0].addr + 8
    return P(z3.If(table(ex, st)[s], f(s), e))


def m_fcntl(ex, st, a, ins, dem):
    fd, cmd, p = a[0], a[1], a[2]
    F = lambda o: ex.region(st, ('F', 'flock', o), 'i16' if o < 4 else 'i64')[p.addr]
    ty = F(0)
    ex.oblige(st, 'an open descriptor', opened(ex, st)[fd], ins.line, 'safety')
    ex.oblige(st, 'the whole file, without waiting', z3.And(cmd == 6, F(2) == 0, F(8) == 0, F(16) == 0), ins.line)
    ex.oblige(st, 'an exclusive lock, or its release', z3.Or(ty == 1, ty == 2), ins.line)
    ex.oblige(st, 'the process\'s lock on a file is changed only by the owner of its table entry', z3.And(paths(ex, st)[fd] == ex.fname, st.ghost['mine']), ins.line)

    def go(s, ok):
        if ok:
            s.ghost['flocked'] = z3.If(ty == 1, fd, z3.IntVal(-1))
            return z3.IntVal(0)
        set_errno(ex, s)
        fail(s, z3.BoolVal(True))
        return z3.IntVal(BAD)
    return either(ex, st, go)


def config(mine):
    def cfg(ex, st):
        ex.this_arg = 1
        st.ghost.update(mine=z3.BoolVal(mine), locked=z3.IntVal(0), refused=z3.BoolVal(False), flocked=z3.IntVal(-1), failed=z3.BoolVal(False), closes=z3.IntVal(0))

        def chook(ex_, s, fd, ins):
            ex.oblige(s, 'a descriptor of the lock file is closed only while owning its table entry', s.ghost['mine'], ins.line)
            s.ghost['flocked'] = z3.If(s.ghost['flocked'] == fd, z3.IntVal(-1), s.ghost['flocked'])
        ex.close_hook = chook
        ex.virtual_hook = own_virtuals(ENV, lambda ex_, s, obj: LCK if mine and obj.addr.eq(ex.root_args[2].addr) else None)
        if not mine:
            fresh_apart(ex, lambda: [(ex.root_args[0].addr, 8), (ex.root_args[1].addr, 288), (ex.root_args[2].addr, 32), (ex.root_args[3].addr, 8)])
    return cfg


SET = r'^std::(unordered_)?set<.*>::'
MORE = [(re.compile(p), f) for p, f in [
    (r'^lsmdb::port::Mutex::Lock\(\)', m_lock), (r'^lsmdb::port::Mutex::Unlock\(\)', m_unlock),
    (SET + r'(insert|emplace<[^(]*)\(', m_insert), (SET + r'erase\(std::__cxx11', m_erase), (SET + r'count\(', m_count), (SET + r'find\(', m_find),
    (SET + r'end\(\)', lambda ex, st, a, ins, dem: P(a[0].addr + 8)), (r'^fcntl(64)?$', m_fcntl)]]
MODELS = STATUS_MODELS + MORE + POSIX_MODELS


def ok(c):
    return sstate(c, c.args[0].addr) == 0


def unheld(c):
    return ('the mutex is released on every path', c.st.ghost['locked'] == 0)


def lock_post(c):
    ex, g = c.ex, c.st.ghost
    o0, o1 = opened(ex, c.old), opened(ex, c.st)
    obj = C22.value_at(ex.region(c.st, ('E', 'ptr'), 'ptr')[c.args[3].addr])
    real = ex.region(c.st, ('E', 'ptr'), 'ptr')[c.args[3].addr]
    fd = c.F(LCK, 'fd_')[obj]
    fn = M.str_get(ex, c.st, obj + ex.fkey(LCK, 'filename_')[2])
    return [('success exactly when the name was free and the system gave the lock', ok(c) == z3.And(z3.Not(g['refused']), z3.Not(g['failed']))),
            ('the holder owns the table entry and the system\'s lock', z3.Implies(ok(c), z3.And(
                g['mine'], g['flocked'] == fd, real == obj, obj != 0, fn == ex.fname, paths(ex, c.st)[fd] == ex.fname,
                o1 == z3.Store(o0, fd, True), z3.Not(o0[fd])))),
            ('a failed attempt leaves no lock, entry or descriptor behind', z3.Implies(z3.Not(ok(c)), z3.And(real == 0, z3.Not(g['mine']), o1 == o0))),
            unheld(c)]


def unlock_post(c):
    ex, g = c.ex, c.st.ghost
    o0, o1 = opened(ex, c.old), opened(ex, c.st)
    lk = c.args[2].addr
    fd = c.F(LCK, 'fd_', c.old)[lk]
    return [('after an unlock the name is free again and the descriptor closed', z3.Implies(ok(c), z3.And(z3.Not(g['mine']), o1 == z3.Store(o0, fd, False), z3.Not(M.live(ex, c.st)[lk])))),
            ('success exactly when the system released the lock', ok(c) == z3.Not(g['failed'])),
            ('a failed unlock leaves the lock held', z3.Implies(z3.Not(ok(c)), z3.And(g['mine'], o1 == o0, M.live(ex, c.st)[lk]))),
            unheld(c)]


def unlock_pre(c):
    ex = c.ex
    lk, t = c.args[2].addr, c.args[1].addr
    fd = c.F(LCK, 'fd_')[lk]
    return [('a lock object made by LockFile', z3.And(lk > 0, lk + 48 < HEAPMAX, M.live(ex, c.st)[lk], fd >= 0, fd < (1 << 31), opened(ex, c.st)[fd], paths(ex, c.st)[fd] == ex.fname)),
            ('environment in memory, apart from the lock', z3.And(t > 0, t + 288 < HEAPMAX, z3.Or(lk + 48 <= t, t + 288 <= lk)))]


def named(pre, addr):
    def p(c):
        c.ex.fname = M.str_get(c.ex, c.st, addr(c))
        return pre(c)
    return p


def mods(c):
    m = C22.pathmods(c)
    m[('TABLE',)] = None
    return m


def tasks(prog):
    kw = dict(models=MODELS, loops=[RetryLoop], contracts=[PosixErr])
    return [
        posix_error_task(),
        simple('LockFile', r'PosixEnv::LockFile\(', named(C22.new_pre, lambda c: c.args[2].addr), lock_post, mods, config=config(False), **kw),
        simple('UnlockFile', r'PosixEnv::UnlockFile\(', named(unlock_pre, lambda c: c.args[2].addr + c.ex.fkey(LCK, 'filename_')[2]), unlock_post, mods, config=config(True), **kw),
    ]

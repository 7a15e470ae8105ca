"""Descriptor and mapping budgets; ownership of every descriptor and mapping.

Limiter: rely/guarantee proof.  L[l] is the configured limit, G the number of grants outstanding, I the number of
threads between taking and giving back a unit they were refused.  Everybody keeps  value == L - G - I, 0 <= G <= max(L, 0),
I >= 0; before each atomic operation the other threads may have done anything that keeps it.
"""
from .posix_spec import *
from . import C20

TUS = ['env_posix', 'env']
DRIVER = posix_driver(22)
DRIVER_SECS = 35
TRUST = POSIX_TRUST + ['fdopen takes over the descriptor on success and leaves it alone on failure; std::atomic operations are the compiler\'s atomic instructions']
ASSUME = POSIX_ASSUME + ['fewer than 2^30 threads inside Limiter::Acquire at a time', 'configured limits above -2^30 and below 2^31']
SEQ, RND, MAP, ENV = 'PosixSequentialFile', 'PosixRandomAccessFile', 'PosixMmapReadableFile', 'PosixEnv'
LIM = z3.Function('limit', z3.IntSort(), z3.IntSort())
LK = ('F', 'Limiter', 0)


def sg(v):
    return z3.If(v >= 1 << 31, v - M32, v)


def lim_state(l, v, g, i):
    return z3.And(sg(v) == LIM(l) - g - i, g >= 0, i >= 0, g <= z3.If(LIM(l) > 0, LIM(l), 0))


def lim_config(held=None, this_arg=1, track=True, more=None):
    def cfg(ex, st):
        ex.this_arg = this_arg
        zero = z3.K(z3.IntSort(), z3.IntVal(0))
        st.ghost['held'] = held(ex, st) if held else zero
        st.ghost['infl'] = zero
        st.ghost['failed'] = z3.BoolVal(False)
        st.ghost['closes'] = z3.IntVal(0)

        def before(ex_, s, kind, p, ty, order, line):
            k, idx = ex.place(p, ty)
            if k[:2] != ('F', 'Limiter'):
                return
            l = idx[0]
            v, g, i = (ex.fresh(x, z3.IntSort()) for x in ('avail', 'grants', 'inflight'))
            s.assume(v >= 0, v < M32, LIM(l) > -(1 << 30), LIM(l) < (1 << 31), i < (1 << 30), lim_state(l, v, g, i),
                     g >= s.ghost['held'][l], i >= s.ghost['infl'][l])
            arr = ex.region(s, k, ty, len(idx))
            ex.log_write(k, idx)
            s.mem[k] = ex.upd(arr, idx, v)
            s.aux['limcur'] = (l, v, g, i)

        def after(ex_, s, kind, p, old, new, line):
            k, idx = ex.place(p, 'i32')
            if k[:2] != ('F', 'Limiter') or 'limcur' not in s.aux:
                return
            l, v, g, i = s.aux['limcur']
            h, f = s.ghost['held'], s.ghost['infl']
            dec, inc = sg(new) == sg(v) - 1, sg(new) == sg(v) + 1
            back = z3.And(inc, f[l] > 0)
            ex.oblige(s, 'the budget changes by one unit, atomically', z3.Or(dec, inc, new == v), line)
            ex.oblige(s, 'only a refused unit or an own grant is given back', z3.Implies(inc, z3.Or(f[l] > 0, h[l] > 0)), line)
            grant = z3.And(dec, sg(v) > 0)
            g2 = z3.If(grant, g + 1, z3.If(z3.And(inc, f[l] == 0), g - 1, g))
            i2 = z3.If(z3.And(dec, z3.Not(grant)), i + 1, z3.If(back, i - 1, i))
            ex.oblige(s, 'the grants outstanding never exceed the limit', lim_state(l, new, g2, i2), line)
            s.ghost['held'] = z3.Store(h, l, h[l] + g2 - g)
            s.ghost['infl'] = z3.Store(f, l, f[l] + i2 - i)
        if track:
            ex.atomic_hook, ex.atomic_done = before, after
        ex.virtual_hook = own_virtuals(ENV)
        if this_arg == 1:
            fresh_apart(ex, lambda: [(ex.root_args[0].addr, 8), (ex.root_args[1].addr, 288), (ex.root_args[2].addr, 32), (ex.root_args[3].addr, 8)])
        if more:
            more(ex, st)
    return cfg


def balance(c):
    return c.st.ghost['held'], c.st.ghost['infl']


def m_atomic_ctor(ex, st, a, ins, dem):
    ex.store(st, a[0], 'i32', a[1], ins.line)
    return None


ZERO = z3.K(z3.IntSort(), z3.IntVal(0))


def one(l):
    return z3.Store(ZERO, l, 1)


def fpfd(ex):
    return z3.Function('descriptor_of', z3.IntSort(), z3.IntSort())


def m_fdopen(ex, st, a, ins, dem):
    fd = a[0]
    ex.oblige(st, 'stream over an open descriptor', opened(ex, st)[fd], ins.line, 'safety')

    def go(s, ok):
        if ok:
            f = ex.fresh('file', z3.IntSort())
            ex.assume_heap(s, f)
            s.assume(f > 0, fpfd(ex)(f) == fd)
            return P(f)
        set_errno(ex, s)
        fail(s, z3.BoolVal(True))
        return P(z3.IntVal(0))
    return either(ex, st, go)


def m_fclose(ex, st, a, ins, dem):
    return m_close(ex, st, [fpfd(ex)(a[0].addr)], ins, dem)


def m_getrlimit(ex, st, a, ins, dem):
    def go(s, ok):
        if ok:
            v = ex.fresh('rlim', z3.IntSort())
            s.assume(v >= 0, v < M64)
            k = ('F', 'rlimit', 0)
            arr = ex.region(s, k, 'i64')
            ex.log_write(k, (a[1].addr,))
            s.mem[k] = ex.upd(arr, (a[1].addr,), v)
            s.aux['rlim'] = v
            return z3.IntVal(0)
        return z3.IntVal(BAD)
    return either(ex, st, go)


MORE = [(re.compile(p), f) for p, f in [(r'^std::atomic<int>::atomic\(int\)', m_atomic_ctor), (r'^fdopen$', m_fdopen), (r'^fclose$', m_fclose), (r'^getrlimit(64)?$', m_getrlimit),
                                         (r'^(std::queue|lsmdb::port::(Mutex|CondVar)|std::set)<?.*::(queue|Mutex|CondVar|set)[<(]', lambda ex, st, a, ins, dem: None)]]
MODELS = STATUS_MODELS + MORE + POSIX_MODELS


def value_at(t):
    """select(store chain) by syntactic index"""
    a, i = t.arg(0), z3.simplify(t.arg(1))
    while z3.is_store(a):
        if z3.simplify(a.arg(1)).eq(i):
            return z3.simplify(a.arg(2))
        a = a.arg(0)
    return z3.simplify(t)


def vtable_of(c, obj):
    """(class, fact): the class written into the object at obj on this path, and the fact to be proved about it"""
    ex = c.ex
    arr = ex.region(c.st, ('E', 'ptr'), 'ptr')
    t = arr
    while z3.is_store(t):
        i, v = z3.simplify(t.arg(1)), z3.simplify(t.arg(2))
        if i.eq(obj) and z3.is_int_value(v):
            for base, (name, mod) in ex.glob_rev.items():
                if base <= v.as_long() < base + (1 << 24):
                    m = re.match(r'_ZTV.*?\d+(Posix\w+)E$', name)
                    return (m.group(1) if m else name), arr[obj] == v
        t = t.arg(0)
    return None, None


def pathmods(c, more=()):
    ex = c.ex
    m = {key(ex): None, ('E', 'i8'): None, ('E', 'i32'): None, ('OPEN',): None, ('PATH',): None, ('STR',): None, ('E', 'ptr'): None, ('MAPPED',): None, ('EVER',): None, ('LIVE',): None,
         ('F', 'stat', 48): None, LK: None, ('E', 'i64'): None}
    for k in list(c.st.mem):
        if k[0] == 'F' and len(k) > 1 and str(k[1]).startswith('Posix') and k[1] != ENV:
            m[k] = None
    return m


def okst(c):
    return sstate(c, c.args[0].addr) == 0


def res(c):
    return c.ex.region(c.st, ('E', 'ptr'), 'ptr')[c.args[3].addr]


def new_post(kinds, c):
    ex = c.ex
    o0, o1 = opened(ex, c.old), opened(ex, c.st)
    m0, m1 = mapped(ex, c.old), mapped(ex, c.st)
    h, f = balance(c)
    r = [('no refused unit is kept', f == ZERO)]
    obj = value_at(res(c))
    cls, isit = vtable_of(c, obj)
    nothing = z3.And(o1 == o0, m1 == m0, h == ZERO)
    r.append(('on failure there is no object and nothing is kept', z3.Implies(z3.Not(okst(c)), z3.And(res(c) == 0, nothing))))
    env = c.args[1].addr
    own = None
    if cls == MAP:
        b, l = c.F(MAP, 'mmap_base_')[obj], c.F(MAP, 'length_')[obj]
        lim = c.F(MAP, 'mmap_limiter_')[obj]
        own = z3.And(m1 == z3.Store(m0, b, l), l > 0, m0[b] == 0, o1 == o0, lim == env + ex.fkey(ENV, 'mmap_limiter_')[2], h == one(lim))
    elif cls == RND:
        p, fd, lim = c.F(RND, 'has_permanent_fd_')[obj], c.F(RND, 'fd_')[obj], c.F(RND, 'fd_limiter_')[obj]
        own = z3.And(p <= 1, lim == env + ex.fkey(ENV, 'fd_limiter_')[2], m1 == m0,
                     z3.If(p != 0, z3.And(o1 == z3.Store(o0, fd, True), z3.Not(o0[fd]), h == one(lim)), z3.And(fd == BAD, o1 == o0, h == ZERO)))
    elif cls in (SEQ, WF):
        fd = c.F(cls, 'fd_')[obj]
        own = z3.And(o1 == z3.Store(o0, fd, True), z3.Not(o0[fd]), m1 == m0, h == ZERO)
    elif cls == 'PosixLogger':
        fd = fpfd(ex)(c.F('PosixLogger', 'fp_')[obj])
        own = z3.And(o1 == z3.Store(o0, fd, True), z3.Not(o0[fd]), m1 == m0, h == ZERO)
    if cls is not None and cls not in kinds:
        own = z3.BoolVal(False)
    r.append(('on success the object owns exactly what was acquired', z3.Implies(okst(c), z3.And(own, isit, res(c) == obj, obj != 0) if own is not None else z3.BoolVal(False))))
    return r


def new_pre(c):
    t, r = c.args[1].addr, c.args[3].addr
    n = 288
    return [('environment in memory', z3.And(t > 0, t + n < HEAPMAX)), ('result apart from the environment', z3.And(r > 0, r + 8 < HEAPMAX, z3.Or(r + 8 <= t, t + n <= r))),
            ('result apart from the name', z3.Or(r + 8 <= c.args[2].addr, c.args[2].addr + 32 <= r)),
            ('standard limits: descriptor -1 is never open', z3.Not(opened(c.ex, c.st)[BAD]))]


def tasks(prog):
    kw = dict(models=MODELS, loops=[RetryLoop], contracts=[PosixErr])
    kr = dict(models=MODELS, loops=WF_LOOPS, contracts=[PosixErr])

    def limiter_pre(c):
        return [('object in memory', z3.And(c.args[0].addr > 0, c.args[0].addr + 8 < HEAPMAX))]

    def acq_post(c):
        h, f = balance(c)
        l = c.args[0].addr
        got = c.ret if z3.is_bool(c.ret) else c.ret != 0
        return [('true exactly when one slot was granted', h == z3.If(got, one(l), ZERO)), ('a refused request leaves the budget unchanged', f == ZERO)]

    def rel_post(c):
        h, f = balance(c)
        return [('gives back exactly the one slot held', z3.And(h == ZERO, f == ZERO))]

    def rnd_held(c):
        return z3.If(C20.perm(c), one(c.F(RND, 'fd_limiter_')[C20.t_(c)]), ZERO)

    def map_held(c):
        return one(c.F(MAP, 'mmap_limiter_')[C20.t_(c)])

    def set_held(held):
        def setup(c):
            c.st.ghost['held'] = held(c)
        return setup

    def released(c):
        h, f = balance(c)
        return [('the slot is given back exactly once', z3.And(h == ZERO, f == ZERO))]

    def dmods(c):
        m = C20.dmods(c)
        m[LK] = None
        return m

    def ctor_rnd_pre(c):
        fd = c.args[2]
        return [('object in memory', z3.And(c.args[0].addr > 0, c.args[0].addr + 64 < HEAPMAX)),
                ('open descriptor', z3.And(fd >= 0, fd < (1 << 31), opened(c.ex, c.st)[fd])),
                ('arguments apart', z3.And([z3.Or(x + 32 <= c.args[0].addr, c.args[0].addr + 64 <= x) for x in (c.args[1].addr, c.args[3].addr)]))]

    def ctor_rnd_post(c):
        t, fd = c.args[0].addr, c.args[2]
        h, f = balance(c)
        p, f2, lim = c.F(RND, 'has_permanent_fd_')[t], c.F(RND, 'fd_')[t], c.F(RND, 'fd_limiter_')[t]
        o0, o1 = opened(c.ex, c.old), opened(c.ex, c.st)
        return [('keeps the descriptor exactly when a slot was granted, otherwise closes it once',
                 z3.And(p <= 1, lim == c.args[3].addr, f == ZERO,
                        z3.If(p != 0, z3.And(f2 == fd, o1 == o0, h == one(lim)), z3.And(f2 == BAD, o1 == z3.Store(o0, fd, False), h == ZERO))))]

    def limit_ctor_post(c):
        return [('the budget starts at the configured limit', c.ex.region(c.st, LK, 'i32')[c.args[0].addr] == c.args[1])]

    def gval(c, name, st=None):
        g = [x for m in prog.mods for x in m.globals if name in x]
        mod = [m for m in prog.mods for x in m.globals if name in x]
        if not g:
            raise Unsupported('no global ' + name)
        return c.ex.load(st or c.st, c.ex.global_ptr(g[0], mod[0]), 'i32')

    def maxmmaps_post(c):
        return [('the configured limit', c.ret == gval(c, 'g_mmap_limit', c.old))]

    def maxopen_post(c):
        g0 = gval(c, 'g_open_read_only_file_limit', c.old)
        v = c.st.aux.get('rlim')
        return [('the configured limit if one is set', z3.Implies(g0 < (1 << 31), c.ret == g0)),
                ('otherwise at most a fifth of the descriptors available, 50 if unknown',
                 z3.Implies(g0 >= (1 << 31), c.ret == 50 if v is None else z3.Or(v == M64 - 1, sg(c.ret) <= v / 5)))]

    def env_ctor_post(c):
        t = c.args[0].addr
        a = c.ex.region(c.st, LK, 'i32')
        return [('mapping budget starts at the mapping limit', a[t + c.ex.fkey(ENV, 'mmap_limiter_')[2]] == gval(c, 'g_mmap_limit')),
                ('descriptor budget starts at the descriptor limit', a[t + c.ex.fkey(ENV, 'fd_limiter_')[2]] == gval(c, 'g_open_read_only_file_limit'))]

    def sync_post(c):
        return [('every descriptor opened for the directory is closed again', opened(c.ex, c.st) == opened(c.ex, c.old))]
    N = r'PosixEnv::'
    L = [
        posix_error_task(),
        simple('Limiter(limit)', r'Limiter::Limiter\(', limiter_pre, limit_ctor_post, lambda c: {LK: None}, config=lim_config(track=False), models=MODELS),
        simple('Limiter::Acquire', r'Limiter::Acquire\(', limiter_pre, acq_post, lambda c: {LK: None}, config=lim_config(), models=MODELS),
        simple('Limiter::Release', r'Limiter::Release\(', limiter_pre, rel_post, lambda c: {LK: None}, config=lim_config(),
               setup=set_held(lambda c: one(c.args[0].addr)), models=MODELS),
        simple('PosixRandomAccessFile()', RND + r'::PosixRandomAccessFile\(', ctor_rnd_pre, ctor_rnd_post, pathmods, config=lim_config(this_arg=0), **kw),
        simple('~PosixRandomAccessFile', RND + r'::~PosixRandomAccessFile\(', C20.rnd_pre, released, dmods, config=lim_config(this_arg=0), setup=set_held(rnd_held), **kw),
        simple('~PosixMmapReadableFile', MAP + r'::~PosixMmapReadableFile\(', C20.map_inv, released, dmods, config=lim_config(this_arg=0), setup=set_held(map_held), **kw),
        simple('NewSequentialFile', N + r'NewSequentialFile\(', new_pre, lambda c: new_post((SEQ,), c), pathmods, config=lim_config(), **kw),
        simple('NewRandomAccessFile', N + r'NewRandomAccessFile\(', new_pre, lambda c: new_post((RND, MAP), c), pathmods, config=lim_config(), **kw),
        simple('NewWritableFile', N + r'NewWritableFile\(', new_pre, lambda c: new_post((WF,), c), pathmods, config=lim_config(), **kw),
        simple('NewAppendableFile', N + r'NewAppendableFile\(', new_pre, lambda c: new_post((WF,), c), pathmods, config=lim_config(), **kw),
        simple('NewLogger', N + r'NewLogger\(', new_pre, lambda c: new_post(('PosixLogger',), c), pathmods, config=lim_config(), **kw),
        simple('Sync', r'PosixWritableFile::Sync\(\)', wf_pre, sync_post, wf_mods, config=wf_config(close_counts=False, window=False), **kr),
        simple('MaxMmaps', r'MaxMmaps\(\)', None, maxmmaps_post, lambda c: {}, config=lim_config(this_arg=0), models=MODELS),
        simple('MaxOpenFiles', r'MaxOpenFiles\(\)', None, maxopen_post, lambda c: {('E', 'i32'): None, ('G',): None}, config=lim_config(this_arg=0), models=MODELS, no_frame=True),
        simple('PosixEnv()', r'PosixEnv::PosixEnv\(', lambda c: [('object in memory', z3.And(c.args[0].addr > 0, c.args[0].addr + 288 < HEAPMAX))], env_ctor_post, None,
               config=lim_config(this_arg=0, track=False), models=MODELS, no_frame=True),
    ]
    return L

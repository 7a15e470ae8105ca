"""Trusted contracts of the POSIX calls, shared by C18..C22 (recorded as assumptions in the evidence).

Ghost state:  OPEN  descriptor -> open?      PATH  descriptor -> path it was opened with
              out   bytes the system accepted for the file under study
              failed  a system call reported an error (other than an interrupted, retried one)
"""
import re
from .common import *
from .status_spec import *

ERRNO = (1 << 50) + (1 << 49)
EINTR = 4
ENOENT = 2
M32 = 1 << 32
M64 = 1 << 64
BAD = M32 - 1
FILE_BUF = 65536


def posix_driver(n):
    wrap = ['open', 'close', 'write', 'read', 'pread', 'lseek', 'fdatasync', 'fsync', 'mmap', 'munmap', 'stat', 'fstat', 'fdopen', 'fclose', 'fcntl', 'flock']
    wrap += [w + '64' for w in ('open', 'pread', 'lseek', 'mmap', 'stat', 'fstat', 'fcntl')]
    return {'src': 'posix.cc', 'sources': ['util/env.cc', 'util/status.cc', 'util/logging.cc'], 'extra': ['-DPROP=%d' % n] + ['-Wl,--wrap=' + w for w in wrap]}



def bseq(ex, B, p, n):
    return M.bseq_fn(ex)(B, p, n)


def bs(ex, st, p, n, B=None):
    """the n bytes at p, with the defining facts of the empty and the sized sequence"""
    B = M.bytes_mem(ex, st) if B is None else B
    s = bseq(ex, B, p, n)
    st.assume(z3.Implies(n >= 0, z3.Length(s) == n), z3.Implies(n == 0, s == M.empty(ex)))
    return s


def cat(ex, st, B, p, k, r):
    """defining fact: the k + r bytes at p are the k bytes at p followed by the r bytes at p + k"""
    k, r = z3.simplify(k), z3.simplify(r)
    a, b, w = bs(ex, st, p, k, B), bs(ex, st, z3.simplify(p + k), r, B), bs(ex, st, p, z3.simplify(k + r), B)
    st.assume(z3.Implies(z3.And(k >= 0, r >= 0), w == z3.Concat(a, b)))


def intmap(ex, st, name, sort):
    k = (name,)
    if k not in ex.init_mem:
        ex.init_mem[k] = (z3.Const('M_' + name, z3.ArraySort(z3.IntSort(), sort)), 'bool' if sort == z3.BoolSort() else 'seq')
    return st.mem.get(k, ex.init_mem[k][0])


def set_map(ex, st, name, i, v, sort):
    a = intmap(ex, st, name, sort)
    ex.log_write((name,), (i,))
    st.mem[(name,)] = z3.Store(a, i, v)


def opened(ex, st):
    return intmap(ex, st, 'OPEN', z3.BoolSort())


def paths(ex, st):
    return intmap(ex, st, 'PATH', M.seqsort(ex))


def set_errno(ex, st, v=None):
    k = ('E', 'i32')
    e = ex.fresh_int(st, 'errno', 32) if v is None else v
    st.assume(e > 0, e < 4096)
    ex.log_write(k, (z3.IntVal(ERRNO),))
    st.mem[k] = ex.upd(ex.region(st, k), (z3.IntVal(ERRNO),), e)
    return e


def ghost(st, name, default=None):
    return st.ghost.get(name, default)


def fail(st, cond):
    if 'failed' in st.ghost:
        st.ghost['failed'] = z3.simplify(z3.Or(st.ghost['failed'], cond))


def m_errno(ex, st, a, ins, dem):
    return P(z3.IntVal(ERRNO))


def hook(ex, name, *a):
    h = getattr(ex, name, None)
    if h:
        h(*a)


def either(ex, st, cond_fork):
    """fork on failure/success; cond_fork(st, ok) -> ret"""
    s2 = st.fork()
    return [(st, cond_fork(st, True)), (s2, cond_fork(s2, False))]


def m_open(ex, st, a, ins, dem):
    path = M.cstr(ex, st, a[0])
    flags = a[1]

    def go(s, ok):
        if ok:
            fd = ex.fresh('fd', z3.IntSort())
            s.assume(fd >= 0, fd < (1 << 31), z3.Not(opened(ex, s)[fd]))
            set_map(ex, s, 'OPEN', fd, z3.BoolVal(True), z3.BoolSort())
            set_map(ex, s, 'PATH', fd, path, M.seqsort(ex))
            s.aux['fds'] = s.aux.get('fds', ()) + ((fd, path, flags),)
            hook(ex, 'open_hook', ex, s, fd, path, flags, ins)
            return fd
        set_errno(ex, s)
        fail(s, z3.BoolVal(True))
        hook(ex, 'open_hook', ex, s, None, path, flags, ins)
        return z3.IntVal(BAD)
    return either(ex, st, go)


def m_close(ex, st, a, ins, dem):
    fd = a[0]
    isopen = opened(ex, st)[fd]
    ex.oblige(st, 'a descriptor is closed at most once, and only while open', z3.Or(fd == BAD, isopen), ins.line, 'safety')
    st.assume(z3.Or(fd == BAD, isopen))
    hook(ex, 'close_hook', ex, st, fd, ins)
    set_map(ex, st, 'OPEN', fd, z3.BoolVal(False), z3.BoolSort())
    if 'closes' in st.ghost:
        st.ghost['closes'] = st.ghost['closes'] + z3.If(fd == BAD, 0, 1)

    def go(s, ok):
        if ok:
            s.assume(fd != BAD)
            return z3.IntVal(0)
        set_errno(ex, s)
        if getattr(ex, 'close_counts', False):
            fail(s, z3.BoolVal(True))
        return z3.IntVal(BAD)
    return either(ex, st, go)


def m_write(ex, st, a, ins, dem):
    fd, p, n = a
    ex.oblige(st, 'data is written to an open descriptor', z3.Or(fd == BAD, opened(ex, st)[fd]), ins.line, 'safety')
    M.byte_copy_hook(ex, st, 'r', p, n, ins)
    hook(ex, 'write_hook', ex, st, fd, p, n, ins)
    B = M.bytes_mem(ex, st)

    def go(s, ok):
        if ok:
            r = ex.fresh('wrote', z3.IntSort())
            s.assume(fd != BAD, r >= 0, r <= n, n < (1 << 63))
            cat(ex, s, B, p.addr, r, n - r)
            if 'out' in s.ghost:
                s.ghost['out'] = z3.Concat(s.ghost['out'], bs(ex, s, p.addr, r, B))
            if 'datasync' in s.ghost:
                s.ghost['datasync'] = z3.And(s.ghost['datasync'], r == 0)
            return r
        e = set_errno(ex, s)
        fail(s, e != EINTR)
        return z3.IntVal(M64 - 1)
    return either(ex, st, go)


def deliver(ex, s, p, n):
    """the system stores r <= n bytes at p"""
    r = ex.fresh('got', z3.IntSort())
    s.assume(r >= 0, r <= n, n < (1 << 63))
    new = ex.fresh('filedata', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    B, B2 = M.frame_bytes(ex, s, p.addr, r, lambda B_, x: new[x])
    s.assume(bs(ex, s, p.addr, r, B2) == bs(ex, s, p.addr, r, new))
    return r, bs(ex, s, p.addr, r, new)


def m_read(ex, st, a, ins, dem):
    fd, p, n = a[0], a[1], a[2]
    off = a[3] if dem.startswith('pread') else None
    ex.oblige(st, 'data is read from an open descriptor', opened(ex, st)[fd], ins.line, 'safety')
    M.byte_copy_hook(ex, st, 'w', p, n, ins)

    def go(s, ok):
        if ok:
            r, seq = deliver(ex, s, p, n)
            s.ghost['reads'] = s.ghost.get('reads', z3.IntVal(0)) + 1
            s.ghost['delivered'] = seq
            s.ghost['delivered_n'] = r
            s.ghost['readfails'] = z3.BoolVal(False)
            hook(ex, 'read_hook', ex, s, fd, p, n, off, r, ins)
            return r
        e = set_errno(ex, s)
        fail(s, e != EINTR)
        s.ghost['readfails'] = z3.BoolVal(True)
        hook(ex, 'read_hook', ex, s, fd, p, n, off, None, ins)
        return z3.IntVal(M64 - 1)
    return either(ex, st, go)


def m_sync(ex, st, a, ins, dem):
    fd = a[0]
    ex.oblige(st, 'an open descriptor is synced', z3.Or(fd == BAD, opened(ex, st)[fd]), ins.line, 'safety')

    def go(s, ok):
        if ok:
            s.assume(fd != BAD)
            hook(ex, 'sync_hook', ex, s, fd, ins)
            return z3.IntVal(0)
        set_errno(ex, s)
        fail(s, z3.BoolVal(True))
        return z3.IntVal(BAD)
    return either(ex, st, go)


def m_lseek(ex, st, a, ins, dem):
    def go(s, ok):
        s.events = s.events + (('lseek', a[0], a[1], a[2], ok),)
        if ok:
            r = ex.fresh('off', z3.IntSort())
            s.assume(r >= 0, r < (1 << 63))
            return r
        set_errno(ex, s)
        fail(s, z3.BoolVal(True))
        return z3.IntVal(M64 - 1)
    return either(ex, st, go)


def mapped(ex, st):
    k = ('MAPPED',)
    if k not in ex.init_mem:
        ex.init_mem[k] = (z3.Const('M_MAPPED', z3.ArraySort(z3.IntSort(), z3.IntSort())), 'i64')
    return st.mem.get(k, ex.init_mem[k][0])


def m_mmap(ex, st, a, ins, dem):
    hook(ex, 'mmap_hook', ex, st, a, ins)

    def go(s, ok):
        if ok:
            p = ex.fresh('map', z3.IntSort())
            ex.assume_heap(s, p)
            s.assume(p > 0, p + a[1] < HEAPMAX, mapped(ex, s)[p] == 0, a[1] > 0)
            ex.log_write(('MAPPED',), (p,))
            s.mem[('MAPPED',)] = z3.Store(mapped(ex, s), p, a[1])
            s.aux['maps'] = s.aux.get('maps', ()) + ((p, a[1]),)
            return P(p)
        set_errno(ex, s)
        fail(s, z3.BoolVal(True))
        return P(z3.IntVal(M64 - 1))
    return either(ex, st, go)


def m_munmap(ex, st, a, ins, dem):
    ex.oblige(st, 'exactly an existing mapping is unmapped, in full, once', z3.And(mapped(ex, st)[a[0].addr] == a[1], a[1] > 0), ins.line, 'safety')
    ex.log_write(('MAPPED',), (a[0].addr,))
    st.mem[('MAPPED',)] = z3.Store(mapped(ex, st), a[0].addr, z3.IntVal(0))
    st.events = st.events + (('munmap', a[0].addr, a[1]),)
    return ex.fresh_int(st, 'r', 32)


def m_stat(ex, st, a, ins, dem):
    path = M.cstr(ex, st, a[0])

    def go(s, ok):
        if ok:
            v = ex.fresh('fsize', z3.IntSort())
            s.assume(v >= 0, v < (1 << 63))
            s.aux['stats'] = s.aux.get('stats', ()) + ((path, v),)
            k = ('F', 'stat', 48)
            arr = ex.region(s, k, 'i64')
            ex.log_write(k, (a[1].addr,))
            s.mem[k] = ex.upd(arr, (a[1].addr,), v)
            return z3.IntVal(0)
        set_errno(ex, s)
        fail(s, z3.BoolVal(True))
        return z3.IntVal(BAD)
    return either(ex, st, go)


def m_strerror(ex, st, a, ins, dem):
    p = ex.fresh('msg', z3.IntSort())
    ex.assume_heap(st, p)
    st.assume(p > 0)
    return P(p)


# ------------------------------------------------------------ std::string searching
def last_sep(ex, s, ch):
    return z3.Function('last_occurrence', M.seqsort(ex), z3.IntSort(), z3.IntSort())(s, ch)


def sep_facts(ex, st, s, ch):
    r = last_sep(ex, s, ch)
    st.assume(r >= -1, r < z3.Length(s), z3.Implies(r >= 0, s[r] == ch))
    return r


def m_rfind(ex, st, a, ins, dem):
    if not (is_num(z3.simplify(a[2])) and num(z3.simplify(a[2])) == M64 - 1):
        raise Unsupported('rfind with a start position')
    s = M.str_get(ex, st, a[0].addr)
    st.assume(z3.Length(s) < (1 << 62))
    r = sep_facts(ex, st, s, a[1])
    return z3.If(r < 0, z3.IntVal(M64 - 1), r)


def m_find(ex, st, a, ins, dem):
    s = M.str_get(ex, st, a[0].addr)
    r = sep_facts(ex, st, s, a[1])
    v = ex.fresh('found', z3.IntSort())
    st.assume(z3.Or(v == M64 - 1, z3.And(v >= a[2], v < z3.Length(s), s[v] == a[1], v <= r)), (v == M64 - 1) == z3.Or(a[2] > r, r < 0))
    return v


def m_substr(ex, st, a, ins, dem):
    # sret, this, pos, n
    s = M.str_get(ex, st, a[1].addr)
    ex.oblige(st, 'substr position within the string', a[2] <= z3.Length(s), ins.line, 'safety')
    n = z3.If(a[3] < z3.Length(s) - a[2], a[3], z3.Length(s) - a[2])
    M.str_set(ex, st, a[0].addr, z3.Extract(s, a[2], n))
    return None


def m_posix_error(ex, st, a, ins, dem):
    return st_err(ex, st, a, ins, dem)


BSR = M.BS
POSIX_MODELS = [(re.compile(p), f) for p, f in [
    (r'^__errno_location$', m_errno), (r'^open(64)?$', m_open), (r'^close$', m_close), (r'^write$', m_write), (r'^p?read(64)?$', m_read),
    (r'^fdatasync$|^fsync$', m_sync), (r'^lseek(64)?$', m_lseek), (r'^mmap(64)?$', m_mmap), (r'^munmap$', m_munmap), (r'^stat(64)?$', m_stat),
    (r'^strerror$', m_strerror), (BSR + r'(rfind|find_last_of)\(char, unsigned long\) const', m_rfind), (BSR + r'find\(char, unsigned long\) const', m_find),
    (BSR + r'substr\(', m_substr),
    (r'^lsmdb::(SequentialFile|RandomAccessFile|WritableFile|FileLock|Logger|Env)::~?\w+\(\)', lambda ex, st, a, ins, dem: None),
]]
POSIX_TRUST = STATUS_TRUST + [
    'POSIX calls: open returns a descriptor not in use or -1; read/pread/write move 0..n bytes or return -1; close releases the descriptor even when it reports an error (Linux); errno is set on failure',
    'std::string rfind/find/substr (ISO C++)']
POSIX_ASSUME = ['file names contain no NUL byte', 'buffers passed by the caller do not overlap the file object']


class PosixErr(FnSpec):
    """PosixError never reports success, and is NotFound exactly for ENOENT"""
    name = r'PosixError\('

    def modifies(self, c):
        if not hasattr(c, 'caller'):
            return {key(c.ex): [(c.args[0].addr,)], ('STR',): None}
        return {key(c.ex): [(c.args[0].addr,)]}

    def post(self, c):
        s = sstate(c, c.args[0].addr)
        f = z3.Function('status_kind', z3.IntSort(), z3.IntSort())
        r = [('an error status', s != 0)]
        return r


def posix_error_task():
    return Task('PosixError', r'PosixError\(', PosixErr(), 'int', models=STATUS_MODELS + POSIX_MODELS, helper=True)


# ------------------------------------------------------------ PosixWritableFile
WF = 'PosixWritableFile'


def wf_offset(ex, f):
    return ex.fkey(WF, f)[2]


def buf_addr(c):
    return c.args[c.off].addr + wf_offset(c.ex, 'buf_')


def wf(c, f, st=None):
    return c.F(WF, f, st)[this(c)]


def this(c):
    return c.args[getattr(c.ex, 'this_arg', 1)].addr


def buf(c):
    return this(c) + wf_offset(c.ex, 'buf_')


def view(c, st):
    """bytes accepted by the system, followed by the buffered ones"""
    ex = c.ex
    return z3.Concat(st.ghost['out'], bs(ex, c.st, buf(c), c.F(WF, 'pos_', st)[this(c)], M.bytes_mem(ex, st)))


def wf_size(c):
    return 65624


def wf_inv(c, st=None):
    fd = wf(c, 'fd_', st)
    s = st or c.st
    r = [('buffer position within the buffer', z3.And(wf(c, 'pos_', st) >= 0, wf(c, 'pos_', st) <= FILE_BUF)),
         ('descriptor open, or -1 after closing', z3.Or(fd == BAD, z3.And(fd >= 0, fd < (1 << 31), opened(c.ex, s)[fd])))]
    return r


def wf_pre(c):
    t = this(c)
    return [('object in memory', z3.And(t > 0, t + wf_size(c) < HEAPMAX))] + wf_inv(c)


def wf_config(this_arg=1, close_counts=True, data_arg=None, window=True):
    def cfg(ex, st):
        ex.this_arg = this_arg
        ex.tidy = ex.light = True
        ex.close_counts = close_counts
        ex.data_arg = data_arg
        st.ghost['out'] = z3.Const('out0', M.seqsort(ex))
        st.ghost['failed'] = z3.BoolVal(False)
        st.ghost['closes'] = z3.IntVal(0)
        st.ghost['datasync'] = z3.BoolVal(False)
        st.ghost['dirsync'] = z3.BoolVal(False)

        def whook(ex, s, fd, p, n, ins):
            c = Cx(ex, s, args=ex.root_args)
            ex.oblige(s, 'data goes to the file\'s own descriptor', fd == c.F(WF, 'fd_', ex.root_old)[this(c)], ins.line)
        ex.write_hook = whook

        def shook(ex, s, fd, ins):
            c = Cx(ex, s, args=ex.root_args)
            mine = fd == c.F(WF, 'fd_', ex.root_old)[this(c)]
            s.ghost['datasync'] = z3.Or(s.ghost['datasync'], mine)
            dn = M.str_get(ex, ex.root_old, this(c) + wf_offset(ex, 'dirname_'))
            s.ghost['dirsync'] = z3.Or(s.ghost['dirsync'], z3.And(z3.Not(mine), paths(ex, s)[fd] == dn))
        ex.sync_hook = shook

        def wins():
            c = Cx(ex, st, args=ex.root_args)
            w = [(buf(c), FILE_BUF)]
            if data_arg is not None:
                d, n = slice_of(c, ex.root_args[data_arg].addr, ex.root_old)
                w.append((d, n))
            return w
        if window:
            read_windows(ex, wins, 'the file\'s buffer or the data', writes=lambda: wins()[:1])
    return cfg


def wf_memcpy(ex, st, a, ins, dem):
    """memcpy, plus instances of the defining equation of byte sequences around the copy"""
    dst, src, n = a[0], a[1], z3.simplify(a[2])
    B = M.bytes_mem(ex, st)
    r = M.m_memcpy(ex, st, a, ins, dem)
    if is_num(n) and num(n) <= 16:
        return r
    B2 = M.bytes_mem(ex, st)
    if B2 is B or getattr(ex, 'this_arg', None) is None:
        return r
    c = Cx(ex, st, args=ex.root_args)
    k = z3.simplify(dst.addr - buf(c))

    def keep(p, m):
        p, m = z3.simplify(p), z3.simplify(m)
        st.assume(z3.Implies(z3.And(m >= 0, z3.Or(p + m <= dst.addr, dst.addr + n <= p)), bs(ex, st, p, m, B2) == bs(ex, st, p, m, B)))
    keep(buf(c), k)
    st.assume(z3.Implies(k == 0, bs(ex, st, buf(c), k, B2) == M.empty(ex)))
    cat(ex, st, B2, buf(c), k, n)
    if ex.data_arg is not None:
        d, m = slice_of(c, ex.root_args[ex.data_arg].addr, ex.root_old)
        k = z3.simplify(src.addr - d)
        cat(ex, st, B, d, k, n)
        cat(ex, st, B, d, z3.simplify(k + n), z3.simplify(m - k - n))
        keep(z3.simplify(d + k + n), m - k - n)
        keep(d, m)
    return r


def cuts(ex, st, B, data):
    """the data of an append, cut after what fits in the buffer"""


WF_MODELS = STATUS_MODELS + [(re.compile(r'^llvm\.memcpy\.|^llvm\.memmove\.|^memcpy$|^memmove$'), wf_memcpy)] + POSIX_MODELS


class WriteLoop(Loop):
    """remaining range (data, size): what was accepted so far plus the remaining range is the whole"""
    roles = {'data': 'ptr', 'size': 'i64'}

    def inv(self, c):
        ex = c.ex
        B = M.bytes_mem(ex, c.st)
        d, n, d0, n0 = c.v['data'].addr, c.v['size'], c.e['data'].addr, c.e['size']
        return [('remaining range is a suffix', z3.And(n <= n0, n >= 0, d == d0 + (n0 - n))),
                ('accepted bytes then remaining bytes are the data', z3.Concat(c.st.ghost['out'], bs(ex, c.st, d, n, B)) ==
                 z3.Concat(c.entry.ghost['out'], bs(ex, c.st, d0, n0, M.bytes_mem(ex, c.entry)))),
                ('no failure so far', c.st.ghost['failed'] == c.entry.ghost['failed']),
                ('sync flag', z3.Implies(c.st.ghost['datasync'], c.entry.ghost['datasync']))]


class WriteLoopOff(Loop):
    """the same loop counting the bytes done"""
    roles = {'k': 'i64'}

    def done(self, c, d):
        return c.v['k']

    def params(self, c):
        fr = c.st.frame
        ps = [(t, fr.env[n]) for t, n, at in fr.fn.params if n in fr.env]
        p = [v for t, v in ps[2:] if t[0] == 'ptr']
        n = [v for t, v in ps[2:] if t == ('int', 64)]
        if not p or not n:
            raise Unsupported('no data/size parameters')
        return p[0].addr, n[0]

    def inv(self, c):
        ex = c.ex
        B = M.bytes_mem(ex, c.st)
        d, n = self.params(c)
        k = self.done(c, d)
        cat(ex, c.st, B, d, k, n - k)
        return [('bytes done', z3.And(k >= 0, k <= n)),
                ('accepted bytes', z3.Concat(c.st.ghost['out'], bs(ex, c.st, d + k, n - k, B)) == z3.Concat(c.entry.ghost['out'], bs(ex, c.st, d, n, B))),
                ('no failure so far', c.st.ghost['failed'] == c.entry.ghost['failed']),
                ('sync flag', z3.Implies(c.st.ghost['datasync'], c.entry.ghost['datasync']))]


class WriteLoopEnd(WriteLoopOff):
    """the same loop with a pointer running to the end of the data"""
    roles = {'p': 'ptr'}

    def done(self, c, d):
        return c.v['p'].addr - d


class RetryLoop(Loop):
    """an inner loop that only retries"""

    def inv(self, c):
        g, e = c.st.ghost, c.entry.ghost
        return [('a retry changes nothing', g[k] == e[k]) for k in ('out', 'failed', 'datasync', 'dirsync', 'closes', 'reads', 'delivered', 'delivered_n') if k in g]


WF_LOOPS = [WriteLoop, WriteLoopOff, WriteLoopEnd, RetryLoop]


def wf_mods(c, more=()):
    ex = c.ex
    t = this(c)
    m = {key(ex): None, ('E', 'i8'): None, ('E', 'i32'): None, ('OPEN',): None, ('PATH',): None, ('STR',): None,
         ex.fkey(WF, 'pos_'): [(t,)], ex.fkey(WF, 'fd_'): [(t,)]}
    m.update(more)
    return m

"""Logger: every call writes one complete, newline-terminated line."""
import re
from .common import *
from .status_spec import *

TUS = ['env_posix', 'env']
DRIVER = {'src': 'logger.cc', 'sources': ['util/env.cc', 'util/status.cc']}
DRIVER_SECS = 15
TRUST = ['snprintf/vsnprintf: write at most size bytes, return the full length, same text for same arguments (ISO C)',
         'localtime_r/gettimeofday deliver fields in their documented ranges (years 0..9999)',
         'thread ids print as text without NUL']
ASSUME = ['formatted message shorter than 2^31 - 1024 bytes and vsnprintf does not fail', 'the format and its arguments agree (caller\'s obligation)']


def blocks(st):
    return list(st.aux.get('stackarr', ())) + list(st.aux.get('vblocks', ()))


def in_blocks(st, a, n):
    return z3.Or([z3.And(a >= lo, a + n <= lo + k) for lo, k in blocks(st)] or [z3.BoolVal(False)])


def cfg(ex, st):
    ex.alloc_hook = lambda ex_, s, a, n: s.aux.__setitem__('vblocks', s.aux.get('vblocks', ()) + ((a, n),))

    def hook(ex_, s, rw, p, key, idx, ty, line, v=None):
        if key != ('E', 'i8') or p.glob is not None:
            return
        a = idx[0]
        if is_num(a):
            return
        ex.oblige(s, 'byte %s lies inside the line buffer' % ('read' if rw == 'r' else 'written'), in_blocks(s, a, 1), line, 'safety')
    ex.access_hook = hook
    st.ghost['writes'] = z3.IntVal(0)
    st.ghost['flushed'] = z3.BoolVal(True)
    st.ghost['apused'] = z3.K(z3.IntSort(), z3.BoolVal(False))
    ex.msg = z3.Function('msg', z3.IntSort(), z3.IntSort())
    ex.msglen = z3.Int('msglen')
    i = z3.Int('i!m')
    st.assume(ex.msglen >= 0, ex.msglen < (1 << 31) - 1024)


def text_write(ex, st, buf, size, fn, n, ins):
    """the printf family's effect on the buffer: min(n, size-1) characters and a NUL"""
    ex.oblige(st, 'formatted text stays inside the line buffer', z3.And(size < (1 << 31), z3.Or(size == 0, in_blocks(st, buf.addr, size))), ins.line, 'safety')
    B = M.bytes_mem(ex, st)
    B2 = ex.fresh('B', B.sort())
    x = z3.Const('a!q', z3.IntSort())
    k = z3.If(n < size, n, size - 1)
    st.assume(z3.ForAll([x], B2[x] == z3.If(z3.And(size > 0, buf.addr <= x, x < buf.addr + k), fn(x - buf.addr),
                                          z3.If(z3.And(size > 0, x == buf.addr + k), 0, B[x])), patterns=[B2[x]]))
    ex.log_write(('E', 'i8'), None)
    st.mem[('E', 'i8')] = B2


def m_snprintf(ex, st, a, ins, dem):
    buf, size, fmt = a[0], a[1], a[2]
    gb = ex.global_bytes(fmt)
    if gb is None:
        raise Unsupported('snprintf with a computed format')
    f = gb[:gb.index(b'\0')]
    total, ai, i, nlits = [], 3, 0, 0
    while i < len(f):
        if f[i:i + 1] != b'%':
            nlits += 1
            i += 1
            continue
        m = re.match(rb'%(0?)(\d*)(ll|l)?([duxs%])', f[i:])
        if not m:
            raise Unsupported('format %r' % f)
        i += m.end()
        if m.group(4) == b'%':
            nlits += 1
            continue
        v = a[ai]
        ai += 1
        w = int(m.group(2) or b'0')
        n = ex.fresh('flen', z3.IntSort())
        if m.group(4) == b's':
            n = z3.Length(M.cstr(ex, st, v))
            if w:
                raise Unsupported('width on %s')
        else:
            lim = 10 ** w
            W = 64 if m.group(3) else 32
            st.assume(n >= max(w, 1), n <= max(w, 20))
            if w:
                st.assume(z3.Implies(v < min(lim, 1 << (W - 1)), n == w))
        total.append(n)
    n = z3.simplify(z3.Sum(total + [z3.IntVal(nlits)])) if total else z3.IntVal(nlits)
    r = ex.fresh_int(st, 'hl', 32)
    st.assume(r == n)
    ex.fresh_n += 1
    fn = z3.Function('hdr_%d' % ex.fresh_n, z3.IntSort(), z3.IntSort())
    if nlits and f[-1:] != b'%' and not re.search(rb'%[0-9]*(ll|l)?[duxs]$', f):
        st.assume(fn(r - 1) == f[-1])
    st.aux['hdr'] = (fn, r)
    text_write(ex, st, buf, size, fn, r, ins)
    return r


def m_vsnprintf(ex, st, a, ins, dem):
    buf, size, fmt, ap = a
    ex.oblige(st, 'the message is formatted with the caller\'s format', fmt.addr == ex.root_args[1].addr, ins.line)
    ex.oblige(st, 'each formatting uses a fresh copy of the argument list', z3.Not(st.ghost['apused'][ap.addr]), ins.line, 'safety')
    st.ghost['apused'] = z3.Store(st.ghost['apused'], ap.addr, z3.BoolVal(True))
    text_write(ex, st, buf, size, lambda x: ex.msg(x), ex.msglen, ins)
    r = ex.fresh_int(st, 'ml', 32)
    st.assume(r == ex.msglen)
    return r


def m_vacopy(ex, st, a, ins, dem):
    st.ghost['apused'] = z3.Store(st.ghost['apused'], a[0].addr, st.ghost['apused'][a[1].addr])
    return None


def m_fwrite(ex, st, a, ins, dem):
    p, sz, cnt, fp = a
    c = Cx(ex, st)
    ex.oblige(st, 'writes to the logger\'s own file', fp.addr == ex.region(st, ex.fkey('PosixLogger', 'fp_'))[ex.root_args[0].addr], ins.line)
    n = z3.simplify(sz * cnt)
    ex.oblige(st, 'bytes written out lie inside the line buffer', in_blocks(st, p.addr, n), ins.line, 'safety')
    st.ghost['writes'] = st.ghost['writes'] + 1
    st.ghost['flushed'] = z3.BoolVal(False)
    hdr = st.aux.get('hdr')
    if hdr is None:
        ex.oblige(st, 'the line starts with a header', z3.BoolVal(False), ins.line)
        return cnt
    h, hl = hdr
    m, ml = ex.msg, ex.msglen
    B = M.bytes_mem(ex, st)
    i = ex.fresh('i', z3.IntSort())
    last = z3.If(ml > 0, m(ml - 1), h(hl - 1))
    ex.oblige(st, 'complete header', z3.Implies(z3.And(i >= 0, i < hl), B[p.addr + i] == h(i)), ins.line)
    ex.oblige(st, 'complete message', z3.Implies(z3.And(i >= 0, i < ml), B[p.addr + hl + i] == m(i)), ins.line)
    ex.oblige(st, 'exactly one newline is added, and only when missing', z3.And(n == hl + ml + z3.If(last == 10, 0, 1),
                                                                              z3.Implies(last != 10, B[p.addr + hl + ml] == 10)), ins.line)
    r = ex.fresh_int(st, 'written', 64)
    return r


def m_fflush(ex, st, a, ins, dem):
    own = a[0].addr == ex.region(st, ex.fkey('PosixLogger', 'fp_'))[ex.root_args[0].addr]
    st.ghost['flushed'] = z3.Or(st.ghost['flushed'], own)
    return ex.fresh_int(st, 'r', 32)


def field(ex, st, cls, off, addr, lo, hi):
    k = ('F', cls, off)
    v = ex.fresh(cls, z3.IntSort())
    M32 = 1 << 32 if cls == 'tm' else 1 << 64
    st.assume(z3.Or(z3.And(v >= max(lo, 0), v <= hi), z3.And(lo < 0, v >= M32 + lo, v < M32)))
    ex.log_write(k, (addr,))
    st.mem[k] = ex.upd(ex.region(st, k, 'i32' if cls == 'tm' else 'i64'), (addr,), v)


def m_gettimeofday(ex, st, a, ins, dem):
    field(ex, st, 'timeval', 0, a[0].addr, 0, (1 << 62))
    field(ex, st, 'timeval', 8, a[0].addr, 0, 999999)
    return ex.A.const(0, 32)


def m_localtime(ex, st, a, ins, dem):
    for off, lo, hi in ((0, 0, 60), (4, 0, 59), (8, 0, 23), (12, 1, 31), (16, 0, 11), (20, -1900, 8099)):
        field(ex, st, 'tm', off, a[1].addr, lo, hi)
    return a[1]


def m_stream(ex, st, a, ins, dem):
    return a[0] if 'operator<<' in dem else None


def m_tid(ex, st, a, ins, dem):
    return ex.fresh_int(st, 'tid', 64)


def m_osstr(ex, st, a, ins, dem):
    M.str_set(ex, st, a[0].addr, ex.fresh('tidtext', M.seqsort(ex)))
    return None


def m_fclose(ex, st, a, ins, dem):
    st.events = st.events + (('fclose', a[0].addr),)
    return ex.fresh_int(st, 'r', 32)


LOG_MODELS = [(re.compile(p), f) for p, f in [
    (r'^snprintf$', m_snprintf), (r'^vsnprintf$', m_vsnprintf), (r'^llvm\.va_copy', m_vacopy), (r'^fwrite$', m_fwrite), (r'^fflush$', m_fflush),
    (r'^gettimeofday$', m_gettimeofday), (r'^localtime_r$', m_localtime), (r'basic_ostringstream<.*>::(~?basic_ostringstream)\(\)', m_stream),
    (r'std::operator<<.*std::thread::id', m_stream), (r'^std::this_thread::get_id\(\)', m_tid), (r'basic_ostringstream<.*>::str\(\) const', m_osstr),
    (r'^fclose$', m_fclose)]]


def fp(c, st=None):
    return c.F('PosixLogger', 'fp_', st)[c.args[0].addr]


def tasks(prog):
    def post(c):
        return [('writes to the file exactly once', c.st.ghost['writes'] == 1),
                ('the line reaches the file before the call returns', c.st.ghost['flushed']),
                ('same file', fp(c) == fp(c, c.old)),
                ('temporary buffers released', z3.And([z3.BoolVal(True)] + [z3.Not(M.live(c.ex, c.st)[a]) for a, n in c.st.aux.get('vblocks', ())]))]

    def mods(c):
        return {('E', 'i8'): None, ('EVER',): None, ('LIVE',): None, ('STR',): None, ('F', 'tm', 0): None}

    def log_cfg(ex, st):
        def vh(ex_, s, obj, k, vals, ins):
            s.events = s.events + ((k, obj.addr, vals),)
            return [(s, None)]
        ex.virtual_hook = vh

    def log_post(c):
        nul = c.args[0].addr == 0
        ev = c.st.events
        r = [('a null logger: no effect; otherwise exactly one call', z3.If(nul, z3.BoolVal(len(ev) == 0), z3.BoolVal(len(ev) == 1)))]
        for k, obj, vals in ev:
            r.append(('Logv of the given logger with the given format', z3.And(z3.BoolVal(k == 2 and len(vals) == 3), obj == c.args[0].addr, vals[1].addr == c.args[1].addr)))
        return r

    def dtor_post(c):
        ev = [e for e in c.st.events if e[0] == 'fclose']
        return [('file closed exactly once', z3.And(z3.BoolVal(len(ev) == 1), ev[0][1] == fp(c, c.old) if ev else z3.BoolVal(False)))]
    slot = [k for k, v in prog.virtuals('Logger').items() if v == 'Logv']
    if slot != [2]:
        raise Unsupported('Logger::Logv is not the third virtual slot')
    return [
        simple('Logv', r'^lsmdb::PosixLogger::Logv\(', lambda c: [('logger has a file', fp(c) != 0), ('distinct', z3.BoolVal(True))], post, modifies=mods, config=cfg, models=LOG_MODELS, no_frame=True),
        simple('PosixLogger', r'^lsmdb::PosixLogger::PosixLogger\(', lambda c: [('file given', c.args[1].addr != 0)],
               lambda c: [('takes the file', fp(c) == c.args[1].addr), ('no file operation', z3.BoolVal(len(c.st.events) == 0))],
               modifies=lambda c: {c.ex.fkey('PosixLogger', 'fp_'): [(c.args[0].addr,)], ('E', 'ptr'): [(c.args[0].addr,)]}, models=LOG_MODELS),
        simple('~PosixLogger', r'^lsmdb::PosixLogger::~PosixLogger\(', None, dtor_post, models=LOG_MODELS, modifies=lambda c: {('E', 'ptr'): [(c.args[0].addr,)]}),
        simple('Log', r'^lsmdb::Log\(', None, log_post, config=log_cfg),
    ]

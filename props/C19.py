"""PosixWritableFile::Sync: data, and a manifest's directory first, are synced before success is reported."""
from .posix_spec import *

TUS = ['env_posix', 'env']
DRIVER = posix_driver(19)
DRIVER_SECS = 25
TRUST = POSIX_TRUST
ASSUME = POSIX_ASSUME + ['a file object is used by one thread at a time (the interface\'s contract)',
                         'fdatasync/fsync return 0 only when the data is durable (the kernel\'s promise)']
MANIFEST = b'MANIFEST'


def ok(c):
    return sstate(c, c.args[0].addr) == 0


def manifest(c, st=None):
    return c.F(WF, 'is_manifest_', st)[this(c)] != 0


def name_facts(c):
    """the classification of the file never changes"""
    d = wf_offset(c.ex, 'dirname_')
    return [('manifest flag and directory kept', z3.And(c.F(WF, 'is_manifest_')[this(c)] == c.F(WF, 'is_manifest_', c.old)[this(c)],
                                                         M.str_get(c.ex, c.st, this(c) + d) == M.str_get(c.ex, c.old, this(c) + d)))]


def sync_pre(c):
    m = c.F(WF, 'is_manifest_')[this(c)]
    return wf_pre(c) + [('a bool', z3.Or(m == 0, m == 1))]


def sync_config(ex, st):
    wf_config(close_counts=False, window=False)(ex, st)
    base = ex.write_hook

    def whook(ex, s, fd, p, n, ins):
        base(ex, s, fd, p, n, ins)
        c = Cx(ex, s, args=ex.root_args)
        ex.oblige(s, 'a manifest\'s directory is synced before its data is written', z3.Implies(manifest(c, ex.root_old), s.ghost['dirsync']), ins.line)
    ex.write_hook = whook


def sync_post(c):
    g = c.st.ghost
    o = ok(c)
    return [('success means a data sync of the descriptor succeeded after the last write', z3.Implies(o, g['datasync'])),
            ('success means everything appended was written first', z3.Implies(o, z3.And(wf(c, 'pos_') == 0, g['out'] == view(c, c.old)))),
            ('success means a manifest\'s directory was synced', z3.Implies(z3.And(o, manifest(c, c.old)), g['dirsync'])),
            ('any failing step is reported', z3.Implies(g['failed'], z3.Not(o)))] + name_facts(c) + wf_inv(c)


def name_memcmp(ex, st, a, ins, dem):
    """memcmp against a constant, plus the fact that the characters of the file name are its contents"""
    p, q, n = a[0], a[1], z3.simplify(a[2])
    if not is_num(n):
        n = z3.simplify(ex.concretize(st, n)) if hasattr(ex, 'concretize') else n
    gb = ex.global_bytes(q) if is_num(n) else None
    if gb is None:
        return M.m_memcmp(ex, st, a, ins, dem)
    k = num(n)
    B = M.bytes_mem(ex, st)
    r = ex.fresh_int(st, 'memcmp', 32)
    st.assume((r == 0) == z3.And([B[p.addr + j] == gb[j] for j in range(k)]))
    for addr in (ex.root_args[1].addr, ex.root_args[0].addr + wf_offset(ex, 'filename_')):
        s = M.str_get(ex, st, addr)
        d = M.strdata_fn(ex)(addr, s)
        for j in range(k):
            x = p.addr + j - d
            st.assume(z3.Implies(z3.And(x >= 0, x < z3.Length(s), bseq(ex, B, d, z3.Length(s)) == s), B[p.addr + j] == s[x]))
    return r


CTOR_MODELS = [(re.compile(r'^memcmp$|^bcmp$'), name_memcmp)] + WF_MODELS


def ctor_post(c):
    ex = c.ex
    s = M.str_get(ex, c.old, c.args[1].addr)
    sep = last_sep(ex, s, z3.IntVal(ord('/')))
    base = sep + 1
    man = z3.And([base + len(MANIFEST) <= z3.Length(s)] + [s[base + j] == b for j, b in enumerate(MANIFEST)])
    d = M.str_get(ex, c.st, this(c) + wf_offset(ex, 'dirname_'))
    return [('a bool', c.F(WF, 'is_manifest_')[this(c)] <= 1), ('manifest exactly when the base name starts with MANIFEST', manifest(c) == man),
            ('directory of the file', d == z3.If(sep < 0, z3.Unit(z3.IntVal(ord('.'))), z3.Extract(s, 0, sep)))]


def tasks(prog):
    kw = dict(models=WF_MODELS, loops=WF_LOOPS, contracts=[PosixErr])
    W = r'PosixWritableFile::'

    def ctor_mods(c):
        t = this(c)
        return wf_mods(c, {c.ex.fkey(WF, 'is_manifest_'): [(t,)], ('E', 'ptr'): [(t,)]})

    def data_pre(c):
        d, n = slice_of(c, c.args[2].addr)
        t = this(c)
        return wf_pre(c) + [('data is the caller\'s memory', z3.And(sane(d, n), z3.Or(d + n <= t, t + wf_size(c) <= d)))]
    return [
        posix_error_task(),
        simple('Sync', W + r'Sync\(\)', sync_pre, sync_post, wf_mods, config=sync_config, budget=30, **kw),
        simple('PosixWritableFile()', W + r'PosixWritableFile\(', lambda c: [
            ('object in memory', z3.And(this(c) > 0, this(c) + wf_size(c) < HEAPMAX)),
            ('open descriptor', z3.And(c.args[2] >= 0, c.args[2] < (1 << 31), opened(c.ex, c.st)[c.args[2]])),
            ('argument is another object', z3.Or(c.args[1].addr + 32 <= this(c), c.args[1].addr >= this(c) + wf_size(c)))],
            ctor_post, ctor_mods, config=wf_config(this_arg=0, window=False), **dict(kw, models=CTOR_MODELS)),
        simple('Append keeps the classification', W + r'Append\(', data_pre, name_facts, wf_mods, config=wf_config(data_arg=2), **kw),
        simple('Flush keeps the classification', W + r'Flush\(\)', wf_pre, name_facts, wf_mods, config=wf_config(), **kw),
        simple('Close keeps the classification', W + r'Close\(\)', wf_pre, name_facts, wf_mods, config=wf_config(), **kw),
    ]

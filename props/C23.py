"""Whole-file helpers: complete contents or a reported failure."""
from .common import *
from .status_spec import *
from vc import containers as C

TUS = ['env']
DRIVER = {'src': 'wholefile.cc', 'sources': ['util/env.cc', 'util/status.cc']}
DRIVER_SECS = 15
TRUST = STATUS_TRUST + ['virtual operations of Env and its files: any status, arbitrary delivered bytes; a failed creation stores a null file']
ASSUME = ['the environment and the strings passed are valid, distinct objects',
          'a read delivers a slice that stays readable until the next operation (the interface\'s contract)']


def slot_names(prog, cls):
    return {k: v for k, v in prog.virtuals(cls).items()}


def env_cfg(prog, envarg):
    """models of the virtual calls made by the helpers"""
    names = {'Env': slot_names(prog, 'Env'), 'WritableFile': slot_names(prog, 'WritableFile'), 'SequentialFile': slot_names(prog, 'SequentialFile')}

    def cfg(ex, st):
        def vh(ex_, s, obj, k, vals, ins):
            isenv = obj.addr.eq(ex.root_args[envarg].addr)
            sret = bool(ins.ops[1] and 'sret' in ins.ops[1][0][2])
            out = None
            if sret:
                v = ex.fresh('res', ex.A.asort())
                ex.assume_heap(s, v)
                set_state(ex, s, vals[0].addr, v)
                out = v
                a = vals[1:]
            else:
                a = vals
            if isenv:
                op = names['Env'].get(k, '?')
            else:
                cls = s.aux.get('filecls')
                op = 'delete' if k == 1 else names[cls].get(k, '?') if cls else '?'
                ex.oblige(s, 'the file is used only while it exists', z3.And(obj.addr == s.ghost['file'], s.ghost['alive']), ins.line, 'safety')
            extra = {}
            allowed = ('NewSequentialFile', 'Read', 'delete') if 'ReadFile' in ex.root else ('NewWritableFile', 'Append', 'Sync', 'Close', 'Flush', 'RemoveFile', 'delete')
            ex.oblige(s, 'only the stated operations are used (%s)' % op, z3.BoolVal(op in allowed), ins.line)
            if op in ('NewWritableFile', 'NewSequentialFile') and isenv and len(a) == 3:
                f = ex.fresh('file', ex.A.asort())
                ex.assume_heap(s, f)
                s.assume(z3.If(v == 0, f != 0, f == 0))
                ex.store(s, a[2], 'ptr', P(f))
                s.ghost['file'] = f
                s.ghost['alive'] = v == 0
                s.aux['filecls'] = op[3:]
                extra['name_ok'] = z3.Or(a[1].addr == ex.root_args[envarg + fname_off(ex)].addr,
                                         M.str_get(ex, s, a[1].addr) == M.str_get(ex, ex.root_old, ex.root_args[envarg + fname_off(ex)].addr))
            if op == 'RemoveFile' and len(a) == 2:
                n = ex.root_args[envarg + fname_off(ex)].addr
                extra['name_ok'] = z3.Or(a[1].addr == n, M.str_get(ex, s, a[1].addr) == M.str_get(ex, ex.root_old, n))
            if op == 'Append' and len(a) == 2:
                d = ex.root_args[envarg + 1].addr
                c0 = Cx0(ex, ex.root_old)
                c1 = Cx0(ex, s)
                extra['data_ok'] = z3.And(c1.F('Slice', 'data_')[a[1].addr] == c0.F('Slice', 'data_')[d],
                                          c1.F('Slice', 'size_')[a[1].addr] == c0.F('Slice', 'size_')[d])
            if op == 'delete':
                s.ghost['alive'] = z3.BoolVal(False)
                s.ghost['deleted'] = s.ghost['deleted'] + 1
            if op == 'Read':
                read_effect(ex, s, a, v, ins)
            s.events = s.events + ((op, out, extra),)
            return [(s, None)]
        ex.virtual_hook = vh
        st.ghost['file'] = ex.A.addr(0)
        st.ghost['alive'] = z3.BoolVal(False)
        st.ghost['deleted'] = z3.IntVal(0)
        st.ghost['acc'] = M.empty(ex)
        st.ghost['ended'] = z3.BoolVal(False)
        st.ghost['err'] = z3.IntVal(0)
    return cfg


class Cx0:
    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def F(self, cls, f):
        return self.ex.region(self.st, self.ex.fkey(cls, f))


def fname_off(ex):
    return 2 if 'WriteString' in ex.root else 1


def read_effect(ex, s, a, v, ins):
    """SequentialFile::Read(n, Slice* result, char* scratch)"""
    n, res, scratch = a[1], a[2], a[3]
    ex.oblige(s, 'no read after the end or after an error', z3.And(z3.Not(s.ghost['ended']), s.ghost['err'] == 0), ins.line, 'post')
    ex.oblige(s, 'at least one byte is requested', n > 0, ins.line)
    ok = []
    for base, k in s.aux.get('vblocks', ()):
        ok.append(z3.And(scratch.addr == base, n <= k))
    ex.oblige(s, 'scratch buffer has room for the requested bytes', z3.Or(ok) if ok else z3.BoolVal(False), ins.line, 'safety')
    ex.havoc_key(s, ('E', 'i8'), None, 'rd')
    d, m = ex.fresh('frag', z3.IntSort()), ex.fresh('fragn', z3.IntSort())
    s.assume(d >= 0, m >= 0, d + m < HEAPMAX)
    for fld, val in (('data_', d), ('size_', m)):
        k = ex.fkey('Slice', fld)
        ex.log_write(k, (res.addr,))
        s.mem[k] = ex.upd(ex.region(s, k), (res.addr,), val)
    s.ghost['acc'] = z3.If(v == 0, z3.Concat(s.ghost['acc'], M.seqof(ex, s, P(d), m)), s.ghost['acc'])
    s.ghost['ended'] = z3.Or(s.ghost['ended'], z3.And(v == 0, m == 0))
    s.ghost['err'] = v


def alloc_note(ex, st, a, n):
    st.aux['vblocks'] = st.aux.get('vblocks', ()) + ((a, n),)


def same_status(c, s, r):
    return z3.Or(s == r, z3.And(s != 0, r != 0, sval(c.ex, c.st)[s] == sval(c.ex, c.st)[r]))


def write_post(sync):
    def post(c):
        ev = [e for e in c.st.events if e[0] != 'Flush']
        ops = [e[0] for e in ev]
        ret = sstate(c, c.args[0].addr)
        r = []
        # walk the protocol: each operation only after the previous ones succeeded
        want = ['NewWritableFile', 'Append'] + (['Sync'] if sync else []) + ['Close']
        core = [e for e in ev if e[0] in want]
        other = [e for e in ev if e[0] not in want and e[0] not in ('delete', 'RemoveFile')]
        r.append(('no other operation on the environment or the file', z3.BoolVal(not other)))
        r.append(('create, append%s, close in that order' % (', sync' if sync else ''), z3.BoolVal([e[0] for e in core] == want[:len(core)] and len(core) >= 1)))
        if not core or [e[0] for e in core] != want[:len(core)] or other:
            return r
        for e in core[:-1]:
            r.append(('nothing follows a failed %s' % e[0], e[1] == 0))
        last = core[-1]
        r.append(('success only when every step was done and succeeded', z3.Implies(ret == 0, z3.And(z3.BoolVal(len(core) == len(want)), last[1] == 0))))
        r.append(('stops early only on a failure', z3.BoolVal(True) if len(core) == len(want) else last[1] != 0))
        r.append(('returns the first error, or success', same_status(c, ret, last[1])))
        created = core[0][1] == 0
        r.append(('file object destroyed exactly once', c.st.ghost['deleted'] == z3.If(created, 1, 0)))
        rm = [e for e in ev if e[0] == 'RemoveFile']
        r.append(('file removed exactly when something failed after creation', z3.If(z3.And(created, last[1] != 0), z3.BoolVal(len(rm) == 1), z3.BoolVal(len(rm) == 0))))
        for e in ev:
            for k, g in e[2].items():
                r.append(('%s of %s' % ({'name_ok': 'file name', 'data_ok': 'complete data'}[k], e[0]), g))
        return r
    return post


def read_post(c):
    g = c.st.ghost
    ret = sstate(c, c.args[0].addr)
    data = M.str_get(c.ex, c.st, c.args[3].addr)
    ev = c.st.events
    r = [('opens the file once, first', z3.BoolVal(len(ev) >= 1 and ev[0][0] == 'NewSequentialFile' and
                                                [e[0] for e in ev].count('NewSequentialFile') == 1))]
    bad = [e[0] for e in ev if e[0] not in ('NewSequentialFile', 'Read', 'delete')]
    r.append(('no other operation', z3.BoolVal(not bad)))
    if not (len(ev) >= 1 and ev[0][0] == 'NewSequentialFile'):
        return r
    o = ev[0][1]
    r.append(('file name', ev[0][2]['name_ok']))
    r.append(('success only at an empty fragment', z3.Implies(ret == 0, z3.And(o == 0, g['ended'], g['err'] == 0))))
    r.append(('success only with exactly the fragments read', z3.Implies(ret == 0, data == g['acc'])))
    r.append(('failure is the first error', z3.Implies(ret != 0, z3.Or(z3.And(o != 0, same_status(c, ret, o)), z3.And(o == 0, same_status(c, ret, g['err']))))))
    r.append(('an error is never swallowed', z3.Implies(z3.Or(o != 0, g['err'] != 0), ret != 0)))
    r.append(('file object destroyed exactly once', g['deleted'] == z3.If(o == 0, 1, 0)))
    return r


class ReadLoop(Loop):
    def inv(self, c):
        g = c.st.ghost
        return [('string holds the fragments so far', M.str_get(c.ex, c.st, c.args[3].addr) == g['acc']),
                ('not ended, no error', z3.And(z3.Not(g['ended']), g['err'] == 0)),
                ('file alive', z3.And(g['alive'], g['deleted'] == 0))]


def tasks(prog):
    def w(sync):
        def mods(c):
            return {key(c.ex): [(c.args[0].addr,)], ('STR',): None}
        return mods

    def wpre(c):
        return [('objects in memory', z3.And(c.args[1].addr > 0, c.args[3].addr > 0))]

    def rpre(c):
        return [('distinct objects', z3.And(c.args[1].addr > 0, c.args[3].addr > 0, c.args[3].addr != c.args[2].addr))]

    def rcfg(ex, st):
        env_cfg(prog, 1)(ex, st)
        ex.alloc_hook = alloc_note
    return [
        simple('WriteStringToFile', r'^lsmdb::WriteStringToFile\(', wpre, write_post(False), modifies=w(False), config=env_cfg(prog, 1), models=STATUS_MODELS),
        simple('WriteStringToFileSync', r'^lsmdb::WriteStringToFileSync\(', wpre, write_post(True), modifies=w(True), config=env_cfg(prog, 1), models=STATUS_MODELS),
        simple('ReadFileToString', r'^lsmdb::ReadFileToString\(', rpre, read_post,
               modifies=lambda c: {key(c.ex): [(c.args[0].addr,)], ('STR',): [(c.args[3].addr,)], ('E', 'i8'): None, ('EVER',): None, ('LIVE',): None,
                                   c.ex.fkey('Slice', 'data_'): None, c.ex.fkey('Slice', 'size_'): None}, config=rcfg, models=STATUS_MODELS, loops=[ReadLoop]),
    ]

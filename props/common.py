import re
import z3
from vc.engine import Cx, FnSpec, Loop, P, STACK0, HEAPMAX, Unsupported, is_num, num
from vc.run import Task, Lemma
from vc import models as M

Int = z3.IntSort()


def byte(c, a, st=None):
    return c.E('i8', st)[a]


def sane(p, n):
    """a range of the caller's memory"""
    return z3.And(p > 0, n >= 0, p + n < HEAPMAX)


def slice_of(c, s, st=None):
    return c.F('Slice', 'data_', st)[s], c.F('Slice', 'size_', st)[s]


def is_stack(a):
    return is_num(a) and num(a) >= STACK0


def read_windows(ex, wins, what='the slices', writes=None):
    """bytes read (and optionally written) outside the stack lie inside one of the given (lo, n) ranges"""

    def inside(a, n, ws):
        return z3.Or([z3.And(lo <= a, a + n <= lo + k) for lo, k in ws] or [z3.BoolVal(False)])

    def hook(ex, st, rw, p, key, idx, ty, line, v=None):
        if key != ('E', 'i8') or is_stack(idx[0]) or p.glob is not None:
            return
        if rw == 'r':
            ex.oblige(st, 'byte read lies inside %s' % what, inside(idx[0], 1, wins() if callable(wins) else wins), line, 'safety')
        elif writes is not None:
            ex.oblige(st, 'byte written lies inside the buffer', inside(idx[0], 1, writes() if callable(writes) else writes), line, 'safety')

    def rhook(ex, st, rw, p, n, line):
        if is_stack(p.addr) or p.glob is not None:
            return
        if rw == 'r':
            ex.oblige(st, 'bytes read lie inside %s' % what,
                      z3.Or(n == 0, inside(p.addr, n, wins() if callable(wins) else wins)), line, 'safety')
        elif writes is not None:
            ex.oblige(st, 'bytes written lie inside the buffer',
                      z3.Or(n == 0, inside(p.addr, n, writes() if callable(writes) else writes)), line, 'safety')
    ex.access_hook = hook
    ex.range_hook = rhook


def simple(name, fn, pre=None, post=None, modifies=None, setup=None, **kw):
    """Task from plain functions"""
    class S(FnSpec):
        pass
    if pre:
        S.pre = lambda self, c: pre(c)
    if post:
        S.post = lambda self, c: post(c)
    if modifies:
        S.modifies = lambda self, c: modifies(c)
    if setup:
        S.setup = lambda self, c: setup(c)
    for k in ('at_exit', 'effect', 'no_frame', 'noreturn', 'at_call', 'name', 'free_keys'):
        if k in kw:
            v = kw.pop(k)
            setattr(S, k, (lambda v: (lambda self, c: v(c)))(v) if callable(v) else v)
    return Task(name, fn, S(), kw.pop('mode', 'int'), **kw)


def vtable_slots(prog, cls):
    """[mangled name, ...] of the virtual function table of cls"""
    for m in prog.mods:
        for n, g in m.globals.items():
            if n.startswith('_ZTV') and n.endswith('%d%sE' % (len(cls), cls)) and g.get('init') and g['init'][0] == 'agg':
                return [x[1][1] if x[1][0] == 'glob' else None for x in g['init'][1][0][1][1]][2:]
    return []


def own_virtuals(cls, pick=None):
    """virtual calls on an object of class cls (or the class pick names) go to that class's own table"""
    def hook(ex, st, obj, k, vals, ins):
        cl = (pick and pick(ex, st, obj)) or cls
        tab = vtable_slots(ex.prog, cl)
        if k >= len(tab) or tab[k] is None:
            raise Unsupported('virtual slot %s of %s' % (k, cl))
        f = ex.prog.find(tab[k], st.frame.fn.module)
        return ex.call(st, tab[k], vals, ins, f.module if f else st.frame.fn.module)
    return hook


def fresh_apart(ex, objs):
    """memory obtained from the allocator overlaps none of the caller's objects (objs: (address, size) pairs or a function)"""
    def hook(ex_, st, a, n):
        for lo, k in (objs() if callable(objs) else objs):
            st.assume(z3.Or(a + n <= lo, lo + k <= a))
        st.assume(a + n < HEAPMAX)
    ex.alloc_hook = hook

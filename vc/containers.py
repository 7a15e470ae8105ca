"""Trusted contracts of the C++ containers and smart pointers the code base uses."""
import re
import z3
from .arith import is_num, num
from .engine import P, Unsupported
from . import models as MM
from .models import M


def ghost_map(ex, st, name, sort, ty):
    key = (name,)
    if key not in ex.init_mem:
        ex.init_mem[key] = (z3.Const('M_' + name, z3.ArraySort(ex.A.asort(), sort)), ty)
    return st.mem.get(key, ex.init_mem[key][0])


def gm_set(ex, st, name, addr, v):
    key = (name,)
    ex.log_write(key, (addr,))
    st.mem[key] = ex.upd(st.mem.get(key, ex.init_mem[key][0]), (addr,), v)


def uptr(ex, st):
    return ghost_map(ex, st, 'UPTR', ex.A.asort(), 'ptr')


UP = r'^std::unique_ptr<.*>::'


@M(UP + r'unique_ptr<.*>\([^&]*\*\)')
def u_ctor(ex, st, a, ins, dem):
    uptr(ex, st)
    gm_set(ex, st, 'UPTR', a[0].addr, a[1].addr)
    return None


@M(UP + r'unique_ptr<.*>\((std::nullptr_t|decltype\(nullptr\))?\)')
def u_ctor0(ex, st, a, ins, dem):
    uptr(ex, st)
    gm_set(ex, st, 'UPTR', a[0].addr, ex.A.addr(0))
    return None


@M(UP + r'(operator->|get|operator\*)\(\) const')
def u_get(ex, st, a, ins, dem):
    return P(ex.select(uptr(ex, st), a[0].addr))


@M(UP + r'operator bool\(\) const')
def u_bool(ex, st, a, ins, dem):
    return ex.select(uptr(ex, st), a[0].addr) != ex.A.addr(0)


@M(UP + r'release\(\)')
def u_release(ex, st, a, ins, dem):
    v = ex.select(uptr(ex, st), a[0].addr)
    gm_set(ex, st, 'UPTR', a[0].addr, ex.A.addr(0))
    return P(v)


def u_destroy(ex, st, v, vals, ins):
    """delete the held object when non-null; returns states"""
    outs = []
    z = v == ex.A.addr(0)
    if not z3.is_false(z3.simplify(z)) and ex.feasible(st, z):
        s0 = st.fork()
        s0.assume(z)
        outs.append((s0, None))
    s1 = st.fork()
    s1.assume(z3.Not(z))
    if ex.feasible(s1):
        if ex.virtual_hook is None:
            raise Unsupported('smart pointer deletes an object outside the contracts')
        outs += ex.virtual_hook(ex, s1, P(v), 1, [P(v)], VoidIns())
    return outs


class VoidIns:
    ty = ('void',)
    res = None
    line = None
    ops = (None, ())


@M(UP + r'~unique_ptr\(\)')
def u_dtor(ex, st, a, ins, dem):
    v = ex.select(uptr(ex, st), a[0].addr)
    return [(s, None) for s, _ in u_destroy(ex, st, v, a, ins)]


@M(UP + r'reset\(.*\*\)')
def u_reset(ex, st, a, ins, dem):
    v = ex.select(uptr(ex, st), a[0].addr)
    gm_set(ex, st, 'UPTR', a[0].addr, a[1].addr)
    return [(s, None) for s, _ in u_destroy(ex, st, v, a, ins)]


# ------------------------------------------------------------ std::vector
def vsize(ex, st):
    return ghost_map(ex, st, 'VN', ex.A.isort(64), 'i64')


def vdata(ex, st):
    return ghost_map(ex, st, 'VD', ex.A.asort(), 'ptr')


def vsz(ex, st, addr):
    v = ex.select(vsize(ex, st), addr)
    if not ex.A.bv:
        st.assume(v >= 0, v < (1 << 60))
    return v


VC = r'^std::vector<char, std::allocator<char> ?>::'


@M(VC + r'vector\(unsigned long, std::allocator<char> const&\)')
def v_ctor_n(ex, st, a, ins, dem):
    p = MM.alloc(ex, st, a[1], 'vec')
    vsize(ex, st)
    vdata(ex, st)
    gm_set(ex, st, 'VN', a[0].addr, a[1])
    gm_set(ex, st, 'VD', a[0].addr, p.addr)
    return None


@M(VC + r'(data|begin|front)\(\)( const)?')
def v_data(ex, st, a, ins, dem):
    return P(ex.select(vdata(ex, st), a[0].addr))


@M(r'^std::vector<.*>::size\(\) const')
def v_size(ex, st, a, ins, dem):
    return vsz(ex, st, a[0].addr)


@M(r'^std::vector<.*>::empty\(\) const')
def v_empty(ex, st, a, ins, dem):
    return vsz(ex, st, a[0].addr) == 0


@M(VC + r'operator\[\]\(unsigned long\)')
def v_at_c(ex, st, a, ins, dem):
    ex.oblige(st, 'vector index in range', ex.A.ult(a[1], vsz(ex, st, a[0].addr)), ins.line, 'safety')
    return P(ex.select(vdata(ex, st), a[0].addr) + a[1])


@M(VC + r'~vector\(\)')
def v_dtor(ex, st, a, ins, dem):
    return None


def collect():
    import sys
    me = sys.modules[__name__]
    out = []
    for n in sorted(vars(me)):
        f = getattr(me, n)
        if callable(f) and getattr(f, '__module__', None) == __name__:
            for p in getattr(f, 'pats', []):
                out.append((p, f))
    return out

"""Contracts of Status used by the other properties (each is implied by what C05 proves about the real code).

The ghost map SVAL gives the abstract value (kind and message) of a representation.
"""
import re
from .common import *
from vc.models import M as model


def sval(ex, st):
    key = ('SVAL',)
    if key not in ex.init_mem:
        ex.init_mem[key] = (z3.Const('M_SVAL', z3.ArraySort(ex.A.asort(), ex.A.isort(64))), 'i64')
    return st.mem.get(key, ex.init_mem[key][0])


def sstate(c, a, st=None):
    return c.F('Status', 'state_', st)[a]


def s_ok(c, a, st=None):
    return sstate(c, a, st) == 0


def key(ex):
    return ex.fkey('Status', 'state_')


def set_state(ex, st, addr, v):
    k = key(ex)
    ex.log_write(k, (addr,))
    st.mem[k] = ex.upd(ex.region(st, k), (addr,), v)


def fresh_err(ex, st, val=None):
    """a new error representation"""
    s = ex.fresh('status', ex.A.asort())
    ex.assume_heap(st, s)
    st.assume(s != 0)
    if val is not None:
        st.assume(sval(ex, st)[s] == val)
    return s


def st_ok(ex, st, a, ins, dem):
    set_state(ex, st, a[0].addr, ex.A.addr(0))
    return None


def st_err(ex, st, a, ins, dem):
    h = getattr(ex, 'status_hook', None)
    s = fresh_err(ex, st)
    if h:
        h(ex, st, dem, a, s, ins)
    set_state(ex, st, a[0].addr, s)
    return None


def st_ctor0(ex, st, a, ins, dem):
    set_state(ex, st, a[0].addr, ex.A.addr(0))
    return None


def copied(ex, st, o):
    s = ex.fresh('status', ex.A.asort())
    ex.assume_heap(st, s)
    st.assume((s == 0) == (o == 0), sval(ex, st)[s] == sval(ex, st)[o])
    return s


def st_copy(ex, st, a, ins, dem):
    o = ex.select(ex.region(st, key(ex)), a[1].addr)
    set_state(ex, st, a[0].addr, copied(ex, st, o))
    return a[0] if 'operator' in dem else None


def st_move(ex, st, a, ins, dem):
    o = ex.select(ex.region(st, key(ex)), a[1].addr)
    mine = ex.select(ex.region(st, key(ex)), a[0].addr) if 'operator' in dem else ex.A.addr(0)
    set_state(ex, st, a[0].addr, o)
    if not a[0].addr.eq(a[1].addr):
        r = ex.fresh('moved', ex.A.asort())
        st.assume(z3.Or(r == 0, r == mine))
        set_state(ex, st, a[1].addr, r)
    return a[0] if 'operator' in dem else None


def st_dtor(ex, st, a, ins, dem):
    return None


def st_isok(ex, st, a, ins, dem):
    return ex.select(ex.region(st, key(ex)), a[0].addr) == 0


def st_is(ex, st, a, ins, dem):
    s = ex.select(ex.region(st, key(ex)), a[0].addr)
    f = z3.Function('status_kind', z3.IntSort(), z3.IntSort())
    n = {'NotFound': 1, 'Corruption': 2, 'NotSupportedError': 3, 'InvalidArgument': 4, 'IOError': 5}[re.search(r'Status::Is(\w+)', dem).group(1)]
    return z3.And(s != 0, f(sval(ex, st)[s]) == n)


def st_tostring(ex, st, a, ins, dem):
    s = ex.fresh('txt', M.seqsort(ex))
    M.str_set(ex, st, a[0].addr, s)
    return None


S = r'^lsmdb::Status::'
STATUS_MODELS = [(re.compile(p), f) for p, f in [
    (S + r'OK\(', st_ok), (S + r'(NotFound|Corruption|NotSupported|InvalidArgument|IOError)\(', st_err),
    (S + r'Status\(\)', st_ctor0), (S + r'Status\(lsmdb::Status const&\)', st_copy), (S + r'operator=\(lsmdb::Status const&\)', st_copy),
    (S + r'Status\(lsmdb::Status&&\)', st_move), (S + r'operator=\(lsmdb::Status&&\)', st_move), (S + r'~Status\(', st_dtor),
    (S + r'ok\(', st_isok), (S + r'Is(NotFound|Corruption|NotSupportedError|InvalidArgument|IOError)\(', st_is), (S + r'ToString\(', st_tostring)]]
STATUS_TRUST = ['Status operations are used through contracts proved under C05 (success/error, equal copies, moved-from stays valid)']


# ------------------------------------------------------------ std::function values
def funs(ex, st):
    k = ('FUN',)
    if k not in ex.init_mem:
        ex.init_mem[k] = (z3.Const('M_FUN', z3.ArraySort(ex.A.asort(), ex.A.isort(64))), 'i64')
    return st.mem.get(k, ex.init_mem[k][0])


def set_fun(ex, st, a, v):
    ex.log_write(('FUN',), (a,))
    st.mem[('FUN',)] = ex.upd(funs(ex, st), (a,), v)


def fn_copy(ex, st, a, ins, dem):
    set_fun(ex, st, a[0].addr, ex.select(funs(ex, st), a[1].addr))
    return a[0] if 'operator=' in dem else None


def fn_dtor(ex, st, a, ins, dem):
    return None


FN = r'^std::function<void \(void\*\)>::'
FUN_MODELS = [(re.compile(p), f) for p, f in [
    (FN + r'function\(std::function<void \(void\*\)> (const&|&&)\)', fn_copy),
    (FN + r'function\(std::function<void \(void\*\)>(const&|&&)\)', fn_copy),
    (FN + r'operator=\(std::function<void \(void\*\)>\s*(const&|&&)\)', fn_copy),
    (FN + r'~function\(\)', fn_dtor)]]

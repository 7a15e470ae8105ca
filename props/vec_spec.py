"""Trusted contract of std::vector<T*> (ISO C++): a sequence of pointers in contiguous storage that may move when it grows.

Ghost state per vector object: VN (size), VE (elements by index), VD (address of the storage), VI (an index holding a value:
the position a pointer was last pushed to).  Elements are read through their storage address, so operator[], iterators and
plain pointers into the storage agree; a growth moves the storage, so an address taken before is worth nothing after.
"""
from .common import *
from vc.containers import ghost_map, gm_set

ARR = z3.ArraySort(Int, Int)


def VN(ex, st, v):
    return ghost_map(ex, st, 'VN', Int, 'i64')[v]


def VE(ex, st, v):
    return ghost_map(ex, st, 'VE', ARR, 'arr')[v]


def VI(ex, st, v):
    return ghost_map(ex, st, 'VI', ARR, 'arr')[v]


def VD(ex, st, v):
    return ghost_map(ex, st, 'VD', Int, 'ptr')[v]


def vmods(c, v):
    return {('VN',): [(v,)], ('VE',): [(v,)], ('VI',): [(v,)], ('VD',): [(v,)], ('E', 'ptr'): None, ('EVER',): None, ('LIVE',): None}


def vec_ok(ex, st, v):
    """what holds of any vector object"""
    n, d = VN(ex, st, v), VD(ex, st, v)
    return z3.And(n >= 0, n < (1 << 57), d > 0, d + 8 * n < HEAPMAX)


def known(ex, st, v):
    """the vectors the contract at hand talks about"""
    vs = getattr(ex, 'vecs', None)
    if vs is None:
        vs = ex.vecs = []
    if not any(x.eq(v) for x in vs):
        vs.append(v)
    st.assume(vec_ok(ex, st, v))


def vec_hook(ex, st, rw, key, idx, line):
    """element accesses: called by the access hook"""
    if key != ('E', 'ptr') or is_stack(idx[0]):
        return
    a = idx[0]
    for v in getattr(ex, 'vecs', ()):
        n, d = VN(ex, st, v), VD(ex, st, v)
        inside = z3.And(d <= a, a < d + 8 * n)
        if rw == 'w':
            ex.oblige(st, 'vector elements are not overwritten through pointers', z3.Not(inside), line, 'extract')
        else:
            off = z3.simplify(a - d)
            i = z3.simplify(off / 8)
            if z3.is_mul(off) and is_num(off.arg(0)) and num(off.arg(0)) == 8:
                i = off.arg(1)
            st.assume(z3.Implies(z3.And(inside, (a - d) % 8 == 0), ex.region(st, ('E', 'ptr'), 'ptr')[a] == VE(ex, st, v)[i]))


def chain(ex, h):
    old = ex.access_hook

    def hook(ex_, st, rw, p, key, idx, ty, line, v=None):
        h(ex_, st, rw, key, idx, line)
        if old:
            old(ex_, st, rw, p, key, idx, ty, line, v)
    ex.access_hook = hook


def vec_config(ex):
    chain(ex, vec_hook)


def move(ex, st, v):
    d = ex.fresh('vd', Int)
    st.assume(d > 0, d + 8 * VN(ex, st, v) < HEAPMAX)
    VD(ex, st, v)
    gm_set(ex, st, 'VD', v, d)


def v_init(ex, st, a, ins, dem):
    v = a[0].addr
    VN(ex, st, v), VE(ex, st, v), VI(ex, st, v)
    gm_set(ex, st, 'VN', v, z3.IntVal(0))
    move(ex, st, v)
    known(ex, st, v)
    return None


def push(ex, st, v, x):
    known(ex, st, v)
    n = VN(ex, st, v)
    gm_set(ex, st, 'VE', v, z3.Store(VE(ex, st, v), n, x))
    gm_set(ex, st, 'VI', v, z3.Store(VI(ex, st, v), x, n))
    gm_set(ex, st, 'VN', v, n + 1)
    st.assume(n + 1 < (1 << 57))
    move(ex, st, v)


def v_resize(ex, st, a, ins, dem):
    v = a[0].addr
    known(ex, st, v)
    n, m = VN(ex, st, v), a[1]
    e = ex.fresh('ve', ARR)
    i = z3.Int('i!rs')
    old = VE(ex, st, v)
    st.assume(m < (1 << 57), z3.ForAll([i], e[i] == z3.If(z3.And(n <= i, i < m), 0, old[i]), patterns=[e[i]]))
    gm_set(ex, st, 'VE', v, e)
    gm_set(ex, st, 'VN', v, m)
    move(ex, st, v)
    return None


def guarded(f):
    """accesses of a vector some mutex guards"""
    def g(ex, st, a, ins, dem):
        h = getattr(ex, 'vec_guard', None)
        if h:
            h(ex, st, a[0].addr, ins.line)
        return f(ex, st, a, ins, dem)
    return g


def v_push(ex, st, a, ins, dem):
    push(ex, st, a[0].addr, ex.load(st, a[1], 'ptr', ins.line).addr)
    return None


def v_at(ex, st, a, ins, dem):
    v = a[0].addr
    known(ex, st, v)
    ex.oblige(st, 'vector index in range', z3.And(a[1] >= 0, a[1] < VN(ex, st, v)), ins.line, 'safety')
    return P(VD(ex, st, v) + 8 * a[1])


def v_back(ex, st, a, ins, dem):
    v = a[0].addr
    known(ex, st, v)
    n = VN(ex, st, v)
    ex.oblige(st, 'the last element is taken only from a non-empty vector', n > 0, ins.line, 'safety')
    return P(VD(ex, st, v) + 8 * (n - 1))


def v_begin(ex, st, a, ins, dem):
    known(ex, st, a[0].addr)
    return P(VD(ex, st, a[0].addr))


def v_end(ex, st, a, ins, dem):
    known(ex, st, a[0].addr)
    return P(VD(ex, st, a[0].addr) + 8 * VN(ex, st, a[0].addr))


def v_clear(ex, st, a, ins, dem):
    known(ex, st, a[0].addr)
    gm_set(ex, st, 'VN', a[0].addr, z3.IntVal(0))
    return None


def v_pop(ex, st, a, ins, dem):
    v = a[0].addr
    known(ex, st, v)
    ex.oblige(st, 'only an element is removed', VN(ex, st, v) > 0, ins.line, 'safety')
    gm_set(ex, st, 'VN', v, VN(ex, st, v) - 1)
    return None


def v_size(ex, st, a, ins, dem):
    known(ex, st, a[0].addr)
    return VN(ex, st, a[0].addr)


def v_empty(ex, st, a, ins, dem):
    known(ex, st, a[0].addr)
    return VN(ex, st, a[0].addr) == 0


VP = r'^(void |char\*& |auto )?std::vector<char\*, std::allocator<char\*> ?>::'
VEC_MODELS = [(re.compile(VP + p), f if f is v_init else guarded(f)) for p, f in [
    (r'vector\(\)', v_init), (r'resize\(unsigned long\)', v_resize), (r'push_back\(', v_push), (r'emplace_back<', v_push), (r'operator\[\]\(unsigned long\)', v_at), (r'at\(unsigned long\)', v_at),
    (r'back\(\)', v_back), (r'front\(\)|^begin', v_begin), (r'c?begin\(\)', v_begin), (r'c?end\(\)', v_end), (r'data\(\)', v_begin), (r'clear\(\)', v_clear), (r'pop_back\(\)', v_pop),
    (r'size\(\) const', v_size), (r'empty\(\) const', v_empty), (r'reserve\(unsigned long\)', lambda ex, st, a, ins, dem: move(ex, st, a[0].addr)),
    ]] + [(re.compile(VP + r'~vector\(\)'), lambda ex, st, a, ins, dem: None)]
VEC_TRUST = ['std::vector<char*> is a sequence whose storage may move when it grows (ISO C++)']

"""Trusted contracts of library functions (C and C++ standard library, POSIX).

Everything here is assumed, not proved; each use is recorded and listed in the
evidence as part of the trusted base.
"""
import re
import z3
from .arith import is_num, num
from .engine import P, Unsupported, STACK0


def M(pat):
    def deco(f):
        f.pats = getattr(f, 'pats', []) + [re.compile(pat)]
        return f
    return deco


# ------------------------------------------------------------ byte sequences
def bsort(ex):
    return ex.A.isort(8)


def seqsort(ex):
    return z3.SeqSort(bsort(ex))


def strs(ex, st):
    """content of every std::string, by address"""
    key = ('STR',)
    if key not in ex.init_mem:
        ex.init_mem[key] = (z3.Const('M_STR', z3.ArraySort(ex.A.asort(), seqsort(ex))), 'seq')
    return st.mem.get(key, ex.init_mem[key][0])


def str_get(ex, st, addr):
    return ex.select(strs(ex, st), addr)


def str_set(ex, st, addr, v):
    a = strs(ex, st)
    ex.log_write(('STR',), (addr,))
    st.mem[('STR',)] = ex.upd(a, (addr,), v)


def unit(ex, b):
    return z3.Unit(b)


def empty(ex):
    return z3.Empty(seqsort(ex))


def concat(*xs):
    xs = [x for x in xs]
    if len(xs) == 1:
        return xs[0]
    return z3.Concat(*xs)


def bytes_mem(ex, st):
    return ex.region(st, ('E', 'i8'))


def bseq_fn(ex):
    A = ex.A
    return z3.Function('bseq', z3.ArraySort(A.asort(), bsort(ex)), A.asort(), A.asort(), seqsort(ex))


def length_i(ex, s):
    return z3.Length(s)


def n_math(ex, n):
    return z3.BV2Int(n) if ex.A.bv else n


def seqof(ex, st, p, n, mem=None):
    """the n bytes at p as a sequence (adds the defining facts to st)"""
    A = ex.A
    if isinstance(p, P):
        gb = ex.global_bytes(p)
        if gb is not None and is_num(n) and num(n) <= len(gb):
            return lit(ex, gb[:num(n)])
        p = p.addr
    B = mem if mem is not None else bytes_mem(ex, st)
    n = z3.simplify(n)
    if is_num(n) and num(n) <= 24:
        k = num(n)
        if k == 0:
            return empty(ex)
        return concat(*[unit(ex, ex.select(B, A.aoff(p, i))) for i in range(k)])
    f = bseq_fn(ex)
    s = f(B, p, n)
    st.assume(z3.Length(s) == n_math(ex, n))
    st.assume(z3.Implies(n == A.const(0, 64), s == empty(ex)))
    # a store outside the range leaves the sequence of bytes in the range unchanged
    while z3.is_app_of(B, z3.Z3_OP_STORE):
        k = B.arg(1)
        if A.bv:
            out = z3.Not(z3.ULT(k - p, n))
        else:
            out = z3.Or(k < p, k >= p + n)
        st.assume(z3.Implies(out, f(B, p, n) == f(B.arg(0), p, n)))
        B = B.arg(0)
    return s


def lit(ex, bs):
    if len(bs) == 0:
        return empty(ex)
    return concat(*[unit(ex, ex.A.const(b, 8)) for b in bs])


def cstr_fn(ex):
    A = ex.A
    return z3.Function('cstr', z3.ArraySort(A.asort(), bsort(ex)), A.asort(), seqsort(ex))


def cstr(ex, st, p):
    gb = ex.global_bytes(p)
    if gb is not None and b'\0' in gb:
        return lit(ex, gb[:gb.index(b'\0')])
    B = bytes_mem(ex, st)
    return cstr_fn(ex)(B, p.addr)


def wrap_size(ex, st, n, name='size'):
    """mathematical integer n (size of something that exists) as i64"""
    if ex.A.bv:
        v = ex.fresh(name, z3.BitVecSort(64))
        st.assume(z3.BV2Int(v) == n, z3.ULT(v, z3.BitVecVal(1 << 62, 64)))
        return v
    st.assume(n >= 0, n < (1 << 62))
    return n


# ------------------------------------------------------------ basics
@M(r'^__assert_fail$')
def m_assert_fail(ex, st, a, ins, dem):
    msg = ''
    gb = ex.global_bytes(a[0])
    if gb:
        msg = gb.split(b'\0')[0].decode('utf-8', 'replace')
    ex.oblige(st, 'assertion never fails: %s' % msg, z3.BoolVal(False), num(a[2]) if is_num(a[2]) else ins.line, 'assert')
    return []


@M(r'^(abort|std::terminate\(\)|__clang_call_terminate)$')
def m_abort(ex, st, a, ins, dem):
    ex.oblige(st, 'abort is unreachable', z3.BoolVal(False), ins.line, 'assert')
    return []


def frame_bytes(ex, st, dst, n, newval):
    """B' with B'[a] = newval(a) on [dst,dst+n) and B elsewhere"""
    A = ex.A
    B = bytes_mem(ex, st)
    B2 = ex.fresh('B', B.sort())
    a = z3.Const('a!q', A.asort())
    if A.bv:
        inr = z3.And(z3.ULE(dst, a), z3.ULT(a - dst, n))
    else:
        inr = z3.And(dst <= a, a < dst + n)
    st.assume(z3.ForAll([a], B2[a] == z3.If(inr, newval(B, a), B[a]), patterns=[B2[a]]))
    ex.log_write(('E', 'i8'), None)
    st.mem[('E', 'i8')] = B2
    return B, B2


def byte_copy_hook(ex, st, what, p, n, ins):
    h = getattr(ex, 'range_hook', None)
    if h:
        h(ex, st, what, p, n, ins.line if ins is not None else None)


@M(r'^llvm\.memcpy\.|^llvm\.memmove\.|^memcpy$|^memmove$')
def m_memcpy(ex, st, a, ins, dem):
    dst, src, n = a[0], a[1], a[2]
    A = ex.A
    n = z3.simplify(n)
    ret = dst if dem in ('memcpy', 'memmove') else None
    dt = dst.sty
    stt = src.sty
    if is_num(n):
        k = num(n)
        if k == 0:
            return ret
        for t in (dt, stt):
            if t is not None and t[0] in ('struct', 'lit') and ex.prog.size_align(t, st.frame.fn.module)[0] in (k, (k + 7) // 8 * 8):
                copy_struct(ex, st, t, dst, src)
                return ret
        # scalar <-> bytes
        if dt is not None and dt[0] == 'int' and dt[1] == 8 * k and k > 1:
            byte_copy_hook(ex, st, 'r', src, n, ins)
            if stt == dt:
                v = ex.load(st, src, 'i%d' % dt[1], ins.line)
            else:
                bs = [ex.load(st, P(A.aoff(src.addr, i)), 'i8', ins.line) for i in range(k)]
                v = join_bytes(A, bs)
            ex.store(st, dst, 'i%d' % dt[1], v, ins.line)
            return ret
        if stt is not None and stt[0] == 'int' and stt[1] == 8 * k and k > 1:
            byte_copy_hook(ex, st, 'w', dst, n, ins)
            v = ex.load(st, src, 'i%d' % stt[1], ins.line)
            for i, b in enumerate(split_bytes(A, v, k)):
                ex.store(st, P(A.aoff(dst.addr, i)), 'i8', b, ins.line)
            return ret
        if k <= 16:
            byte_copy_hook(ex, st, 'r', src, n, ins)
            byte_copy_hook(ex, st, 'w', dst, n, ins)
            gb = ex.global_bytes(src)
            vals = [A.const(gb[i], 8) if gb is not None and i < len(gb) else
                    ex.load(st, P(A.aoff(src.addr, i)), 'i8', ins.line) for i in range(k)]
            for i, v in enumerate(vals):
                ex.store(st, P(A.aoff(dst.addr, i)), 'i8', v, ins.line)
            return ret
    byte_copy_hook(ex, st, 'r', src, n, ins)
    byte_copy_hook(ex, st, 'w', dst, n, ins)
    B, B2 = frame_bytes(ex, st, dst.addr, n, lambda B, x: B[x - dst.addr + src.addr])
    link_copy(ex, st, B, B2, dst, src, n)
    return ret


def link_copy(ex, st, B, B2, dst, src, n):
    """sequence-level facts of a copy of n bytes src -> dst"""
    A = ex.A
    f = bseq_fn(ex)
    st.assume(f(B2, dst.addr, n) == f(B, src.addr, n))
    st.aux['bytes_link'] = st.aux.get('bytes_link', ()) + ((B, B2, dst.addr, n),)
    if not A.bv:
        a = z3.Const('a!s', A.asort())
        k = z3.Const('k!s', A.asort())
        st.assume(z3.ForAll([a, k], z3.Implies(z3.And(k >= 0, z3.Or(a + k <= dst.addr, dst.addr + n <= a)),
                                               f(B2, a, k) == f(B, a, k)), patterns=[f(B2, a, k)]))


def split_bytes(A, v, k):
    if A.bv:
        return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(k)]
    return [(v / (1 << (8 * i))) % 256 for i in range(k)]


def join_bytes(A, bs):
    if A.bv:
        return z3.Concat(*reversed(bs))
    s = bs[0]
    for i, b in enumerate(bs[1:], 1):
        s = s + b * (1 << (8 * i))
    return s


def copy_struct(ex, st, t, dst, src):
    mod = st.frame.fn.module
    for ft, off in flat_fields(ex, t, mod):
        ty = ex.tyname(ft)
        sp = ex.path_at(t, off, src.addr, mod) or P(ex.A.aoff(src.addr, off))
        dp = ex.path_at(t, off, dst.addr, mod) or P(ex.A.aoff(dst.addr, off))
        v = ex.load(st, sp, ty)
        ex.store(st, dp, ty, v)


def flat_fields(ex, t, mod, base=0):
    out = []
    for ft, off in ex.prog.fields(t, mod):
        if ft[0] in ('int', 'ptr'):
            out.append((ft, base + off))
        elif ft[0] in ('struct', 'lit'):
            out += flat_fields(ex, ft, mod, base + off)
        elif ft[0] == 'arr' and ft[1] == 0:
            pass
        elif ft[0] == 'arr' and ft[2] == ('int', 8):
            # padding or byte array: skipped only for padding-sized arrays
            if ft[1] > 8:
                raise Unsupported('struct copy with a byte array')
        else:
            raise Unsupported('struct copy of %r' % (ft,))
    return out


@M(r'^llvm\.memset\.|^memset$')
def m_memset(ex, st, a, ins, dem):
    dst, v, n = a[0], a[1], z3.simplify(a[2])
    A = ex.A
    ret = dst if dem == 'memset' else None
    t = dst.sty
    mod = st.frame.fn.module
    if is_num(n) and t is not None and t[0] in ('struct', 'lit') and is_num(v) and num(v) == 0:
        for ft, off in flat_fields(ex, t, mod):
            ty = ex.tyname(ft)
            dp = ex.path_at(t, off, dst.addr, mod) or P(A.aoff(dst.addr, off))
            ex.store(st, dp, ty, P(A.addr(0)) if ty == 'ptr' else A.const(0, ft[1]))
        return ret
    byte_copy_hook(ex, st, 'w', dst, n, ins)
    if is_num(n) and t is not None and t[0] == 'arr' and t[2] == ('int', 8) and num(n) <= 64:
        for i in range(num(n)):
            ex.store(st, P(A.aoff(dst.addr, i)), 'i8', v, ins.line)
        return ret
    views = ex.memset_views
    if 'i8' in views:
        frame_bytes(ex, st, dst.addr, n, lambda B, x: v)
    known = is_num(v) and num(v) == 0
    for ty in views:
        if ty == 'i8':
            continue
        # the same storage viewed as pointers / words: cells wholly inside are zeroed, cells partly inside are unknown
        arr = ex.region(st, ('E', ty))
        arr2 = ex.fresh('E' + ty, arr.sort())
        x = z3.Const('a!q', A.asort())
        sz = 4 if ty == 'i32' else 8
        if A.bv:
            whole = z3.And(z3.UGE(n, sz), z3.ULE(x - dst.addr, n - sz))
            touch = z3.Or(z3.ULT(x - dst.addr, n), z3.ULT(x + (sz - 1) - dst.addr, n))
            zero = z3.BitVecVal(0, 64 if ty != 'i32' else 32)
        else:
            whole = z3.And(dst.addr <= x, x + sz <= dst.addr + n)
            touch = z3.And(dst.addr < x + sz, x < dst.addr + n)
            zero = z3.IntVal(0)
        st.assume(z3.ForAll([x], z3.And(z3.Implies(z3.Not(touch), arr2[x] == arr[x]), z3.Implies(whole, arr2[x] == zero) if known else z3.BoolVal(True)), patterns=[arr2[x]]))
        ex.log_write(('E', ty), None)
        st.mem[('E', ty)] = arr2
    return ret


def fdi_fn(ex):
    """index of the first differing byte of two ranges (their length if they agree)"""
    A = ex.A
    bs = z3.ArraySort(A.asort(), bsort(ex))
    return z3.Function('first_diff', bs, A.asort(), A.asort(), A.asort(), A.asort())


def fdi(ex, st, B, p, q, n):
    """the defining facts of first_diff(B, p, q, n), assumed in st; returns the term"""
    A = ex.A
    d = fdi_fn(ex)(B, p, q, n)
    i = z3.Const('i!d', A.asort())
    if A.bv:
        st.assume(z3.ULE(d, n), z3.Implies(z3.ULT(d, n), B[p + d] != B[q + d]),
                  z3.ForAll([i], z3.Implies(z3.ULT(i, d), B[p + i] == B[q + i])))
    else:
        st.assume(d >= 0, d <= n, z3.Implies(d < n, B[p + d] != B[q + d]),
                  z3.ForAll([i], z3.Implies(z3.And(p <= i, i < p + d), B[i] == B[i - p + q]), patterns=[B[i]]))
    return d


@M(r'^memcmp$|^bcmp$')
def m_memcmp(ex, st, a, ins, dem):
    p, q, n = a
    byte_copy_hook(ex, st, 'r', p, n, ins)
    byte_copy_hook(ex, st, 'r', q, n, ins)
    B = bytes_mem(ex, st)
    for x in (p, q):
        gb = ex.global_bytes(x)
        if gb is not None:
            for i, b in enumerate(gb):
                st.assume(B[ex.A.aoff(x.addr, i)] == ex.A.const(b, 8))
    d = fdi(ex, st, B, p.addr, q.addr, n)
    r = ex.fresh_int(st, 'memcmp', 32)
    x, y = B[p.addr + d], B[q.addr + d]
    if ex.A.bv:
        st.assume((r == 0) == (d == n))
        if dem == 'memcmp':
            st.assume(z3.Implies(d != n, (r < 0) == z3.ULT(x, y)))
    else:
        st.assume((r == 0) == (d == n))
        if dem == 'memcmp':
            st.assume(z3.Implies(d != n, (r >= 1 << 31) == (x < y)))
    return r


@M(r'^strlen$')
def m_strlen(ex, st, a, ins, dem):
    gb = ex.global_bytes(a[0])
    if gb is not None and b'\0' in gb:
        return ex.A.const(gb.index(b'\0'), 64)
    n = ex.fresh_int(st, 'strlen', 64)
    st.assume(ex.A.ult(n, ex.A.const(1 << 47, 64)))
    s = cstr(ex, st, a[0])
    st.assume(z3.Length(s) == n_math(ex, n))
    f = bseq_fn(ex)
    st.assume(s == f(bytes_mem(ex, st), a[0].addr, n))
    return n


# ------------------------------------------------------------ std::string
BS = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::'


def strdata_fn(ex):
    return z3.Function('strdata', ex.A.asort(), seqsort(ex), ex.A.asort())


def str_data(ex, st, addr):
    """pointer to the characters; the bytes there are the content, NUL terminated"""
    s = str_get(ex, st, addr)
    p = strdata_fn(ex)(addr, s)
    ex.assume_heap(st, p)
    st.assume(p != ex.A.addr(0))
    B = bytes_mem(ex, st)
    n = wrap_size(ex, st, z3.Length(s), 'slen')
    f = bseq_fn(ex)
    st.assume(f(B, p, n) == s)
    st.assume(cstr_fn(ex)(B, p) == s) if getattr(ex, 'str_nonul', True) else None
    return P(p)


@M(BS + r'append\(char const\*, unsigned long\)')
def m_str_append_n(ex, st, a, ins, dem):
    byte_copy_hook(ex, st, 'r', a[1], a[2], ins)
    s = str_get(ex, st, a[0].addr)
    str_set(ex, st, a[0].addr, concat(s, seqof(ex, st, a[1], a[2])))
    return a[0]


@M(BS + r'append\(char const\*\)|' + BS + r'operator\+=\(char const\*\)')
def m_str_append_c(ex, st, a, ins, dem):
    s = str_get(ex, st, a[0].addr)
    str_set(ex, st, a[0].addr, concat(s, cstr(ex, st, a[1])))
    return a[0]


@M(BS + r'append\(std::__cxx11::basic_string.* const&\)|' + BS + r'operator\+=\(std::__cxx11::basic_string.* const&\)')
def m_str_append_s(ex, st, a, ins, dem):
    s = str_get(ex, st, a[0].addr)
    str_set(ex, st, a[0].addr, concat(s, str_get(ex, st, a[1].addr)))
    return a[0]


@M(BS + r'(push_back|operator\+=)\(char\)')
def m_str_push(ex, st, a, ins, dem):
    s = str_get(ex, st, a[0].addr)
    str_set(ex, st, a[0].addr, concat(s, unit(ex, a[1])))
    return a[0]


@M(BS + r'append\(unsigned long, char\)')
def m_str_append_fill(ex, st, a, ins, dem):
    n = z3.simplify(a[1])
    if not is_num(n) or num(n) > 32:
        raise Unsupported('append(n, c)')
    s = str_get(ex, st, a[0].addr)
    if num(n):
        s = concat(s, *[unit(ex, a[2])] * num(n))
    str_set(ex, st, a[0].addr, s)
    return a[0]


@M(BS + r'basic_string\(\)')
def m_str_ctor0(ex, st, a, ins, dem):
    str_set(ex, st, a[0].addr, empty(ex))
    return None


@M(BS + r'basic_string(<[^(]*>)?\(char const\*, std::allocator<char> const&\)')
def m_str_ctor_c(ex, st, a, ins, dem):
    str_set(ex, st, a[0].addr, cstr(ex, st, a[1]))
    return None


@M(BS + r'basic_string(<[^(]*>)?\(char const\*, unsigned long, std::allocator<char> const&\)')
def m_str_ctor_n(ex, st, a, ins, dem):
    byte_copy_hook(ex, st, 'r', a[1], a[2], ins)
    str_set(ex, st, a[0].addr, seqof(ex, st, a[1], a[2]))
    return None


@M(BS + r'basic_string\(std::__cxx11::basic_string<.*> const&\)')
def m_str_copy(ex, st, a, ins, dem):
    str_set(ex, st, a[0].addr, str_get(ex, st, a[1].addr))
    return None


@M(BS + r'basic_string\(std::__cxx11::basic_string<.*>&&\)')
def m_str_move(ex, st, a, ins, dem):
    str_set(ex, st, a[0].addr, str_get(ex, st, a[1].addr))
    str_set(ex, st, a[1].addr, empty(ex))
    return None


@M(BS + r'operator=\(std::__cxx11::basic_string<.*> const&\)|' + BS + r'assign\(std::__cxx11::basic_string<.*> const&\)')
def m_str_assign(ex, st, a, ins, dem):
    str_set(ex, st, a[0].addr, str_get(ex, st, a[1].addr))
    return a[0]


@M(BS + r'operator=\(std::__cxx11::basic_string<.*>&&\)')
def m_str_massign(ex, st, a, ins, dem):
    v = str_get(ex, st, a[1].addr)
    str_set(ex, st, a[1].addr, empty(ex))
    str_set(ex, st, a[0].addr, v)
    return a[0]


@M(BS + r'operator=\(char const\*\)|' + BS + r'assign\(char const\*\)')
def m_str_assign_c(ex, st, a, ins, dem):
    str_set(ex, st, a[0].addr, cstr(ex, st, a[1]))
    return a[0]


@M(BS + r'assign\(char const\*, unsigned long\)')
def m_str_assign_n(ex, st, a, ins, dem):
    byte_copy_hook(ex, st, 'r', a[1], a[2], ins)
    str_set(ex, st, a[0].addr, seqof(ex, st, a[1], a[2]))
    return a[0]


@M(BS + r'~basic_string\(\)')
def m_str_dtor(ex, st, a, ins, dem):
    return None


@M(BS + r'(size|length)\(\) const')
def m_str_size(ex, st, a, ins, dem):
    return wrap_size(ex, st, z3.Length(str_get(ex, st, a[0].addr)), 'slen')


@M(BS + r'empty\(\) const')
def m_str_empty(ex, st, a, ins, dem):
    return z3.Length(str_get(ex, st, a[0].addr)) == 0


@M(BS + r'(data|c_str)\(\) const')
def m_str_data(ex, st, a, ins, dem):
    return str_data(ex, st, a[0].addr)


STRC = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
OPQ = r'^(.* )?std::operator%s(<char, std::char_traits<char>, std::allocator<char> ?>)?'


def str_arg(ex, st, p, kind):
    if kind.startswith('char const*'):
        return cstr(ex, st, p)
    if kind.startswith('char'):
        return unit(ex, p)
    return str_get(ex, st, p.addr)


def arg_kinds(dem):
    """the argument types after the last top-level parenthesis of an operator's name"""
    depth, i = 0, len(dem) - 1
    while i >= 0:
        if dem[i] == ')':
            depth += 1
        elif dem[i] == '(':
            depth -= 1
            if depth == 0:
                break
        i -= 1
    out, d, cur = [], 0, ''
    for ch in dem[i + 1:-1]:
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        d += ch in '<(' and 1 or 0
        d -= ch in '>)' and 1 or 0
        cur += ch
    return out + [cur.strip()]


@M(OPQ % '(==|!=)' + r'\((' + STRC + r' const&|char const\*), (' + STRC + r' const&|char const\*)\)')
def m_str_eq(ex, st, a, ins, dem):
    x, y = (str_arg(ex, st, p, k) for p, k in zip(a, arg_kinds(dem)))
    return x == y if 'operator==' in dem else x != y


@M(OPQ % r'\+' + r'\(')
def m_str_plus(ex, st, a, ins, dem):
    x, y = (str_arg(ex, st, p, k) for p, k in zip(a[1:], arg_kinds(dem)))
    str_set(ex, st, a[0].addr, concat(x, y))
    return None


@M(BS + r'(operator\[\]|at)\(unsigned long\) const')
def m_str_at(ex, st, a, ins, dem):
    s = str_get(ex, st, a[0].addr)
    n = z3.Length(s)
    i = n_math(ex, a[1])
    ex.oblige(st, 'string index in range', z3.And(i >= 0, i <= n), ins.line, 'safety')
    p = str_data(ex, st, a[0].addr)
    q = ex.A.aadd(p.addr, a[1]) if hasattr(ex.A, 'aadd') else p.addr + a[1]
    st.assume(z3.Implies(i < n, bytes_mem(ex, st)[q] == s[i]))
    return P(q)


@M(BS + r'(front|back)\(\) const')
def m_str_end_char(ex, st, a, ins, dem):
    s = str_get(ex, st, a[0].addr)
    n = z3.Length(s)
    ex.oblige(st, 'character of a non-empty string', n > 0, ins.line, 'safety')
    i = z3.IntVal(0) if 'front' in dem else n - 1
    q = ex.fresh('schar', ex.A.asort())
    ex.assume_heap(st, q)
    st.assume(bytes_mem(ex, st)[q] == s[i])
    return P(q)


@M(BS + r'substr\(unsigned long, unsigned long\) const')
def m_str_substr(ex, st, a, ins, dem):
    s = str_get(ex, st, a[1].addr)
    i, n = n_math(ex, a[2]), n_math(ex, a[3])
    ex.oblige(st, 'substring starts inside the string', z3.And(i >= 0, i <= z3.Length(s)), ins.line, 'safety')
    k = z3.Length(s) - i
    n = z3.simplify(n)
    str_set(ex, st, a[0].addr, z3.Extract(s, i, k if is_num(n) and num(n) >= (1 << 62) else z3.If(n < k, n, k)))
    return None


@M(BS + r'compare\(unsigned long, unsigned long, std::__cxx11::basic_string<.*> const&\) const')
def m_str_compare3(ex, st, a, ins, dem):
    s, t = str_get(ex, st, a[0].addr), str_get(ex, st, a[3].addr)
    i, n = n_math(ex, a[1]), n_math(ex, a[2])
    ex.oblige(st, 'substring starts inside the string', z3.And(i >= 0, i <= z3.Length(s)), ins.line, 'safety')
    k = z3.Length(s) - i
    r = ex.fresh_int(st, 'cmp', 32)
    st.assume((n_math(ex, r) == 0) == (z3.Extract(s, i, z3.If(n < k, n, k)) == t))
    return r


@M(BS + r'compare\(std::__cxx11::basic_string<.*> const&\) const')
def m_str_compare(ex, st, a, ins, dem):
    r = ex.fresh_int(st, 'cmp', 32)
    st.assume((n_math(ex, r) == 0) == (str_get(ex, st, a[0].addr) == str_get(ex, st, a[1].addr)))
    return r


@M(BS + r'clear\(\)')
def m_str_clear(ex, st, a, ins, dem):
    str_set(ex, st, a[0].addr, empty(ex))
    return None


@M(BS + r'reserve\(unsigned long\)|' + BS + r'reserve\(\)')
def m_str_reserve(ex, st, a, ins, dem):
    return None


@M(r'^std::(__new_)?allocator<.*>::~?(__new_)?allocator\(|^std::__new_allocator<.*>::~?__new_allocator\(')
def m_alloc(ex, st, a, ins, dem):
    return None


# ------------------------------------------------------------ snprintf
def hexdigit(ex, x):
    A = ex.A
    if A.bv:
        return z3.If(z3.ULT(x, 10), x + 48, x + 87)
    return z3.If(x < 10, x + 48, x + 87)


def dec_fn(ex):
    """canonical unsigned decimal digits of an integer"""
    return z3.Function('decimal', z3.IntSort(), seqsort(ex))


def format_seq(ex, st, fmt, args):
    """sequence produced by a printf format; supports the conversions used here"""
    out = []
    i = 0
    ai = 0
    lits = bytearray()

    def flush():
        if lits:
            out.append(lit(ex, bytes(lits)))
            lits.clear()
    while i < len(fmt):
        c = fmt[i:i + 1]
        if c != b'%':
            lits.extend(c)
            i += 1
            continue
        m = re.match(rb'%(0?)(\d*)(ll|l|z|hh|h)?([duxsci%])', fmt[i:])
        if not m:
            raise Unsupported('format %r' % fmt)
        i += m.end()
        conv = m.group(4)
        if conv == b'%':
            lits.extend(b'%')
            continue
        flush()
        v = args[ai]
        ai += 1
        w = int(m.group(2) or b'0')
        if conv == b'x' and m.group(1) == b'0' and w == 2:
            # exactly two digits when the value is below 256
            if ex.A.bv:
                v8 = z3.Extract(7, 0, v)
                st.assume(z3.ULT(v, z3.BitVecVal(256, v.size()))) if False else None
                small = z3.ULT(v, z3.BitVecVal(256, v.size()))
                hi, lo = z3.LShR(v8, 4), v8 & 15
            else:
                small = v < 256
                hi, lo = v / 16, v % 16
            ex.oblige(st, 'value printed with %02x is below 256', small, None, 'pre')
            st.assume(small)
            out.append(concat(unit(ex, hexdigit(ex, hi)), unit(ex, hexdigit(ex, lo))))
        elif conv == b'u' and not w:
            f = dec_fn(ex)
            k = z3.BV2Int(v) if ex.A.bv else v
            s = f(k)
            st.assume(z3.Length(s) >= 1, z3.Length(s) <= 20)
            out.append(s)
        else:
            s = ex.fresh('fmt', seqsort(ex))
            bound = 12 if conv == b'd' and w <= 12 else None
            if conv == b'd' and not m.group(3):
                st.assume(z3.Length(s) >= max(1, w), z3.Length(s) <= max(11, w))
            elif conv == b'c':
                st.assume(z3.Length(s) == 1)
            out.append(s)
    flush()
    if not out:
        return empty(ex)
    return concat(*out)


@M(r'^snprintf$')
def m_snprintf(ex, st, a, ins, dem):
    buf, size, fmt = a[0], a[1], a[2]
    gb = ex.global_bytes(fmt)
    if gb is None:
        raise Unsupported('snprintf with a computed format')
    s = format_seq(ex, st, gb[:gb.index(b'\0')], a[3:])
    A = ex.A
    L = z3.Length(s)
    sz = n_math(ex, size)
    # B' : changed only inside [buf, buf+size)
    B = bytes_mem(ex, st)
    B2 = ex.fresh('B', B.sort())
    x = z3.Const('a!q', A.asort())
    if A.bv:
        inr = z3.And(z3.ULE(buf.addr, x), z3.ULT(x - buf.addr, size))
    else:
        inr = z3.And(buf.addr <= x, x < buf.addr + size)
    st.assume(z3.ForAll([x], z3.Or(inr, B2[x] == B[x]), patterns=[B2[x]]))
    byte_copy_hook(ex, st, 'w', buf, size, ins)
    ex.log_write(('E', 'i8'), None)
    st.mem[('E', 'i8')] = B2
    f = bseq_fn(ex)
    st.assume(z3.Implies(L < sz, cstr_fn(ex)(B2, buf.addr) == s))
    st.aux['snprintf'] = (B2, buf.addr, s, size)
    r = ex.fresh_int(st, 'snprintf', 32)
    st.assume(n_math(ex, r) == L)
    return r


# ------------------------------------------------------------ allocation
def ever(ex, st):
    """ghost: addresses that have ever been handed out by the allocator"""
    key = ('EVER',)
    if key not in ex.init_mem:
        ex.init_mem[key] = (z3.Const('M_EVER', z3.ArraySort(ex.A.asort(), z3.BoolSort())), 'bool')
    return st.mem.get(key, ex.init_mem[key][0])


def live(ex, st):
    """ghost: addresses that currently are the start of an allocated heap block"""
    key = ('LIVE',)
    if key not in ex.init_mem:
        ex.init_mem[key] = (z3.Const('M_LIVE', z3.ArraySort(ex.A.asort(), z3.BoolSort())), 'bool')
    return st.mem.get(key, ex.init_mem[key][0])


def set_ghost_map(ex, st, key, addr, v):
    arr = {'EVER': ever, 'LIVE': live}[key[0]](ex, st)
    ex.log_write(key, (addr,))
    st.mem[key] = z3.Store(arr, addr, z3.BoolVal(v))


def alloc(ex, st, n, name='new', sty=None):
    A = ex.A
    a = ex.fresh(name, A.asort())
    ex.assume_heap(st, a)
    ex.mark_heap(a)
    st.assume(a != A.addr(0))
    st.assume(z3.Not(ever(ex, st)[a]), z3.Not(live(ex, st)[a]))
    set_ghost_map(ex, st, ('EVER',), a, True)
    set_ghost_map(ex, st, ('LIVE',), a, True)
    h = getattr(ex, 'alloc_hook', None)
    if h:
        h(ex, st, a, n)
    return P(a, sty=sty)


@M(r'^operator new(\[\])?\(unsigned long\)|^malloc$')
def m_new(ex, st, a, ins, dem):
    return alloc(ex, st, a[0])


@M(r'^operator delete(\[\])?\(void\*|^free$')
def m_delete(ex, st, a, ins, dem):
    p = a[0].addr
    zero = ex.A.addr(0)
    lv = live(ex, st)
    ex.oblige(st, 'freed block is null or currently allocated (no double free)', z3.Or(p == zero, lv[p]), ins.line, 'safety', ('free',))
    st.assume(z3.Or(p == zero, lv[p]))
    key = ('LIVE',)
    ex.log_write(key, (p,))
    st.mem[key] = z3.Store(lv, p, z3.BoolVal(False))
    h = getattr(ex, 'free_hook', None)
    if h:
        h(ex, st, a[0], ins)
    return None


@M(r'^operator new(\[\])?\(unsigned long, void\*\)')
def m_placement(ex, st, a, ins, dem):
    return a[1]


def collect():
    import sys
    me = sys.modules[__name__]
    out = []
    for n in sorted(vars(me)):
        f = getattr(me, n)
        for p in getattr(f, 'pats', []) if callable(f) else []:
            out.append((p, f))
    return out


ALL = None


def all_models():
    global ALL
    if ALL is None:
        from . import containers
        ALL = collect() + containers.collect()
    return ALL


@M(r'^llvm\.va_(start|end|copy)')
def m_va(ex, st, a, ins, dem):
    return None


@M(BS + r'resize\(unsigned long\)')
def m_str_resize(ex, st, a, ins, dem):
    s = str_get(ex, st, a[0].addr)
    r = ex.fresh('resized', seqsort(ex))
    n = n_math(ex, a[1])
    st.assume(z3.Length(r) == n)
    st.assume(z3.If(n <= z3.Length(s), r == z3.Extract(s, 0, n), z3.Extract(r, 0, z3.Length(s)) == s))
    str_set(ex, st, a[0].addr, r)
    return None


@M(r'.*std::operator\+<char, .*>\(')
def m_str_plus(ex, st, a, ins, dem):
    """every overload of operator+ that makes a string"""
    params = dem[dem.index('std::operator+<'):]
    depth = 0
    for i, ch in enumerate(params):
        depth += {'<': 1, '>': -1}.get(ch, 0)
        if ch == '(' and depth == 0:
            params = params[i + 1:params.rindex(')')]
            break
    parts, cur, depth = [], '', 0
    for ch in params:
        depth += {'<': 1, '>': -1}.get(ch, 0)
        if ch == ',' and depth == 0:
            parts.append(cur.strip())
            cur = ''
        else:
            cur += ch
    parts.append(cur.strip())

    def val(ty, v):
        if ty == 'char':
            return unit(ex, v)
        if ty == 'char const*':
            return cstr(ex, st, v)
        return str_get(ex, st, v.addr)
    vs = [val(t, v) for t, v in zip(parts, a[1:])]
    for t, v in zip(parts, a[1:]):
        if t.endswith('&&'):
            str_set(ex, st, v.addr, empty(ex))
    str_set(ex, st, a[0].addr, concat(*vs))
    return None

"""Slice: unsigned lexicographic comparison and exact cuts."""
import z3
from .common import *

TUS = ['inline_inst']
DRIVER = {'src': 'slice.cc', 'sources': []}
DRIVER_SECS = 15
TRUST = ['first_diff: index of the first differing byte of two ranges, given by its defining facts (existence: least number principle)']


def two(c):
    return c.args[0].addr, c.args[1].addr


def pre2(c):
    x, y = two(c)
    return [('first slice in memory', sane(*slice_of(c, x))), ('second slice in memory', sane(*slice_of(c, y)))]


def setup2(c):
    x, y = two(c)
    read_windows(c.ex, [slice_of(c, x), slice_of(c, y)])


def diff(c, n):
    x, y = two(c)
    p, _ = slice_of(c, x, c.old)
    q, _ = slice_of(c, y, c.old)
    B = c.E('i8', c.old)
    d = M.fdi(c.ex, c.st, B, p, q, n)
    return d, B[p + d], B[q + d]


def zmin(a, b):
    return z3.If(a < b, a, b)


def compare_post(c):
    x, y = two(c)
    _, n = slice_of(c, x, c.old)
    _, k = slice_of(c, y, c.old)
    mn = zmin(n, k)
    d, bx, by = diff(c, mn)
    neg = c.ret >= 1 << 31
    return [('first differing byte decides, unsigned', z3.Implies(d < mn, z3.And(c.ret != 0, neg == (bx < by)))),
            ('equal common part: the shorter is smaller', z3.Implies(d == mn, z3.And((c.ret == 0) == (n == k), neg == (n < k))))]


def eq_post(want):
    def f(c):
        x, y = two(c)
        _, n = slice_of(c, x, c.old)
        _, k = slice_of(c, y, c.old)
        d, _, _ = diff(c, n)
        same = z3.And(n == k, d == n)
        return [('equality is length and bytes', c.ret == (same if want else z3.Not(same)))]
    return f


def starts_post(c):
    x, y = two(c)
    _, n = slice_of(c, x, c.old)
    _, k = slice_of(c, y, c.old)
    d, _, _ = diff(c, k)
    return [('prefix test', c.ret == z3.And(n >= k, d == k))]


# byte-by-byte comparison loops (index or pointer), should the code be written that way
class CmpIdx(Loop):
    roles = {'i': 'i64'}

    def idx(self, c):
        return c.v['i']

    def pq(self, c):
        x, y = c.args[0].addr, c.args[1].addr
        return slice_of(c, x, c.old), slice_of(c, y, c.old)

    def inv(self, c):
        (p, n), (q, k) = self.pq(c)
        i = self.idx(c)
        B = c.E('i8', c.old)
        j = z3.Int('j')
        return [('prefix agrees so far', z3.And(i >= 0, i <= n, i <= k, z3.ForAll([j], z3.Implies(z3.And(p <= j, j < p + i), B[j] == B[j - p + q]), patterns=[B[j]])))]

    def decreases(self, c):
        (p, n), _ = self.pq(c)
        return n - self.idx(c)


class CmpPtr(CmpIdx):
    roles = {'i': 'ptr'}

    def idx(self, c):
        (p, n), _ = self.pq(c)
        return c.v['i'].addr - p


class CmpPtr2(CmpIdx):
    roles = {'i': 'ptr', 'j': 'ptr'}

    def idx(self, c):
        (p, n), _ = self.pq(c)
        return c.v['i'].addr - p

    def inv(self, c):
        (p, n), (q, k) = self.pq(c)
        return CmpIdx.inv(self, c) + [('pointers move together', c.v['i'].addr - p == c.v['j'].addr - q)]


LOOPS = [CmpIdx, CmpPtr2, CmpPtr]
this = lambda c: c.args[0].addr


def cut(c):
    d, n = slice_of(c, this(c), c.old)
    d2, n2 = slice_of(c, this(c))
    return [('first bytes dropped', z3.And(d2 == d + c.args[1], n2 == n - c.args[1]))]


def slice_mod(c):
    return {c.ex.fkey('Slice', 'data_'): [(this(c),)], c.ex.fkey('Slice', 'size_'): [(this(c),)]}


def pre1(c):
    return [('slice in memory', sane(*slice_of(c, this(c))))]


def setup1(c):
    read_windows(c.ex, [slice_of(c, this(c))])


def tasks(prog):
    T = [
        simple('compare', r'^lsmdb::Slice::compare\(', pre2, compare_post, setup=setup2, loops=LOOPS),
        simple('operator==', r'^lsmdb::operator==\(lsmdb::Slice', pre2, eq_post(True), setup=setup2, loops=LOOPS),
        simple('operator!=', r'^lsmdb::operator!=\(lsmdb::Slice', pre2, eq_post(False), setup=setup2, loops=LOOPS),
        simple('starts_with', r'^lsmdb::Slice::starts_with\(', pre2, starts_post, setup=setup2, loops=LOOPS),
        simple('operator[]', r'^lsmdb::Slice::operator\[\]\(', lambda c: pre1(c) + [('index', c.args[1] < slice_of(c, this(c))[1])],
               lambda c: [('byte at the index', c.ret == byte(c, slice_of(c, this(c), c.old)[0] + c.args[1], c.old))], setup=setup1),
        simple('remove_prefix', r'^lsmdb::Slice::remove_prefix\(', lambda c: pre1(c) + [('count', c.args[1] <= slice_of(c, this(c))[1])],
               cut, modifies=slice_mod, setup=setup1),
        simple('clear', r'^lsmdb::Slice::clear\(', pre1, lambda c: [('empty', z3.And(slice_of(c, this(c))[1] == 0, slice_of(c, this(c))[0] != 0))],
               modifies=slice_mod),
        simple('empty', r'^lsmdb::Slice::empty\(', pre1, lambda c: [('emptiness', c.ret == (slice_of(c, this(c), c.old)[1] == 0))]),
        simple('size', r'^lsmdb::Slice::size\(', pre1, lambda c: [('size', c.ret == slice_of(c, this(c), c.old)[1])]),
        simple('data', r'^lsmdb::Slice::data\(', pre1, lambda c: [('data', c.ret.addr == slice_of(c, this(c), c.old)[0])]),
        simple('ToString', r'^lsmdb::Slice::ToString\[?', lambda c: [('slice in memory', sane(*slice_of(c, c.args[1].addr)))],
               lambda c: [('copy of the bytes', M.str_get(c.ex, c.st, this(c)) == M.seqof(c.ex, c.st, slice_of(c, c.args[1].addr, c.old)[0], slice_of(c, c.args[1].addr, c.old)[1], c.E('i8', c.old)))],
               modifies=lambda c: {('STR',): [(this(c),)]}, setup=lambda c: read_windows(c.ex, [slice_of(c, c.args[1].addr)])),
        simple('Slice()', r'^lsmdb::Slice::Slice\(\)', None, lambda c: [('empty', z3.And(slice_of(c, this(c))[1] == 0, slice_of(c, this(c))[0] != 0))], modifies=slice_mod),
        simple('Slice(ptr,n)', r'^lsmdb::Slice::Slice\(char const\*, unsigned long\)', None,
               lambda c: [('denotes the range', z3.And(slice_of(c, this(c))[0] == c.args[1].addr, slice_of(c, this(c))[1] == c.args[2]))], modifies=slice_mod),
        simple('Slice(string)', r'^lsmdb::Slice::Slice\(std::__cxx11', None,
               lambda c: [('denotes the string content', z3.And(
                   slice_of(c, this(c))[1] == z3.Length(M.str_get(c.ex, c.old, c.args[1].addr)),
                   M.bseq_fn(c.ex)(c.E('i8'), slice_of(c, this(c))[0], slice_of(c, this(c))[1]) == M.str_get(c.ex, c.old, c.args[1].addr)))], modifies=slice_mod),
        simple('Slice(cstr)', r'^lsmdb::Slice::Slice\(char const\*\)', None,
               lambda c: [('denotes the characters before the NUL', z3.And(
                   slice_of(c, this(c))[0] == c.args[1].addr,
                   M.bseq_fn(c.ex)(c.E('i8'), slice_of(c, this(c))[0], slice_of(c, this(c))[1]) == M.cstr(c.ex, c.old, c.args[1])))], modifies=slice_mod),
    ]
    return T

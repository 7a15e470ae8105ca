"""Decimal numbers: printing and parsing."""
import z3
from .common import *

TUS = ['logging', 'inline_inst']
DRIVER = {'src': 'logging.cc', 'sources': ['util/logging.cc']}
DRIVER_SECS = 15
TRUST = ['snprintf("%llu") writes the canonical decimal digits dec(n) of its argument (C standard)',
         'recursive specification functions DV (value of the first k digits), dec (canonical digits); first-non-digit index given by its defining facts']

DV = z3.Function('DV', Int, Int)
MAX = (1 << 64) - 1


def digit(b):
    return z3.And(b >= 48, b <= 57)


def run_len(c):
    return z3.Int('first_nondigit')


def facts(c):
    p, n = slice_of(c, c.args[0].addr, c.old)
    B = c.E('i8', c.old)
    R = run_len(c)
    i, j = z3.Ints('i j')
    return [('first non-digit', z3.And(R >= 0, R <= n, z3.Implies(R < n, z3.Not(digit(B[p + R]))))),
            ('digits before', z3.ForAll([i], z3.Implies(z3.And(p <= i, i < p + R), digit(B[i])), patterns=[B[i]])),
            ('DV base', DV(0) == 0),
            ('DV monotone on digits (lemma below)', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= R), z3.And(DV(i) >= 0, DV(i) <= DV(R))), patterns=[DV(i)]))]


def unfold(c, k):
    p, _ = slice_of(c, c.args[0].addr, c.old)
    B = c.E('i8', c.old)
    c.st.assume(z3.Implies(z3.And(k >= 0, k < run_len(c)), DV(k + 1) == 10 * DV(k) + B[p + k] - 48))
    # instances of the monotonicity lemma
    for t in (k, k + 1):
        c.st.assume(z3.Implies(z3.And(t >= 0, t <= run_len(c)), z3.And(DV(t) >= 0, DV(t) <= DV(run_len(c)))))


class Parse(FnSpec):
    def pre(self, c):
        c.old = c.st
        return [('slice in memory', sane(*slice_of(c, c.args[0].addr)))] + facts(c)

    def setup(self, c):
        read_windows(c.ex, [slice_of(c, c.args[0].addr)], 'the input')

    def modifies(self, c):
        a = c.args[0].addr
        return {c.ex.fkey('Slice', 'data_'): [(a,)], c.ex.fkey('Slice', 'size_'): [(a,)], ('E', 'i64'): [(c.args[1].addr,)]}

    def post(self, c):
        a = c.args[0].addr
        p, n = slice_of(c, a, c.old)
        p2, n2 = slice_of(c, a)
        R = run_len(c)
        v = DV(R)
        return [('no digit: rejected, input left where it was', z3.Implies(R == 0, z3.And(z3.Not(c.ret), p2 == p, n2 == n))),
                ('value fits: delivered exactly, longest digit run consumed',
                 z3.Implies(z3.And(R > 0, v <= MAX), z3.And(c.ret, c.E('i64')[c.args[1].addr] == v, p2 == p + R, n2 == n - R))),
                ('value does not fit: rejected', z3.Implies(v > MAX, z3.Not(c.ret))),
                ('value does not fit: nothing delivered', z3.Implies(v > MAX, c.E('i64')[c.args[1].addr] == c.E('i64', c.old)[c.args[1].addr]))]


def variant(roles_, idx):
    class V(Loop):
        fn = r'ConsumeDecimalNumber'
        roles = roles_

        def k(self, c):
            p, n = slice_of(c, c.args[0].addr, c.old)
            return idx(c, p, n)

        def at_header(self, c):
            unfold(c, self.k(c))

        def inv(self, c):
            k = self.k(c)
            p, n = slice_of(c, c.args[0].addr, c.old)
            return [('position within the leading digits', z3.And(k >= 0, k <= run_len(c))),
                    ('value so far', z3.And(c.v['v'] == DV(k), DV(k) <= MAX))]

        def decreases(self, c):
            p, n = slice_of(c, c.args[0].addr, c.old)
            return n - self.k(c)
    return V


LOOPS = [variant({'p': 'ptr', 'v': 'i64'}, lambda c, p, n: c.v['p'].addr - p),
         variant({'i': 'i64', 'v': 'i64'}, lambda c, p, n: c.v['i']),
         variant({'i': 'i64', 'v': 'i64'}, lambda c, p, n: n - c.v['i'])]


def mono_lemma():
    k, d, x, hi = z3.Ints('k d x hi')
    return [('one more digit never decreases the value (induction step)', [x >= 0, d >= 0, d <= 9], z3.And(10 * x + d >= x, 10 * x + d >= 0))]


def print_lemma():
    """value of the canonical digits of n is n; no leading zero; at most 20 digits (induction on n)"""
    n = z3.Int('n')
    val = z3.Function('val_dec', Int, Int)
    ln = z3.Function('len_dec', Int, Int)
    defn = lambda n: [z3.Implies(n < 10, z3.And(val(n) == n, ln(n) == 1)),
                      z3.Implies(n >= 10, z3.And(val(n) == 10 * val(n / 10) + n % 10, ln(n) == ln(n / 10) + 1))]
    p10 = 10 ** 19
    out = [('value of the digits of n is n', [n >= 0] + defn(n) + [z3.Implies(n >= 10, val(n / 10) == n / 10)], val(n) == n)]
    for m in range(0, 20):
        hi = 10 ** (m + 1)
        ih = z3.Implies(z3.And(n >= 10, n / 10 < 10 ** m), ln(n / 10) <= max(m, 1))
        out.append(('numbers below 10^%d have at most %d digits' % (m + 1, m + 1), [n >= 0, n < hi, ih] + defn(n), ln(n) <= m + 1))
    return out


def num_post(c):
    d = c.args[0].addr
    return [('appends exactly the decimal digits', M.str_get(c.ex, c.st, d) == z3.Concat(M.str_get(c.ex, c.old, d), M.dec_fn(c.ex)(c.args[1])))]


def tostr_post(c):
    return [('is exactly the decimal digits', M.str_get(c.ex, c.st, c.args[0].addr) == M.dec_fn(c.ex)(c.args[1]))]


def tasks(prog):
    return [Task('ConsumeDecimalNumber', r'^lsmdb::ConsumeDecimalNumber\(', Parse(), 'int', loops=LOOPS),
            Lemma('digits are monotone', mono_lemma), Lemma('printing and value', print_lemma),
            simple('AppendNumberTo', r'^lsmdb::AppendNumberTo\(', None, num_post, modifies=lambda c: {('STR',): [(c.args[0].addr,)]}),
            simple('NumberToString', r'^lsmdb::NumberToString', None, tostr_post, modifies=lambda c: {('STR',): [(c.args[0].addr,)]})]

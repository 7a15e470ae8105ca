"""Escaping."""
import z3
from .common import *

TUS = ['logging', 'inline_inst']
DRIVER = {'src': 'logging.cc', 'sources': ['util/logging.cc']}
DRIVER_SECS = 15
TRUST = ['snprintf("%02x") writes the two lower-case hexadecimal digits of a value below 256 (C standard)',
         'recursive specification function ESC (escaped form of the first k bytes), unfolded one step at a time']


def esc1(ex, b):
    h = lambda x: z3.If(x < 10, x + 48, x + 87)
    return z3.If(z3.And(b >= 0x20, b <= 0x7e), z3.Unit(b),
                 z3.Concat(z3.Unit(z3.IntVal(92)), z3.Unit(z3.IntVal(120)), z3.Unit(h(b / 16)), z3.Unit(h(b % 16))))


ESC = z3.Function('ESC', Int, z3.SeqSort(Int))


def sl(c):
    return slice_of(c, c.args[1].addr, c.old)


def base(c):
    return [('ESC base', ESC(0) == M.empty(c.ex))]


def unfold(c, k):
    p, n = sl(c)
    c.st.assume(z3.Implies(z3.And(k >= 0, k < n), ESC(k + 1) == z3.Concat(ESC(k), esc1(c.ex, c.E('i8', c.old)[p + k]))))


class Append(FnSpec):
    name = r'^lsmdb::AppendEscapedStringTo\('

    def pre(self, c):
        c.old = c.st
        return [('slice in memory', sane(*slice_of(c, c.args[1].addr)))]

    def setup(self, c):
        c.st.assume(*[f for _, f in base(c)])
        read_windows(c.ex, [slice_of(c, c.args[1].addr)], 'the input')

    def modifies(self, c):
        return {('STR',): [(c.args[0].addr,)]}

    def post(self, c):
        d = c.args[0].addr
        p, n = sl(c)
        return [('appends the escaped bytes in order', M.str_get(c.ex, c.st, d) == z3.Concat(M.str_get(c.ex, c.old, d), ESC(n)))]


def variant(roles_, idx, pre=False):
    class V(Loop):
        fn = r'AppendEscapedStringTo|EscapeString'
        roles = roles_

        def k(self, c):
            p, n = sl(c)
            return idx(c, p, n)

        def at_header(self, c):
            unfold(c, self.k(c))

        def inv(self, c):
            k = self.k(c)
            p, n = sl(c)
            d = c.args[0].addr
            B, B0 = c.E('i8'), c.E('i8', c.old)
            i = z3.Int('i')
            s0 = M.str_get(c.ex, c.entry, d)
            # content is what was there when the loop was entered, then the escaped bytes
            return [('position in range', z3.And(k >= 0, k <= n)),
                    ('content so far', M.str_get(c.ex, c.st, d) == z3.Concat(s0, ESC(k))),
                    ('input bytes untouched', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < STACK0), B[i] == B0[i]), patterns=[B[i]]))]

        def decreases(self, c):
            p, n = sl(c)
            return n - self.k(c)
    return V


LOOPS = [variant({'i': 'i64'}, lambda c, p, n: c.v['i']),
         variant({'i': 'ptr'}, lambda c, p, n: c.v['i'].addr - p),
         variant({'i': 'i64'}, lambda c, p, n: n - c.v['i'])]


def esc_post(c):
    p, n = sl(c)
    return [('is the escaped bytes', M.str_get(c.ex, c.st, c.args[0].addr) == ESC(n))]


def lemma_single():
    """the renderings of single bytes: 1 character exactly for 0x20..0x7e, else 4 lower-case characters"""
    b = z3.Int('b')
    x = esc1(None, b)
    rng = [b >= 0, b < 256]
    ishex = lambda t: z3.Or(z3.And(t >= 48, t <= 57), z3.And(t >= 97, t <= 102))
    return [('printable bytes stay', rng + [b >= 32, b <= 126], x == z3.Unit(b)),
            ('others take four characters', rng + [z3.Or(b < 32, b > 126)], z3.And(z3.Length(x) == 4, x[0] == 92, x[1] == 120, ishex(x[2]), ishex(x[3])))]


def tasks(prog):
    app = Task('AppendEscapedStringTo', r'^lsmdb::AppendEscapedStringTo\(', Append(), 'int', loops=LOOPS)

    def setup(c):
        c.old = c.st
        c.st.assume(*[f for _, f in base(c)])
        read_windows(c.ex, [slice_of(c, c.args[1].addr)], 'the input')
    return [app, Lemma('single bytes', lemma_single),
            simple('EscapeString', r'^lsmdb::EscapeString', lambda c: [('slice in memory', sane(*slice_of(c, c.args[1].addr)))], esc_post,
                   modifies=lambda c: {('STR',): [(c.args[0].addr,)]}, setup=setup, loops=LOOPS)]

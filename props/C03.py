"""Hash: equals a fixed function of the bytes, the length and the seed."""
import z3
from vc.engine import FnSpec, Loop
from vc.run import Task, Lemma
from .coding_spec import bv, byte, sane_range, ReadWindow

TUS = ['hash', 'inline_inst']
DRIVER = {'src': 'hash.cc', 'sources': ['util/hash.cc']}
DRIVER_SECS = 20
TRUST = ['recursive specification function HS (state after the first k whole words), unfolded one step at a time']

m = bv(0xc6a4a793, 32)
HS = z3.Function('HS', z3.BitVecSort(64), z3.BitVecSort(32))


def init(seed, n):
    return seed ^ (z3.Extract(31, 0, n) * m)


def step(h, w):
    h = (h + w) * m
    return h ^ z3.LShR(h, 16)


def word(bs):
    return z3.Concat(*reversed(bs))


def tail(h, bs):
    """1..3 trailing bytes, taken unsigned"""
    for i in range(len(bs) - 1, -1, -1):
        h = h + (z3.ZeroExt(24, bs[i]) << (8 * i))
    h = h * m
    return h ^ z3.LShR(h, 24)


class HashSpec(FnSpec):
    def pre(self, c):
        p, n = c.args[0].addr, c.args[1]
        return [('range in memory', sane_range(p, n)),
                ('HS base', HS(bv(0, 64)) == init(c.args[2], n))]

    def setup(self, c):
        ReadWindow(c.args[0].addr, c.args[1]).install(c.ex)

    def post(self, c):
        p, n = c.args[0].addr, c.args[1]
        full = n & bv((1 << 64) - 4, 64)
        h = HS(full)
        out = []
        for r in range(4):
            bs = [byte(c, p + full, i, c.old) for i in range(r)]
            exp = tail(h, bs) if r else h
            out.append(('value for lengths with %d trailing bytes' % r, z3.Implies((n & 3) == r, c.ret == exp)))
        return out


def variant(off_of, roles_, dec):
    class V(Loop):
        fn = r'lsmdb::Hash'
        roles = roles_

        def off(self, c):
            return off_of(c, c.root[0].addr, c.root[1])

        def prep(self, c):
            c.root = c.args

        def at_header(self, c):
            self.prep(c)
            o = self.off(c)
            p, n = c.args[0].addr, c.args[1]
            bs = [byte(c, p + o, i, c.old) for i in range(4)]
            c.st.assume(z3.Implies(z3.And(z3.ULE(o, n), z3.UGE(n - o, bv(4, 64)), (o & 3) == 0), HS(o + 4) == step(HS(o), word(bs))))

        def inv(self, c):
            self.prep(c)
            o = self.off(c)
            n = c.args[1]
            return [('offset is a whole number of words inside the range', z3.And((o & 3) == 0, z3.ULE(o, n))),
                    ('state is the specification state', c.v['h'] == HS(o))]

        def decreases(self, c):
            self.prep(c)
            return c.args[1] - self.off(c)
    return V


LOOPS = [
    variant(lambda c, p, n: c.v['p'].addr - p, {'p': 'ptr', 'h': 'i32'}, None),
    variant(lambda c, p, n: c.v['i'], {'i': 'i64', 'h': 'i32'}, None),
    variant(lambda c, p, n: c.v['i'] * 4, {'i': 'i64', 'h': 'i32'}, None),
    variant(lambda c, p, n: n - c.v['i'], {'i': 'i64', 'h': 'i32'}, None),
    variant(lambda c, p, n: (n & bv((1 << 64) - 4, 64)) - c.v['i'] * 4, {'i': 'i64', 'h': 'i32'}, None),
]


def content_lemma():
    """equal contents, length and seed give equal specification states (induction on the offset)"""
    H1 = z3.Function('HS1', z3.BitVecSort(64), z3.BitVecSort(32))
    H2 = z3.Function('HS2', z3.BitVecSort(64), z3.BitVecSort(32))
    s, n, o = z3.BitVec('seed', 32), z3.BitVec('n', 64), z3.BitVec('o', 64)
    b1 = [z3.BitVec('b1_%d' % i, 8) for i in range(4)]
    b2 = [z3.BitVec('b2_%d' % i, 8) for i in range(4)]
    eq = [x == y for x, y in zip(b1, b2)]
    return [('base', [H1(0) == init(s, n), H2(0) == init(s, n)], H1(0) == H2(0)),
            ('step', [H1(o) == H2(o), H1(o + 4) == step(H1(o), word(b1)), H2(o + 4) == step(H2(o), word(b2))] + eq, H1(o + 4) == H2(o + 4))]


def tasks(prog):
    return [Task('Hash', r'^lsmdb::Hash\(', HashSpec(), 'bv', loops=LOOPS),
            Lemma('hash depends on contents only', content_lemma)]

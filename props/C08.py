"""Random: MINSTD recurrence, ranges."""
import z3
from .common import *

TUS = ['inline_inst']
DRIVER = {'src': 'random.cc', 'sources': []}
DRIVER_SECS = 10
PRIME = (1 << 31) - 1


def seed(c, st=None):
    return c.F('Random', 'seed_', st)[c.args[0].addr]


def ok(s):
    return z3.And(s >= 1, s <= PRIME - 1)


def mods(c):
    return {c.ex.fkey('Random', 'seed_'): [(c.args[0].addr,)]}


def pre(c):
    return [('state in range', ok(seed(c)))]


def stepped(c):
    return [('state stays in [1, 2^31-2]', ok(seed(c))),
            ('exactly one recurrence step', step_is(seed(c), 16807 * seed(c, c.old)))]


def step_is(x, p):
    """x == p mod (2^31-1); the second disjunct implies the first (lemma below) and spares the solver the search"""
    hi = p / (1 << 31)
    return z3.Or(x == p % PRIME, z3.And(x >= 1, x < PRIME, z3.Or(x == p - PRIME * hi, x == p - PRIME * (hi + 1))))


def lemma_mod():
    x, p, k = z3.Ints('x p k')
    return [('a number congruent to p in [0, P) is p mod P', [x >= 0, x < PRIME, p == x + PRIME * k], x == p % PRIME)]


def draw(c):
    return (16807 * seed(c, c.old)) % PRIME


def signed(x):
    return z3.If(x >= 1 << 31, x - (1 << 32), x)


def lemma_nonzero():
    """16807*s is never a multiple of 2^31-1 for s in range: the factor 16807 is invertible modulo the prime"""
    s, q = z3.Ints('s q')
    inv = pow(16807, -1, PRIME)
    k = (16807 * inv - 1) // PRIME
    # 16807*s = q*P  ->  s = inv*16807*s - k*P*s = P*(inv*q - k*s): s is a multiple of P
    return [('inverse exists', [], z3.IntVal(16807 * inv) == z3.IntVal(1 + k * PRIME)),
            ('the step never reaches 0', [ok(s), (16807 * s) == q * PRIME, q >= 0], z3.BoolVal(False))]


class Next(FnSpec):
    name = r'^lsmdb::Random::Next\('

    def pre(self, c):
        return pre(c)

    def post(self, c):
        return stepped(c) + [('returns the state', c.ret == seed(c))]

    def modifies(self, c):
        return mods(c)


class Uniform(FnSpec):
    name = r'^lsmdb::Random::Uniform\('

    def pre(self, c):
        return pre(c) + [('n > 0', z3.And(c.args[1] > 0, c.args[1] < 1 << 31))]

    def post(self, c):
        return [('state stays in [1, 2^31-2]', ok(seed(c))), ('draw in [0, n-1]', z3.And(c.ret >= 0, c.ret < c.args[1]))]

    def modifies(self, c):
        return mods(c)


def tasks(prog):
    return [
        simple('Random(seed)', r'^lsmdb::Random::Random\(', None, lambda c: [('state in [1, 2^31-2]', ok(seed(c)))], modifies=mods),
        Task('Next', r'^lsmdb::Random::Next\(', Next, helper=True, required=True),
        Task('Uniform', r'^lsmdb::Random::Uniform\(', Uniform, helper=True, required=True, contracts=[Next]),
        simple('OneIn', r'^lsmdb::Random::OneIn\(', lambda c: pre(c) + [('n > 0', z3.And(c.args[1] > 0, c.args[1] < 1 << 31))],
               lambda c: [('state stays in range', ok(seed(c))), ('one in n: the uniform draw is 0', z3.Implies(c.args[1] == 1, c.ret))], modifies=mods, contracts=[Next, Uniform]),
        simple('Skewed', r'^lsmdb::Random::Skewed\(', lambda c: pre(c) + [('0 <= max_log <= 30', z3.And(c.args[1] >= 0, c.args[1] <= 30))],
               lambda c: [('state stays in range', ok(seed(c)))] + [('draw below 2^max_log = 2^%d' % k, z3.Implies(c.args[1] == k, z3.And(c.ret >= 0, c.ret < (1 << k)))) for k in range(31)], modifies=mods, contracts=[Next, Uniform]),
        Lemma('nonzero', lemma_nonzero), Lemma('mod', lemma_mod),
    ]

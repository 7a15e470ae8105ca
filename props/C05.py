"""Status: a faithful, independent value."""
import re
import z3
from .common import *
from vc import build

TUS = ['status', 'inline_inst']
DRIVER = {'src': 'status.cc', 'sources': ['util/status.cc']}
DRIVER_SECS = 15
ASSUME = ['messages together shorter than 2^31 bytes (the representation stores a 32-bit length)',
          'distinct status objects own distinct representations (established by every constructor and assignment below)']

KINDS = ['NotFound', 'Corruption', 'NotSupported', 'InvalidArgument', 'IOError']
TEXT = {'NotFound': b'NotFound: ', 'Corruption': b'Corruption: ', 'NotSupported': b'Not implemented: ',
        'InvalidArgument': b'Invalid argument: ', 'IOError': b'IO error: '}
PRED = {'NotFound': 'IsNotFound', 'Corruption': 'IsCorruption', 'NotSupported': 'IsNotSupportedError',
        'InvalidArgument': 'IsInvalidArgument', 'IOError': 'IsIOError'}
CODES = {}


def enumerators(prog):
    for m in prog.mods:
        for l in open(m.path):
            if 'DIEnumerator(name: "k' in l:
                n, v = re.search(r'name: "k(\w+)", value: (-?\d+)', l).groups()
                CODES.setdefault(n, int(v))


def state(c, s, st=None):
    return c.F('Status', 'state_', st)[s]


def le32(B, p):
    return B[p] + B[p + 1] * 256 + B[p + 2] * 65536 + B[p + 3] * (1 << 24)


def bytes_ok(B, p):
    return z3.And([z3.And(B[p + i] >= 0, B[p + i] < 256) for i in range(5)])


def wf_rep(c, s, st=None):
    """s is a heap-allocated representation of an error status"""
    B = c.E('i8', st)
    n = le32(B, s)
    return z3.And(s > 0, s + 5 + n < HEAPMAX, n < (1 << 31) - 16, bytes_ok(B, s),
                  z3.Or([B[s + 4] == CODES[k] for k in KINDS]), M.live(c.ex, st or c.st)[s])


def wf(c, s, st=None):
    return z3.Or(s == 0, wf_rep(c, s, st))


def disjoint_alloc(ex, ranges):
    """a new block overlaps none of the blocks in use"""
    def hook(ex_, st, a, n):
        st.assume(a + n < HEAPMAX)
        for lo, k in ranges:
            st.assume(z3.Or(a + n <= lo, lo + k <= a))
        st.aux['blocks'] = st.aux.get('blocks', ()) + ((a, n),)
    ex.alloc_hook = hook


def mem_rules(c, ranges):
    """allocation disjointness, reads inside the inputs or own blocks, writes inside own blocks"""
    ex = c.ex
    disjoint_alloc(ex, ranges)

    def hook(ex_, st, rw, p, key, idx, ty, line, v=None):
        if key == ('E', 'i8') and not is_stack(idx[0]) and p.glob is None:
            one(st, rw, idx[0], 1, line)

    def rhook(ex_, st, rw, p, n, line):
        if not is_stack(p.addr) and p.glob is None:
            one(st, rw, p.addr, n, line)

    def one(st, rw, a, n, line):
        bl = list(st.aux.get('blocks', ()))
        ws = bl + (list(ranges) if rw == 'r' else [])
        ex.oblige(st, 'bytes %s lie inside %s' % ('read' if rw == 'r' else 'written', 'the messages or own blocks' if rw == 'r' else 'own blocks'),
                  z3.Or([n == 0] + [z3.And(lo <= a, a + n <= lo + k) for lo, k in ws]), line, 'safety')
    ex.access_hook = hook
    ex.range_hook = rhook


def rep_of(c, s, code, m1, n1, m2, n2):
    """s represents (code, message 1 [+ ': ' + message 2])"""
    B, B0 = c.E('i8'), c.E('i8', c.old)
    i = z3.Int('i')
    size = z3.If(n2 == 0, n1, n1 + 2 + n2)
    q = s + 5
    return [('representation allocated', z3.And(s != 0, M.live(c.ex, c.st)[s], z3.Not(M.live(c.ex, c.old)[s]))),
            ('length stored', le32(B, s) == size),
            ('code stored', B[s + 4] == code),
            ('first message stored', z3.ForAll([i], z3.Implies(z3.And(i >= q, i < q + n1), B[i] == B0[i - q + m1]))),
            ('separator stored', z3.Implies(n2 != 0, z3.And(B[q + n1] == 58, B[q + n1 + 1] == 32))),
            ('second message stored', z3.ForAll([i], z3.Implies(z3.And(n2 != 0, i >= q + n1 + 2, i < q + n1 + 2 + n2), B[i] == B0[i - (q + n1 + 2) + m2])))]


def only_new(c, extra_freed=None):
    """outside blocks allocated here no byte changed; and LIVE changed only as stated"""
    B, B0 = c.E('i8'), c.E('i8', c.old)
    i = z3.Int('i')
    bl = list(c.st.aux.get('blocks', ()))
    return [('no other byte changed', z3.ForAll([i], z3.Implies(z3.And([i >= 0, i < STACK0] + [z3.Or(i < a, i >= a + n) for a, n in bl]), B[i] == B0[i])))]


def live_is(c, changes):
    """LIVE' = LIVE with the given (condition, address, value) updates"""
    L, L0 = M.live(c.ex, c.st), M.live(c.ex, c.old)
    exp = L0
    for cond, a, v in changes:
        exp = z3.If(cond, z3.Store(exp, a, z3.BoolVal(v)), exp)
    x = c.ex.fresh('x', z3.IntSort())
    return ('blocks in use: exactly the stated ones', z3.Implies(x != 0, L[x] == exp[x]))


MODB = {('E', 'i8'): None, ('LIVE',): None, ('EVER',): None}


def mods(c, *objs):
    m = dict(MODB)
    m[c.ex.fkey('Status', 'state_')] = [(o,) for o in objs]
    return m


def T2(c, i, j):
    return slice_of(c, c.args[i].addr, c.old) + slice_of(c, c.args[j].addr, c.old)


def pre_msgs(i, j):
    def f(c):
        m1, n1, m2, n2 = slice_of(c, c.args[i].addr) + slice_of(c, c.args[j].addr)
        return [('messages in memory', z3.And(sane(m1, n1), sane(m2, n2), n1 + n2 < (1 << 31) - 64))]
    return f


def setup_msgs(i, j):
    def f(c):
        m1, n1, m2, n2 = slice_of(c, c.args[i].addr) + slice_of(c, c.args[j].addr)
        mem_rules(c, [(m1, n1), (m2, n2)])
    return f


def made(i, j, code):
    def f(c):
        s = state(c, c.args[0].addr)
        cd = code if code is not None else c.args[1]
        return rep_of(c, s, cd, *T2(c, i, j)) + only_new(c) + [live_is(c, [(z3.BoolVal(True), s, True)])]
    return f


def code_cond(c, s, k):
    return z3.And(s != 0, c.E('i8', c.old)[s + 4] == CODES[k])


def pre_state(i=0):
    return lambda c: [('valid status', wf(c, state(c, c.args[i].addr)))]


def rep_range(c, s, st=None):
    return (s, z3.If(s == 0, 0, 5 + le32(c.E('i8', st), s)))


def setup_state(*idx):
    def f(c):
        mem_rules(c, [rep_range(c, state(c, c.args[i].addr)) for i in idx])
    return f


def same_rep(c, s, t, told):
    """rep s (now) equals rep t (at entry)"""
    B, B0 = c.E('i8'), c.E('i8', c.old)
    i = z3.Int('i')
    return z3.And(s != 0, M.live(c.ex, c.st)[s], le32(B, s) == le32(B0, t),
                  z3.ForAll([i], z3.Implies(z3.And(i >= s, i < s + 5 + le32(B0, t)), B[i] == B0[i - s + t])))


def byte_eqs(c, s, t):
    """instances used to relate the first bytes of two representations"""
    return None


def copied(c):
    s, t = state(c, c.args[0].addr), state(c, c.args[1].addr, c.old)
    return [('success is copied as success', z3.Implies(t == 0, s == 0)),
            ('error is copied to an equal, separate representation', z3.Implies(t != 0, z3.And(s != t, same_rep(c, s, t, None)))),
            live_is(c, [(t != 0, s, True)])] + only_new(c)


def assigned(c):
    o, r = c.args[0].addr, c.args[1].addr
    s0, t = state(c, o, c.old), state(c, r, c.old)
    s = state(c, o)
    return [('returns *this', c.ret.addr == o),
            ('source unchanged', state(c, r) == t),
            ('success is assigned as success', z3.Implies(t == 0, s == 0)),
            ('error is assigned as an equal status', z3.Implies(t != 0, same_rep(c, s, t, None))),
            ('independent unless self-assignment', z3.Implies(z3.And(t != 0, o != r), s != t)),
            live_is(c, [(z3.And(s0 != 0, s0 != s), s0, False), (s != 0, s, True)])] + only_new(c)


def pre_assign(c):
    o, r = c.args[0].addr, c.args[1].addr
    s0, t = state(c, o), state(c, r)
    return [('valid statuses', z3.And(wf(c, s0), wf(c, t))),
            ('own representations', z3.Or(o == r, s0 == 0, s0 != t))]


def moved_ctor(c):
    o, r = c.args[0].addr, c.args[1].addr
    return [('takes the representation', state(c, o) == state(c, r, c.old)),
            ('source becomes success', state(c, r) == 0)] + only_new(c)


def pre_mctor(c):
    return [('valid status', wf(c, state(c, c.args[1].addr))), ('distinct objects', c.args[0].addr != c.args[1].addr)]


def move_assigned(c):
    o, r = c.args[0].addr, c.args[1].addr
    s0, t = state(c, o, c.old), state(c, r, c.old)
    r2 = state(c, r)
    return [('returns *this', c.ret.addr == o),
            ('takes the representation', z3.Implies(o != r, state(c, o) == t)),
            ('source stays valid', z3.Implies(o != r, z3.Or(r2 == 0, r2 == s0))),
            ('self move stays valid', z3.Implies(o == r, z3.Or(r2 == 0, r2 == s0))),
            live_is(c, [(z3.And(s0 != 0, s0 != state(c, o), s0 != r2), s0, False)])] + only_new(c)


def dtor_post(c):
    s = state(c, c.args[0].addr, c.old)
    return [live_is(c, [(s != 0, s, False)])] + only_new(c)


def tostring_post(c):
    s = state(c, c.args[1].addr, c.old)
    B0 = c.E('i8', c.old)
    out = M.str_get(c.ex, c.st, c.args[0].addr)
    body = M.seqof(c.ex, c.st, s + 5, le32(B0, s), B0)
    r = [('success renders as OK', z3.Implies(s == 0, out == M.lit(c.ex, b'OK')))]
    for k in KINDS:
        r.append(('%s renders as its text and the message' % k,
                  z3.Implies(code_cond(c, s, k), out == z3.Concat(M.lit(c.ex, TEXT[k]), body))))
    return r + only_new(c)


def tasks(prog):
    enumerators(prog)
    missing = [k for k in KINDS if k not in CODES]
    if missing:
        raise Unsupported('enumerators %s not found' % missing)
    T = [simple('Status(code,msg,msg2)', r'^lsmdb::Status::Status\(lsmdb::Status::Code',
                lambda c: pre_msgs(2, 3)(c) + [('error code', z3.Or([c.args[1] == CODES[k] for k in KINDS]))], made(2, 3, None),
                modifies=lambda c: mods(c, c.args[0].addr), setup=setup_msgs(2, 3))]
    for k in KINDS:
        T.append(simple(k, r'^lsmdb::Status::%s\(' % k, pre_msgs(1, 2), made(1, 2, CODES[k]), modifies=lambda c: mods(c, c.args[0].addr), setup=setup_msgs(1, 2)))
        T.append(simple(PRED[k], r'^lsmdb::Status::%s\(' % PRED[k], pre_state(),
                        lambda c, k=k: [('true for exactly its kind', c.ret == code_cond(c, state(c, c.args[0].addr, c.old), k))], setup=setup_state(0)))
    T += [
        simple('OK', r'^lsmdb::Status::OK\(', None, lambda c: [('success', state(c, c.args[0].addr) == 0)], modifies=lambda c: mods(c, c.args[0].addr)),
        simple('Status()', r'^lsmdb::Status::Status\(\)', None, lambda c: [('success', state(c, c.args[0].addr) == 0)], modifies=lambda c: mods(c, c.args[0].addr)),
        simple('ok', r'^lsmdb::Status::ok\(', pre_state(), lambda c: [('ok exactly when success', c.ret == (state(c, c.args[0].addr, c.old) == 0))]),
        simple('copy constructor', r'^lsmdb::Status::Status\(lsmdb::Status const&\)',
               lambda c: pre_state(1)(c) + [('distinct objects', c.args[0].addr != c.args[1].addr)], copied,
               modifies=lambda c: mods(c, c.args[0].addr), setup=setup_state(1)),
        simple('copy assignment', r'^lsmdb::Status::operator=\(lsmdb::Status const&\)', pre_assign, assigned,
               modifies=lambda c: mods(c, c.args[0].addr), setup=setup_state(0, 1)),
        simple('move constructor', r'^lsmdb::Status::Status\(lsmdb::Status&&\)', pre_mctor, moved_ctor,
               modifies=lambda c: mods(c, c.args[0].addr, c.args[1].addr), setup=setup_state(1)),
        simple('move assignment', r'^lsmdb::Status::operator=\(lsmdb::Status&&\)', pre_assign, move_assigned,
               modifies=lambda c: mods(c, c.args[0].addr, c.args[1].addr), setup=setup_state(0, 1)),
        simple('destructor', r'^lsmdb::Status::~Status\(', pre_state(), dtor_post, modifies=lambda c: mods(c, c.args[0].addr)),
        simple('ToString', r'^lsmdb::Status::ToString', pre_state(1), tostring_post,
               modifies=lambda c: dict(list(MODB.items()) + [(('STR',), [(c.args[0].addr,)])]), setup=setup_state(1)),
    ]
    return T

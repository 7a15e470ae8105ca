"""Concurrent cache use is atomic per operation and ids are unique.

Each operation of a shard is run symbolically from any state at all: wherever the code touches state that the mutex guards, the thread must hold that
mutex, which every path takes exactly once and gives back.  With C12-C14, which show what one such critical section does to the shard, every concurrent
history is one of operations executed one at a time.
"""
from .cache_shard import *

TUS = ['cache', 'inline_inst', 'hash']
DRIVER = {'src': 'cache.cc', 'sources': ['util/cache.cc', 'util/hash.cc'], 'extra': ['-lpthread'], 'configs': [{'sanitize': 'address,undefined'}, {'sanitize': 'thread'}]}
DRIVER_SECS = 12
TRUST = SYNC_TRUST
ASSUME = ['assertions in cache.cc never fail and entries without references are reachable by no other thread (C12, C13)', 'construction and destruction of the cache overlap no operation (C++)', 'fewer than 2^64 ids are handed out']
CONST_FIELDS = ('value', 'deleter', 'charge', 'key_length', 'hash', 'key_data')


def count(st):
    return st.ghost['locks']


class AnyLoop(Loop):
    """loops neither take nor give up the mutex (their other invariants: C12-C14)"""
    roles = {}

    def inv(self, c):
        return [('the lock is as at the start of the loop', z3.And(c.st.ghost['held'] == c.entry.ghost['held'], count(c.st) == count(c.entry)))]


class TableC(FnSpec):
    """functions of the hash table: called holding the mutex; what they do: C12"""
    name = '^' + NSX + r'HandleTable::(?!~?HandleTable)\w+\('

    def pre(self, c):
        return [('the hash table is used holding the mutex', held(c.st, c.ex.mu))]

    def modifies(self, c):
        return tmods(c)


def m_assert(ex, st, a, ins, dem):
    return []       # assertions never fail: proved by C12-C14


ASSERTS = [(re.compile(r'^__assert_fail$'), m_assert)]


def guarded(ex, s, rw, p, key, idx, ty, line, v=None):
    a = idx[0] if idx else None
    if a is None or is_stack(a):
        return
    h = held(s, ex.mu) if ex.mu is not None else FALSE
    lab = 'shared state of the cache is accessed holding its mutex'
    if key[0] == 'F' and key[1] == LC:
        if key == ex.fkey(LC, 'capacity_'):
            if rw == 'w':
                ex.oblige(s, 'the capacity of a shared cache never changes', FALSE, line)
        elif key[2] != ex.fkey(LC, 'mutex_')[2]:
            ex.oblige(s, lab, h, line)
    elif key[0] == 'F' and key[1] == HT:
        ex.oblige(s, lab, h, line)
    elif key[0] == 'F' and key[1] == SC:
        ex.oblige(s, lab, h if key == ex.fkey(SC, 'last_id_') else FALSE if rw == 'w' else TRUE, line)
    elif key == C_:
        n = s.aux.get('new')
        ex.oblige(s, lab, z3.Or(h, z3.And(count(s) == 0, a == CHAIN(n)) if n is not None else FALSE), line)
    elif key[0] == 'F' and key[1] == LH:
        n = s.aux.get('new')
        mine = z3.Or(count(s) == 0, h) if n is not None else FALSE
        private = z3.And(a == n, mine) if n is not None else FALSE
        consts = [ex.fkey(LH, f)[2] for f in CONST_FIELDS]
        if any(o <= key[2] < o + (32 if f == 'deleter' else 1) for o, f in zip(consts, CONST_FIELDS)):
            if rw == 'w':
                ex.oblige(s, 'what an entry holds is only set before it is shared', z3.Or(private, dying(ex, s, a)), line)
        else:
            ex.oblige(s, lab, z3.Or(h, private, dying(ex, s, a)), line)


def dying(ex, s, e):
    """no references are left: no other thread can reach the entry (C13)"""
    return fld(ex, s, LH, 'refs')[e] == 0


def on_lock(ex, st, mu):
    ex.oblige(st, 'the mutex taken guards the state at hand', mu == ex.mu if ex.mu is not None else FALSE, ex.cur_ins.line if ex.cur_ins else None)
    st.ghost['locks'] = count(st) + 1


def on_new(ex, st, a, n):
    if is_num(n) and num(n) == hsize(ex):
        st.aux['new'] = a


def lock_cfg(mutex):
    def cfg(ex, st):
        setup_engine(ex, st)
        ex.part = 'lock'
        ex.skip_tags = {'free'}     # memory is released correctly: C13
        st.ghost['locks'] = z3.IntVal(0)
        ex.mu = None
        ex.on_lock = on_lock
        ex.on_delete = None
        ex.alloc_hook = on_new
        ex.access_hook = guarded
        ex.mutex_field = mutex
    return cfg


class LockedOp(FnSpec):
    no_frame = True

    def pre(self, c):
        ex, st = c.ex, c.st
        t = c.args[0].addr
        cls, f = ex.mutex_field
        ex.mu = t + off(ex, cls, f)
        return [('the cache lies in memory', z3.And(t > 0, t + sizeof(ex, SC) < HEAPMAX))]

    def more(self, c):
        return []

    def post(self, c):
        ex, st = c.ex, c.st
        m = z3.Int('m!h')
        return [('the mutex is taken exactly once', count(st) == 1), ('the mutex is released', z3.ForAll([m], z3.Not(held(st, m)), patterns=[held(st, m)]))] + self.more(c)


class ChargeLocked(LockedOp):
    def more(self, c):
        return [('the usage at one moment', c.ret == fld(c.ex, c.old, LC, 'usage_')[c.args[0].addr])]


class NewIdOp(LockedOp):
    """ids are consecutive numbers: the next one is handed out and recorded in one critical section"""

    def more(self, c):
        a = c.args[0].addr
        i0, i1 = (fld(c.ex, s, SC, 'last_id_')[a] for s in (c.old, c.st))
        return [('the id is the one after the last', c.ret == z3.If(i0 + 1 == 1 << 64, 0, i0 + 1)), ('it is recorded as the last one', i1 == c.ret)]


class UnlockedOp(LockedOp):
    """operations of the whole cache leave locking to the shards"""

    def pre(self, c):
        t = c.args[0].addr
        return [('the cache lies in memory', z3.And(t > 0, t + sizeof(c.ex, SC) < HEAPMAX))]

    def post(self, c):
        m = z3.Int('m!h')
        return [('no mutex is held', z3.ForAll([m], z3.Not(held(c.st, m)), patterns=[held(c.st, m)]))]


class CtorId(FnSpec):
    no_frame = True

    def pre(self, c):
        t = c.args[0].addr
        return [('the cache lies in memory', z3.And(t > 0, t + sizeof(c.ex, SC) < HEAPMAX))]

    def post(self, c):
        return [('ids start at zero', fld(c.ex, c.st, SC, 'last_id_')[c.args[0].addr] == 0)]


def ctor_cfg(ex, st):
    sharded_cfg(ex, st)


def tasks(prog):
    kw = dict(models=ASSERTS + CACHE_MODELS, contracts=SLICES + [TableC], loops=[AnyLoop], config=lock_cfg((LC, 'mutex_')))
    out = [Task('LRUCache::' + n, '^' + NSX + 'LRUCache::' + n + r'\(', ChargeLocked() if n == 'TotalCharge' else LockedOp(), **kw) for n in ('Lookup', 'Release', 'Insert', 'Erase', 'Prune', 'TotalCharge')]
    S = '^' + NSX + 'ShardedLRUCache::'
    kw = dict(models=ASSERTS + CACHE_MODELS + SHARED_PTR, contracts=SLICES + SHARD_CALLS + [HashC], config=lock_cfg((SC, 'id_mutex_')), unroll=40)
    out.append(Task('ShardedLRUCache::NewId', S + r'NewId\(', NewIdOp(), **kw))
    out += [Task('ShardedLRUCache::' + n, S + n + r'\(', UnlockedOp(), **kw) for n in ('Lookup', 'Insert', 'Erase', 'Release', 'Value', 'Prune', 'TotalCharge')]
    out.append(Task('ShardedLRUCache::ShardedLRUCache', S + r'ShardedLRUCache\(', CtorId(), **dict(kw, config=ctor_cfg)))
    return out

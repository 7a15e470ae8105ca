"""Trusted contracts of std::mutex, std::condition_variable and std::thread (mutual exclusion, release and reacquisition,
spurious wake-ups), shared by C15, C17, C21 and C25.

Ghost state `held`: mutex address -> held by the thread under study.  Hooks of the module at hand:
  ex.on_lock(ex, st, mu)    after the mutex was taken: the data it guards may have been changed by other threads
  ex.on_unlock(ex, st, mu, ins)  before it is released: the invariant it guards must hold again
  ex.on_wait(ex, st, cv, mu, ins) before a wait releases it
"""
from .common import *


def held(st, mu):
    return st.ghost['held'][mu]


def init_held(st):
    st.ghost['held'] = z3.K(z3.IntSort(), z3.BoolVal(False))


def set_held(st, mu, v):
    st.ghost['held'] = z3.Store(st.ghost['held'], mu, z3.BoolVal(v))


def hk(ex, name, *a):
    h = getattr(ex, name, None)
    if h:
        h(ex, *a)


def m_lock(ex, st, a, ins, dem):
    mu = a[0].addr
    ex.oblige(st, 'a mutex is not locked again by the thread holding it', z3.Not(held(st, mu)), ins.line, 'safety')
    set_held(st, mu, True)
    hk(ex, 'on_lock', st, mu)
    return None


def m_unlock(ex, st, a, ins, dem):
    mu = a[0].addr
    ex.oblige(st, 'a mutex is unlocked only by the thread holding it', held(st, mu), ins.line, 'safety')
    hk(ex, 'on_unlock', st, mu, ins)
    set_held(st, mu, False)
    return None


def m_cv_wait(ex, st, a, ins, dem):
    # wait(unique_lock&): the lock's mutex is its first member
    mu = ex.load(st, P(a[1].addr, sty=('ptr',), tag=None) if False else lockptr(ex, st, a[1]), 'ptr', ins.line).addr
    ex.oblige(st, 'a condition is awaited holding its mutex', held(st, mu), ins.line, 'safety')
    hk(ex, 'on_wait', st, a[0].addr, mu, ins)
    hk(ex, 'on_unlock', st, mu, ins)
    hk(ex, 'on_lock', st, mu)
    return None


def lockptr(ex, st, p):
    return P(p.addr, (('F', 'unique_lock', 0), (p.addr,)))


SYNC_MODELS = [(re.compile(p), f) for p, f in [
    (r'^std::mutex::lock\(\)', m_lock), (r'^std::mutex::unlock\(\)', m_unlock),
    (r'^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)', m_cv_wait),
    (r'^std::condition_variable::notify_(one|all)\(\)', lambda ex, st, a, ins, dem: hk(ex, 'on_notify', st, a[0].addr, ins)),
    (r'^std::(mutex|condition_variable)::~?(mutex|condition_variable)\(\)', lambda ex, st, a, ins, dem: None),
    (r'^std::__mutex_base::__mutex_base\(\)', lambda ex, st, a, ins, dem: None),
]]
SYNC_TRUST = ['std::mutex gives mutual exclusion; std::condition_variable::wait releases and retakes the mutex and may wake spuriously']

"""PosixEnv::Schedule and its worker: every scheduled item runs exactly once, in order, outside the queue's lock.

Ghost state guarded by the queue's mutex: QUEUE (sequence of items, an item being a function value and its argument) and
THREADS (worker threads started so far).  Lock invariant: THREADS <= 1, the started flag says whether it is 1, and a
non-empty queue has a worker.  Whenever the mutex is taken, QUEUE and THREADS are whatever the other threads left there.
The worker's ghosts: taken (items popped by it), ran (items executed by it); they agree at every iteration's end, so with
at most one worker the items run are the items pushed, each once, in order.
"""
from .sync_spec import *
from .status_spec import *

TUS = ['env_posix', 'env']
DRIVER = {'src': 'schedule.cc', 'sources': ['util/env.cc', 'util/env_posix.cc', 'util/status.cc', 'util/logging.cc'], 'extra': ['-lpthread'], 'configs': [{'sanitize': 'address,undefined'}, {'sanitize': 'thread'}]}
DRIVER_SECS = 12
TRUST = SYNC_TRUST + ['std::queue is a FIFO sequence (ISO C++); std::function copies call the same target; std::thread runs the given function once with the given arguments']
ASSUME = ['the environment object is constructed once and never destroyed (its documented use)', 'no scheduling failure: memory and a thread can be obtained']
ENV = 'PosixEnv'

Item = z3.Datatype('WorkItem')
Item.declare('mk', ('fun', z3.IntSort()), ('arg', z3.IntSort()))
Item = Item.create()
QS = z3.SeqSort(Item)


def shared(ex, st, name, sort):
    k = (name,)
    if k not in ex.init_mem:
        ex.init_mem[k] = (z3.Const('M_' + name, sort), 'x')
    return st.mem.get(k, ex.init_mem[k][0])


def put(ex, st, name, v):
    ex.log_write((name,), None)
    st.mem[(name,)] = v


def Q(ex, st):
    return shared(ex, st, 'QUEUE', QS)


def TH(ex, st):
    return shared(ex, st, 'THREADS', z3.IntSort())


def field(prog_ex, pick):
    ms = prog_ex.prog.members()
    for cn, m in ms.items():
        if cn == ENV or cn.endswith('::' + ENV):
            for f, mem in m.items():
                if pick(f, mem):
                    return f, mem
    raise Unsupported('member of PosixEnv not found')


def env_off(ex, name):
    return ex.fkey(ENV, name)[2]


MU, CV, FLAG, QUE = 'background_work_mutex_', 'background_work_cv_', 'started_background_thread_', 'background_work_queue_'


def env(ex):
    return ex.root_args[0].addr


def mu_addr(ex):
    return env(ex) + env_off(ex, MU)


def flag(ex, st):
    return ex.region(st, ex.fkey(ENV, FLAG), 'i8')[env(ex)]


def inv(ex, st):
    t = TH(ex, st)
    f = flag(ex, st)
    return [('at most one worker thread, exactly when the flag says so', z3.And(z3.Or(t == 0, t == 1), z3.Or(f == 0, f == 1), (f == 1) == (t == 1))),
            ('queued work has a worker', z3.Or(z3.Length(Q(ex, st)) == 0, t == 1))]


def on_lock(ex, st, mu):
    put(ex, st, 'QUEUE', ex.fresh('QUEUE', QS))
    t = ex.fresh('THREADS', z3.IntSort())
    put(ex, st, 'THREADS', t)
    k = ex.fkey(ENV, FLAG)
    ex.log_write(k, (env(ex),))
    st.mem[k] = ex.upd(ex.region(st, k, 'i8'), (env(ex),), ex.fresh('started', z3.IntSort()))
    for _, f in inv(ex, st):
        st.assume(f)
    if getattr(ex, 'worker', False):
        st.assume(t == 1)
    st.ghost['sig_cs'] = z3.BoolVal(False)


def on_unlock(ex, st, mu, ins):
    ex.oblige(st, 'the mutex is the queue\'s', mu == mu_addr(ex), ins.line)
    for lab, f in inv(ex, st):
        ex.oblige(st, lab + ' when the mutex is released', f, ins.line)


def on_wait(ex, st, cv, mu, ins):
    ex.oblige(st, 'the worker waits on the queue\'s condition and mutex', z3.And(cv == env(ex) + env_off(ex, CV), mu == mu_addr(ex)), ins.line)
    ex.oblige(st, 'the worker only waits when it saw no work since taking the mutex', z3.Length(Q(ex, st)) == 0, ins.line)


def on_notify(ex, st, cv, ins):
    mine = cv == env(ex) + env_off(ex, CV)
    g = st.ghost
    g['signalled'] = z3.Or(g['signalled'], z3.And(mine, g['pushes'] > 0))
    g['sig_cs'] = z3.Or(g['sig_cs'], z3.And(mine, held(st, mu_addr(ex))))


def locked(ex, st, ins, what='the queue'):
    ex.oblige(st, '%s is only touched with its mutex held' % what, held(st, mu_addr(ex)), ins.line)


def my_queue(ex, st, a, ins):
    ex.oblige(st, 'the environment\'s queue', a.addr == env(ex) + env_off(ex, QUE), ins.line)


def q_empty(ex, st, a, ins, dem):
    locked(ex, st, ins)
    my_queue(ex, st, a[0], ins)
    return z3.Length(Q(ex, st)) == 0


def q_size(ex, st, a, ins, dem):
    locked(ex, st, ins)
    n = z3.Length(Q(ex, st))
    st.assume(n < (1 << 62))
    return n


def push(ex, st, item, ins):
    locked(ex, st, ins)
    q, g = Q(ex, st), st.ghost
    ex.oblige(st, 'the item queued is the function and argument given', item == Item.mk(ex.fun0, ex.arg0), ins.line)
    g['need_sig'] = z3.Or(g['need_sig'], z3.Length(q) == 0)
    g['pushes'] = g['pushes'] + 1
    g['signalled'] = z3.Or(g['signalled'], g['sig_cs'])
    put(ex, st, 'QUEUE', z3.Concat(q, z3.Unit(item)))


def q_emplace(ex, st, a, ins, dem):
    my_queue(ex, st, a[0], ins)
    arg = ex.load(st, a[2], 'ptr', ins.line)
    push(ex, st, Item.mk(funs(ex, st)[a[1].addr], arg.addr), ins)
    return None


def item_at(ex, st, p):
    return Item.mk(funs(ex, st)[p + ex.fkey('BackgroundWorkItem', 'func')[2]], ex.region(st, ex.fkey('BackgroundWorkItem', 'arg'), 'ptr')[p])


def q_push(ex, st, a, ins, dem):
    my_queue(ex, st, a[0], ins)
    push(ex, st, item_at(ex, st, a[1].addr), ins)
    return None


def q_front(ex, st, a, ins, dem):
    locked(ex, st, ins)
    my_queue(ex, st, a[0], ins)
    q = Q(ex, st)
    ex.oblige(st, 'the front of the queue is taken only from a non-empty queue', z3.Length(q) > 0, ins.line, 'safety')
    p = z3.Function('front_node', QS, z3.IntSort())(q)
    st.assume(p > 0, p + 64 < HEAPMAX, item_at(ex, st, p) == q[0])
    e = env(ex)
    st.assume(z3.Or(p + 64 <= e, e + 288 <= p))
    st.ghost['front'] = p
    return P(p, sty=None)


def q_pop(ex, st, a, ins, dem):
    locked(ex, st, ins)
    my_queue(ex, st, a[0], ins)
    q, g = Q(ex, st), st.ghost
    ex.oblige(st, 'only a queued item is removed', z3.Length(q) > 0, ins.line, 'safety')
    ex.oblige(st, 'only the worker removes items', z3.BoolVal(bool(getattr(ex, 'worker', False))), ins.line)
    g['taken'] = z3.Concat(g['taken'], z3.Unit(q[0]))
    put(ex, st, 'QUEUE', z3.Extract(q, 1, z3.Length(q) - 1))
    # the popped item is gone
    p = z3.Function('front_node', QS, z3.IntSort())(q)
    set_fun(ex, st, p + ex.fkey('BackgroundWorkItem', 'func')[2], ex.fresh('gone', z3.IntSort()))
    k = ex.fkey('BackgroundWorkItem', 'arg')
    ex.log_write(k, (p,))
    st.mem[k] = ex.upd(ex.region(st, k, 'ptr'), (p,), ex.fresh('gone', z3.IntSort()))
    return None


def call_function(ex, st, a, ins, dem):
    ex.oblige(st, 'work runs outside the queue\'s lock', z3.Not(held(st, mu_addr(ex))), ins.line)
    ex.oblige(st, 'work is run by the worker, not by the thread scheduling it', z3.BoolVal(bool(getattr(ex, 'worker', False))), ins.line)
    st.ghost['ran'] = z3.Concat(st.ghost['ran'], z3.Unit(Item.mk(funs(ex, st)[a[0].addr], a[1].addr)))
    return None


def fn_name(ex, a):
    a = z3.simplify(a)
    for k, v in ex.globs.items():
        if k[0] == 'fn' and is_num(a) and num(a) == v:
            return k[1]
    return None


def thread_ctor(ex, st, a, ins, dem):
    locked(ex, st, ins, 'the worker thread')
    ex.oblige(st, 'no second worker thread is started', TH(ex, st) == 0, ins.line)
    if len(a) < 3:
        raise Unsupported('thread without an argument')
    name = fn_name(ex, a[1].addr) or fn_name(ex, ex.load(st, P(a[1].addr), 'ptr', ins.line).addr)
    fn = name and ex.prog.find(name, st.frame.fn.module)
    if not fn or fn.demangled not in ex.entry_names:
        raise Unsupported('thread entry %s has no contract' % name)
    ex.oblige(st, 'the worker serves this environment', ex.load(st, a[2], 'ptr', ins.line).addr == env(ex), ins.line)
    put(ex, st, 'THREADS', TH(ex, st) + 1)
    return None


QP = r'^(void |decltype\S* |auto )?std::queue<lsmdb::.*BackgroundWorkItem.*>::'
MODELS = SYNC_MODELS + FUN_MODELS + [(re.compile(p), f) for p, f in [
    (QP + r'empty\(\) const', q_empty), (QP + r'size\(\) const', q_size), (QP + r'emplace<', q_emplace), (QP + r'push\(', q_push),
    (QP + r'front\(\)', q_front), (QP + r'pop\(\)', q_pop), (QP + r'queue(<.*>)?\(\)', lambda ex, st, a, ins, dem: put(ex, st, 'QUEUE', z3.Empty(QS))),
    (r'^std::function<void \(void\*\)>::operator\(\)\(void\*\) const', call_function),
    (r'^std::thread::thread<', thread_ctor), (r'^std::thread::(detach\(\)|~thread\(\))', lambda ex, st, a, ins, dem: None)]]


def config(worker, names=()):
    def cfg(ex, st):
        ex.worker = worker
        ex.entry_names = names
        init_held(st)
        ex.on_lock, ex.on_unlock, ex.on_wait, ex.on_notify = on_lock, on_unlock, on_wait, on_notify
        g = st.ghost
        g.update(pushes=z3.IntVal(0), need_sig=z3.BoolVal(False), signalled=z3.BoolVal(False), sig_cs=z3.BoolVal(False),
                 taken=z3.Empty(QS), ran=z3.Empty(QS))

        def access(ex_, s, rw, p, key, idx, ty, line, v=None):
            if key == ex.fkey(ENV, FLAG):
                ex.oblige(s, 'the started flag is only touched with its mutex held', held(s, mu_addr(ex)), line)
        ex.access_hook = access
    return cfg


def own(c):
    ex = c.ex
    e = env(ex)
    ex.fun0 = funs(ex, c.st)[c.args[1].addr] if len(c.args) > 2 else None
    ex.arg0 = c.args[2].addr if len(c.args) > 2 else None
    r = [('environment in memory', z3.And(e > 0, e + 288 < HEAPMAX)),
         ('its condition uses its mutex', c.F('CondVar', 'mu_')[e + env_off(ex, CV)] == mu_addr(ex))]
    if len(c.args) > 1:
        r.append(('the argument is another object', z3.Or(c.args[1].addr + 32 <= e, e + 288 <= c.args[1].addr)))
    return r


def mods(c):
    return {('QUEUE',): None, ('THREADS',): None, ('FUN',): None, ('E', 'ptr'): None, c.ex.fkey(ENV, FLAG): None,
            c.ex.fkey('BackgroundWorkItem', 'arg'): None}


def free(c):
    return z3.Not(held(c.st, mu_addr(c.ex)))


def sched_post(c):
    g = c.st.ghost
    return [('the item is queued exactly once', g['pushes'] == 1), ('the mutex is released', free(c)),
            ('a waiting worker is woken', z3.Implies(g['need_sig'], g['signalled'])),
            ('nothing runs or is removed', z3.And(g['ran'] == z3.Empty(QS), g['taken'] == z3.Empty(QS)))]


class Outer(Loop):
    """between items: mutex free, everything taken has been run, in order"""
    def inv(self, c):
        return [('the mutex is free between items', free(c)),
                ('every item taken was run once, in order', c.st.ghost['taken'] == c.st.ghost['ran'])]


class Inner(Loop):
    """waiting: mutex held"""
    def inv(self, c):
        return [('the mutex is held while looking for work', held(c.st, mu_addr(c.ex))),
                ('every item taken was run once, in order', c.st.ghost['taken'] == c.st.ghost['ran'])] + [(l, f) for l, f in inv(c.ex, c.st)]


def ctor_post(c):
    ex = c.ex
    e = env(ex)
    return inv(ex, c.st) + [('no worker yet, nothing queued', z3.And(flag(ex, c.st) == 0, Q(ex, c.st) == z3.Empty(QS))),
                            ('the condition uses the queue\'s mutex', c.F('CondVar', 'mu_')[e + env_off(ex, CV)] == mu_addr(ex))]


def item_post(c):
    ex = c.ex
    t = c.args[0].addr
    return [('the item holds the given function and argument', item_at(ex, c.st, t) == Item.mk(funs(ex, c.old)[c.args[1].addr], c.args[2].addr))]


def tasks(prog):
    entries = [f for f in prog.by_demangled(r'PosixEnv::BackgroundThread\w+\(')]
    names, entry_tasks = [], []
    T = []
    for f in entries:
        if 'BackgroundThreadMain' in f.demangled:
            names.append(f.demangled)
            continue
        f.module.body(f)
        entry_tasks.append(f.demangled)
        names.append(f.demangled)

    def main_once(ex, st, a, ins, dem):
        st.events = st.events + (('main', a[0].addr),)
        return None

    def entry_post(c):
        ev = [e for e in c.st.events if e[0] == 'main']
        return [('the thread serves the environment it was given', z3.And(z3.BoolVal(len(ev) == 1), ev[0][1] == c.args[0].addr) if ev else z3.BoolVal(False))]
    for n in entry_tasks:
        T.append(simple('thread entry ' + n.split('PosixEnv::')[1].split('(')[0], '^' + re.escape(n), None, entry_post,
                        models=[(re.compile(r'.*PosixEnv::BackgroundThreadMain\(\)'), main_once)] + MODELS))
    kw = dict(models=MODELS, loops=[Inner, Outer])
    T += [
        simple('Schedule', r'PosixEnv::Schedule\(', own, sched_post, mods, config=config(False, names), **kw),
        simple('BackgroundThreadMain', r'PosixEnv::BackgroundThreadMain\(', own, lambda c: [('the worker never stops', z3.BoolVal(False))], mods,
               config=config(True, names), noreturn=True, **kw),
        simple('BackgroundWorkItem()', r'PosixEnv::BackgroundWorkItem::BackgroundWorkItem\(std::function', lambda c: [
            ('separate objects', z3.And(c.args[0].addr > 0, z3.Or(c.args[0].addr + 40 <= c.args[1].addr, c.args[1].addr + 32 <= c.args[0].addr)))],
            item_post, None, no_frame=True, models=MODELS),
        simple('PosixEnv()', r'PosixEnv::PosixEnv\(', lambda c: [('object in memory', z3.And(c.args[0].addr > 0, c.args[0].addr + 288 < HEAPMAX))], ctor_post, None,
               config=ctor_cfg, models=CTOR_MODELS, no_frame=True),
    ]
    return T


from . import C22
CTOR_MODELS = [m for m in MODELS if 'queue' in m[0].pattern] + SYNC_MODELS + [m for m in C22.MODELS if 'CondVar' not in m[0].pattern] + [
    (re.compile(r'^std::set<.*>::set\('), lambda ex, st, a, ins, dem: None)]


def ctor_cfg(ex, st):
    C22.lim_config(this_arg=0, track=False)(ex, st)
    init_held(st)
    put(ex, st, 'THREADS', z3.IntVal(0))

"""Running the proof tasks of one property."""
import re
import time
import traceback
import z3
from .engine import Engine, State, Frame, Cx, FnSpec, P, Obl, Unsupported, HEAPMAX, STACK0, is_num, has_quant
from .ir import IRError


DEADLINE = [1e18]


class Task:
    def __init__(self, name, fn, spec, mode='int', contracts=(), loops=(), config=None, models=(), unroll=80,
                 required=None, helper=False, note='', max_choices=6, budget=20):
        self.name, self.fn, self.spec, self.mode = name, fn, spec, mode
        self.contracts, self.loops, self.config, self.models = list(contracts), list(loops), config, list(models)
        self.unroll = unroll
        self.required = required if required is not None else not helper
        self.helper = helper
        self.note = note
        self.max_choices = max_choices
        self.budget = budget


class Lemma:
    """pure obligations over the specification functions: fn(A) -> [(label, hyps, goal)]"""

    def __init__(self, name, fn, required=True, budget=20):
        self.name, self.fn, self.required = name, fn, required
        self.helper = False
        self.budget = budget


class Result:
    def __init__(self, task):
        self.task = task
        self.status = None      # proved / failed / unsupported
        self.obls = []
        self.covers = []
        self.why = ''
        self.ex = None
        self.fn = None
        self.dropped = []


def find_fn(prog, pat):
    fs = prog.by_demangled(pat)
    if not fs:
        raise Unsupported('function %s not found in the compiled sources' % pat)
    return fs


def gen_task(prog, task, mods, dropped=(), choices=None, choice_n=None):
    """symbolically execute the body of the task's function; returns Result with obligations"""
    r = Result(task)
    if isinstance(task, Lemma):
        from .arith import Arith
        for lab, hyps, goal in task.fn():
            r.obls.append(Obl('lemma ' + task.name, lab, hyps, goal, kind='lemma'))
        return r
    ex = Engine(prog, task.mode)
    r.ex = ex
    try:
        fns = find_fn(prog, task.fn)
        # complete-object and base-object constructors share one body; take the first
        fn = fns[0]
        r.fn = fn
        ex.root = fn.demangled
        spec = task.spec() if isinstance(task.spec, type) else task.spec
        ex.contracts = [c() if isinstance(c, type) else c for c in task.contracts]
        ex.contracts = [c for c in ex.contracts if c.name not in dropped and type(c).__name__ not in dropped]
        ex.models = list(task.models) + list(mods)
        ex.loop_specs = [l() if isinstance(l, type) else l for l in task.loops]
        ex.unroll = task.unroll
        ex.choices = dict(choices or {})
        ex.choice_n = {}
        ex.deadline = min(time.time() + getattr(task, 'gen_limit', 150), DEADLINE[0])
        st = State()
        st.frame = Frame(fn, -1)
        if task.config:
            task.config(ex, st)
        args = make_args(ex, st, fn, spec)
        c = Cx(ex, st, old=st, args=args)
        ex.root_args = args
        pre = list(spec.pre(c))
        for lab, f in pre:
            st.assume(f)
        spec.setup(c)
        old = st.fork()
        ex.root_old = old
        outs = ex.run(fn, st, args, 0)
        if not outs and not getattr(spec, 'noreturn', False):
            r.status = 'unsupported'
            r.why = 'no path of %s reaches its end' % fn.demangled
        for i, (s, ret) in enumerate(outs):
            s.frame = Frame(fn, -1)
            c = Cx(ex, s, old=old, args=args, ret=ret)
            spec.effect(c)
            spec.at_exit(c)
            for lab, f in spec.post(c):
                ex.oblige(s, 'postcondition: ' + lab, f, None, 'post')
            frame_obls(ex, s, old, spec, c)
            r.covers.append(Obl(fn.demangled, 'cover exit %d' % i, list(ex.axioms) + list(s.pc), z3.BoolVal(False), kind='cover'))
        r.obls = ex.obls
    except (Unsupported, IRError, RecursionError) as e:
        r.status = 'unsupported'
        r.why = '%s: %s' % (type(e).__name__, e)
        r.obls = ex.obls
    except (z3.Z3Exception, KeyError, IndexError, TypeError, AttributeError, NotImplementedError, AssertionError, ValueError) as e:
        r.status = 'unsupported'
        r.why = 'extraction: %s: %s' % (type(e).__name__, str(e)[:300])
        if __import__('os').environ.get('VC_DEBUG'):
            traceback.print_exc()
    return r


def make_args(ex, st, fn, spec):
    if hasattr(spec, 'make_args'):
        return spec.make_args(ex, st, fn)
    args = []
    for i, (t, n, at) in enumerate(fn.params):
        if t[0] == 'ptr':
            a = z3.Const('arg_%s' % n, ex.A.asort())
            ex.assume_heap(st, a)
            ex.mark_heap(a)
            p = P(a, sty=at.get('sret'))
            if 'nonnull' in at or 'sret' in at:
                st.assume(a != ex.A.addr(0))
            args.append(p)
        elif t[0] == 'int':
            v = z3.Const('arg_%s' % n, ex.A.isort(t[1]))
            r = ex.A.in_range(v, t[1])
            if r is not None:
                st.assume(r)
            args.append(v)
        elif t[0] in ('lit', 'struct'):
            args.append(ex.fresh_ret(st, t))
        else:
            raise Unsupported('parameter type %r' % (t,))
    return args


def frame_obls(ex, s, old, spec, c):
    """nothing outside the modifies clause changed"""
    if getattr(spec, 'no_frame', False):
        return
    mod = spec.modifies(c)
    for key, arr in s.mem.items():
        if key in getattr(spec, 'free_keys', ()):
            continue
        old_arr = old.mem.get(key)
        if old_arr is None:
            old_arr = ex.init_mem[key][0] if key in ex.init_mem else None
        if old_arr is None or arr is old_arr or arr.eq(old_arr):
            continue
        if key in mod and mod[key] is None:
            continue
        cells = mod.get(key, [])
        if arr.sort().domain() != ex.A.asort():
            continue
        a = ex.fresh('frame', ex.A.asort())
        dims = 1
        if isinstance(arr.sort().range(), z3.ArraySortRef):
            dims = 2
        hyps = [ex.A.ult(a, ex.A.addr(STACK0))]
        if not ex.A.bv:
            hyps.append(a >= 0)
        for idx in cells:
            hyps.append(a != idx[0])
        goal = z3.Implies(z3.And(hyps), arr[a] == old_arr[a])
        ex.oblige(s, 'frame: %s unchanged outside the modifies clause' % '.'.join(map(str, key)), goal, None, 'frame')


def run_tasks(prog, tasks, mods, pool, log=lambda s: None, helper_first=True):
    """returns list of Results (statuses final)"""
    results = {}
    dropped = set()
    if pool.deadline:
        DEADLINE[0] = pool.deadline + 40
    helpers = [t for t in tasks if t.helper]
    others = [t for t in tasks if not t.helper]
    for group in [[h] for h in helpers] + [others]:
        rs = [process(prog, t, mods, dropped) for t in group]
        solve_group(rs, pool, log)
        retry_choices(prog, rs, mods, dropped, pool, log)
        for r in rs:
            results[r.task.name] = r
            if r.task.helper and r.status != 'proved':
                nm = getattr(r.task.spec, 'name', None)
                if nm:
                    dropped.add(nm)
                log('contract of %s not established (%s): its body is inlined into its callers' % (r.task.name, r.status))
    return [results[t.name] for t in tasks], dropped


def process(prog, t, mods, dropped, choices=None):
    t0 = time.time()
    r = gen_task(prog, t, mods, dropped, choices)
    r.gen_secs = time.time() - t0
    return r


def probe_needed(rs, pool):
    """an obligation is open: look for a failing input on the real code before insisting on the proof"""
    if pool.probe is None or pool.probed:
        return False
    if any(o.result not in ('proved', None) for r in rs if r.status != 'unsupported' for o in r.obls):
        pool.probed = True
        return True
    return False


def solve_group(rs, pool, log):
    obls = []
    for r in rs:
        if r.status == 'unsupported':
            continue
        obls += [o for o in r.obls if o.result is None]
    cov = [o for r in rs for o in r.covers if o.result is None and r.status != 'unsupported']
    by = {}
    for r in rs:
        for o in r.obls:
            by[id(o)] = r.task.budget
    budgets = {}
    for o in obls:
        budgets.setdefault(by.get(id(o), 20), []).append(o)
    for b, os_ in budgets.items():
        pool.discharge(os_, b)
    if probe_needed(rs, pool):
        pool.found = pool.probe()
    # a second, longer attempt for the undecided ones
    again = [o for o in obls if o.result == 'unknown'] if not pool.found else []
    if again and len(again) <= 24 and pool.left() > 30 and not any(o.result == 'refuted' for o in obls):
        for o in again:
            o.result = None
        pool.discharge(again, 3 * max(budgets))
    if not pool.found:
        pool.discharge(cov, 3)
    for r in rs:
        if r.status == 'unsupported':
            continue
        bad = [o for o in r.obls if o.result != 'proved']
        if bad:
            r.status = 'failed'
        elif r.covers and all(o.result == 'proved' for o in r.covers):
            r.status = 'unsupported'
            r.why = 'vacuous: every exit path is contradictory'
        elif not r.obls:
            r.status = 'unsupported'
            r.why = 'no obligations generated'
        else:
            r.status = 'proved'


def retry_choices(prog, rs, mods, dropped, pool, log):
    for k, r in enumerate(rs):
        if r.status == 'proved' or r.ex is None:
            continue
        n = {ck: len(v) for ck, v in r.ex.choice_n.items()}
        combos = []
        import itertools
        keys = [ck for ck in n if n[ck] > 1]
        if not keys:
            continue
        for combo in itertools.product(*[range(n[ck]) for ck in keys]):
            if any(combo):
                combos.append(dict(zip(keys, combo)))
        for ch in combos[:r.task.max_choices]:
            if pool.left() < 30 or pool.found:
                break
            r2 = process(prog, r.task, mods, dropped, ch)
            solve_group([r2], pool, log)
            log('  retry %s with another loop-variable binding: %s' % (r.task.name, r2.status))
            if r2.status == 'proved':
                rs[k] = r2
                break

"""Discharging obligations: z3 first, then cvc5, then z3 again with other settings."""
import multiprocessing as mp
import os
import re
import subprocess
import tempfile
import time
import z3

CVC5 = 'cvc5'


def to_smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()


def _z3_try(text, ms, opts=()):
    ctx = z3.Context()      # the outcome depends on the text alone, not on what this process solved before
    s = z3.SimpleSolver(ctx=ctx) if 'simple' in opts else z3.Solver(ctx=ctx)
    s.set('timeout', ms)
    for o in opts:
        if isinstance(o, tuple):
            s.set(*o)
    try:
        s.from_string(text)
        r = s.check()
    except z3.Z3Exception as e:
        return 'unknown', 'z3 exception: %s' % e
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        try:
            return 'refuted', str(s.model())[:20000]
        except z3.Z3Exception:
            return 'refuted', ''
    return 'unknown', s.reason_unknown()


def _subsets(text):
    """smaller sets of hypotheses (proving from fewer is sound): without quantifiers, without sequences, both"""
    try:
        fs = list(z3.parse_smt2_string(text))
    except z3.Z3Exception:
        return
    if not fs:
        return
    hyps, goal = fs[:-1], fs[-1]
    memo = {}

    def props(f):
        """(has quantifier, mentions a sequence)"""
        todo, seen, q, sq = [f], set(), False, False
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                q = True
                todo.append(x.body())
                continue
            if x.sort().kind() == z3.Z3_SEQ_SORT:
                sq = True
            todo.extend(x.children())
        return q, sq
    pr = [props(h) for h in hyps]
    gq, gs = props(goal)
    seen = {len(hyps)}
    for pick in (lambda q, s: not q, lambda q, s: not s, lambda q, s: not q and not s):
        if gs and pick(False, True) is False:
            continue
        sub = [h for h, (q, sq) in zip(hyps, pr) if pick(q, sq)]
        if len(sub) in seen:
            continue
        seen.add(len(sub))
        yield to_smt2(sub, z3.Not(goal) if not z3.is_not(goal) else goal.arg(0))


Z3OLD = '/usr/bin/z3'
OLD_OPTS = [('smt.qi.eager_threshold=3',), ('smt.qi.eager_threshold=2',), ('smt.qi.eager_threshold=5',), ('smt.qi.eager_threshold=3', 'auto_config=false', 'smt.mbqi=false')]


def _z3_cli(text, ms, opts, exe=None):
    """the other installed z3 (4.8): its instantiation engine often decides what the newer one does not"""
    t = re.sub(r'^\(set-info[^\n]*\n', '', text, flags=re.M)
    if exe is None:
        t = t.replace('ubv_to_int', 'bv2nat')
    try:
        r = subprocess.run([exe or Z3OLD, '-in', '-t:%d' % ms] + list(opts), input=t, capture_output=True, text=True, timeout=ms / 1000 + 3)
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    lines = r.stdout.strip().split('\n')
    return 'proved' if lines == ['unsat'] else 'unknown'


def _cvc5_try(text, ms):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        t = text
        t = re.sub(r'^\(set-info[^\n]*\n', '', t, flags=re.M)
        t = t.replace('ubv_to_int', 'bv2nat')
        f.write('(set-logic ALL)\n' + t)
        fn = f.name
    try:
        r = subprocess.run([CVC5, '--tlimit=%d' % ms, '--quiet', fn], capture_output=True, text=True,
                           timeout=ms / 1000 + 5)
        out = r.stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(fn)
    if out == 'unsat':
        return 'proved', None
    if out == 'sat':
        return 'refuted', 'cvc5: sat'
    return 'unknown', out


def solve_one(job):
    i, text, budget = job
    t0 = time.time()
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    first = min(budget, 8)
    quant = 'forall' in text or 'exists' in text
    be = 'z3'
    if budget <= 3:      # vacuity probes, in a process of their own: a solver may ignore its limit on satisfiable queries
        return i, _z3_cli(text, 2000, (), 'z3-new'), be, time.time() - t0, None
    r, m = _z3_try(text, 2000)
    if r == 'unknown' and quant:
        # several short attempts first: what one instantiation strategy misses another one often finds at once
        for ms in (1500, 5000):
            if _cvc5_try(text, ms)[0] == 'proved':
                return i, 'proved', 'cvc5', time.time() - t0, None
            for opts in OLD_OPTS:
                if _z3_cli(text, ms, opts) == 'proved':
                    return i, 'proved', 'z3-4.8', time.time() - t0, None
            if budget <= 8:
                break
    if r == 'unknown':
        for sub in _subsets(text):
            r2, _ = _z3_try(sub, 2500)
            if r2 == 'proved':
                return i, r2, be, time.time() - t0, None
        r, m = _z3_try(text, int(first * 1000))
    if r == 'unknown':
        r2, m2 = _cvc5_try(text, int(min(budget, 12) * 1000))
        if r2 == 'proved':
            r, m, be = r2, m2, 'cvc5'
        elif r2 == 'refuted' and not quant:
            r, m, be = r2, m2, 'cvc5'
    if r == 'unknown' and quant and budget > 8:
        for opt in ('smt.qi.eager_threshold=2', 'smt.qi.eager_threshold=5'):
            if _z3_cli(text, int(min(budget, 12) * 1000), (opt,)) == 'proved':
                return i, 'proved', 'z3-4.8', time.time() - t0, None
    if r == 'unknown' and budget > 8:
        for opts in ((('smt.mbqi', False), ('smt.random_seed', 7)), (('smt.random_seed', 3), ('smt.arith.solver', 2))):
            r2, m2 = _z3_try(text, int(budget * 1000), opts)
            if r2 == 'proved':
                r, m, be = r2, m2, 'z3'
                break
            if r2 == 'refuted':
                r, m, be = r2, m2, 'z3'
                break
    return i, r, be, time.time() - t0, m


class Pool:
    def __init__(self, n=None, deadline=None):
        self.n = n or int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 4)
        self.deadline = deadline
        self.probe, self.probed, self.found = None, False, False
        self.start()

    def start(self):
        self.pool = mp.get_context('fork').Pool(self.n, maxtasksperchild=200)

    def left(self):
        return 1e9 if self.deadline is None else self.deadline - time.time()

    def discharge(self, obls, budget=20, stop_after=None):
        """fills o.result/backend/secs/model; identical queries are solved once"""
        jobs = {}
        back = {}
        for o in obls:
            if z3.is_true(o.goal):
                o.result, o.backend, o.secs = 'proved', 'trivial', 0.0
                continue
            text = to_smt2(o.hyps, o.goal)
            if text not in jobs:
                jobs[text] = len(jobs)
            back.setdefault(jobs[text], []).append(o)
        lst = [(i, t, budget) for t, i in jobs.items()]
        # a solver that ignores its own time limit is cut off after this long without any answer
        hard = 4 * budget + 40
        done = 0
        it = self.pool.imap_unordered(solve_one, lst, chunksize=1)
        while done < len(lst):
            try:
                i, r, be, secs, m = it.next(timeout=max(0.1, min(hard, self.left())))
            except mp.TimeoutError:
                self.pool.terminate()
                self.start()
                break
            for k, o in enumerate(back[i]):
                o.result, o.backend, o.secs, o.model = r, be, secs if k == 0 else 0.0, m
            done += 1
            if r != 'proved' and budget > 3 and self.probe is not None and not self.probed:
                # look for a failing input on the real code while the other obligations are being decided
                self.probed = True
                self.found = self.probe()
                if self.found:
                    self.pool.terminate()
                    self.start()
                    break
        for o in obls:
            if o.result is None:
                o.result, o.backend, o.model = 'unknown', 'none', 'not decided within the time limit'
        return obls

    def close(self):
        self.pool.terminate()

#!/usr/bin/env python3-vt
"""check.py <property-id>: decide one property against /repo's current tree.

exit 0: held;  exit 1 + 'VIOLATION property=<id> replay=<path>': broken.
"""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from vc import build                                             # noqa: E402
from vc.ir import Program, IRError                               # noqa: E402
from vc.run import run_tasks, Lemma                              # noqa: E402
from vc.solve import Pool                                        # noqa: E402
from vc.models import all_models                                 # noqa: E402

SOLVE_SECS = 480      # wall-clock limit for all proof attempts of a run (checks get 900 s)
VERBOSE = bool(os.environ.get('VC_VERBOSE'))


def log(*a):
    print(*a, flush=True)


def load_known(pid):
    fn = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tmp = tempfile.mkdtemp(prefix='vc_%s_' % pid)
        self.evdir = os.path.join(HERE, 'evidence')
        os.makedirs(os.path.join(self.evdir, 'replay'), exist_ok=True)
        self.replay = os.path.join(self.evdir, 'replay', pid + '.txt')
        self.known = load_known(pid)
        self.driver_info = None
        self.probed = None      # result of a driver run made while proving

    # ------------------------------------------------------------ driver
    def run_driver(self, mod, secs):
        """search for a failing input on the real code; returns (found, text)"""
        drv = getattr(mod, 'DRIVER', None)
        if drv is None:
            return False, 'no replay driver for this property'
        src = os.path.join(HERE, 'drivers', drv['src'])
        text = ''
        n = 0
        for cfg in drv.get('configs', [{}]):
            d = tempfile.mkdtemp(prefix='drv_', dir=self.tmp)
            try:
                exe = build.compile_driver(d, src, drv.get('sources', []),
                                           cfg.get('sanitize', drv.get('sanitize', 'address,undefined')), tuple(drv.get('extra', ())) + tuple(cfg.get('extra', ())))
            except build.BuildError as e:
                text += 'driver does not build against the current tree: %s\n' % e
                continue
            scratch = os.path.join(d, 'scratch')
            os.makedirs(scratch)
            env = dict(os.environ, TMPDIR=scratch, TEST_TMPDIR=scratch, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=99',
                       UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98', TSAN_OPTIONS='exitcode=97:halt_on_error=1',
                       TZ='UTC')
            try:
                r = subprocess.run([exe, str(self.seed), str(secs), scratch], capture_output=True, text=True, errors='replace',
                                   timeout=secs + 60, env=env, cwd=scratch)
                rc, out = r.returncode, r.stdout + r.stderr
            except subprocess.TimeoutExpired as e:
                rc = 'hang'
                out = ((e.stdout or b'').decode('utf-8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')) + \
                    '\nthe driver did not finish in time: the real code hangs on the last input printed'
            m = re.findall(r'^RUNS (\d+)', out, re.M)
            n += sum(map(int, m))
            text += 'driver %s (%s), exit %s\n%s\n' % (drv['src'], cfg or 'default', rc, out[-6000:])
            shutil.rmtree(d, ignore_errors=True)
            if rc != 0:
                # a genuine failing input: the driver exits 1 with FAIL, sanitizers 97..99, asserts by signal
                if rc == 1 and 'FAIL' not in out:
                    continue
                self.driver_info = {'runs': n, 'found': True}
                return True, text
        self.driver_info = {'runs': n, 'found': False}
        return False, text

    # ------------------------------------------------------------ main
    def main(self):
        pid = self.pid
        mod = importlib.import_module('props.' + pid)
        violations = 0
        bounded = []
        results, dropped, pool = [], set(), None
        err = None
        try:
            paths = build.compile_ir(self.tmp, mod.TUS)
            prog = Program(paths)
        except build.BuildError as e:
            log('ERROR: ' + str(e))
            return 2
        except IRError as e:
            err = 'IR outside the parser: %s' % e
            prog = None
        if prog is not None:
            pool = Pool(deadline=self.t0 + (SOLVE_SECS if self.tier == 'quick' else SOLVE_SECS + 100))
            try:
                tasks = mod.tasks(prog)
                qs = getattr(mod, 'DRIVER_SECS', 60)

                def probe():
                    self.probed = self.run_driver(mod, qs if self.tier == 'quick' else 3 * qs)
                    return self.probed[0]
                pool.probe = probe
                results, dropped = run_tasks(prog, tasks, all_models(), pool, (log if VERBOSE else (lambda s: None)))
            except Exception as e:       # noqa: BLE001  (extraction break: never a violation)
                import traceback
                err = 'extraction: %s: %s' % (type(e).__name__, str(e)[:500])
                if VERBOSE:
                    traceback.print_exc()
            finally:
                pool.close()
        failed = [r for r in results if r.status == 'failed' and r.task.required]
        unsup = [r for r in results if r.status == 'unsupported' and r.task.required]
        nobl = sum(len(r.obls) for r in results if r.status == 'proved' or r.status == 'failed')
        ndis = sum(1 for r in results for o in r.obls if o.result == 'proved')
        secs = sum(o.secs for r in results for o in r.obls)
        log('%s: %d functions/lemmas, %d obligations, %d discharged, solver %.1fs, wall %.1fs' % (
            pid, len(results), nobl, ndis, secs, time.time() - self.t0))
        for r in results:
            nb = len([o for o in r.obls if o.result != 'proved'])
            log('  %-12s %-40s %4d obligations%s%s' % (r.status, r.task.name, len(r.obls), (' (%d open)' % nb) if nb and r.status == 'failed' else '',
                                                    (' -- ' + r.why) if r.why else ''))
            if VERBOSE:
                for o in r.obls:
                    if o.result != 'proved' and r.status == 'failed':
                        log('      [%s/%s] %s  @%s:%s %s' % (o.result, o.backend, o.label, o.fn.split('(')[0], o.line, '/'.join(o.trace)[-100:]))
                        if os.environ.get('VC_MODEL') and o.model:
                            log(str(o.model)[:3000])
        verdict = 'held'
        found = False
        text = ''
        if failed or unsup or err:
            qs = getattr(mod, 'DRIVER_SECS', 60)
            found, text = self.probed or self.run_driver(mod, qs if self.tier == 'quick' else 3 * qs)
        elif self.tier == 'thorough':
            found, text = self.run_driver(mod, getattr(mod, 'DRIVER_SECS', 60) * 2)
        if found:
            verdict = 'violation'
        elif failed:
            verdict = 'violation-nfi'
        if (unsup or err) and not found:
            why = [err] if err else []
            why += ['%s: %s' % (r.task.name, r.why) for r in unsup]
            bounded = why
            for w in why:
                log('BOUNDED: %s -- not within the verifier\'s reach; decided only by the concrete driver (%s runs)' % (
                    w, (self.driver_info or {}).get('runs', 0)))
        self.evidence(mod, results, dropped, bounded, 1 if verdict.startswith('violation') else 0, secs, nobl, ndis)
        if verdict.startswith('violation'):
            self.write_replay(mod, failed, found, text)
            rel = os.path.relpath(self.replay, HERE)
            for r in failed:
                for o in [o for o in r.obls if o.result != 'proved'][:3]:
                    log('FAILED OBLIGATION %s: %s (line %s) [%s]' % (r.task.name, o.label, o.line, o.result))
            log('VIOLATION property=%s replay=%s%s' % (pid, rel, '' if found else ' no-failing-input-found'))
            return 1
        for key, txt in self.known:
            log('KNOWN-FINDING: property=%s %s' % (pid, txt))
        return 0

    def write_replay(self, mod, failed, found, text):
        with open(self.replay, 'w') as f:
            f.write('property %s\n\n' % self.pid)
            f.write('rerun: cd /verif && ./check.py %s\n' % self.pid)
            if found:
                f.write('\n== failing input on the real code ==\n%s\n' % text)
            f.write('\n== failed obligations ==\n')
            for r in failed:
                for o in r.obls:
                    if o.result == 'proved':
                        continue
                    f.write('\n%s\n  function: %s\n  source line: %s\n  kind: %s\n  solver: %s (%s)\n  path: %s\n' % (
                        o.label, o.fn, o.line, o.kind, o.result, o.backend, ' '.join(o.trace)))
                    f.write('  goal: %s\n' % str(o.goal)[:2000])
                    if o.model:
                        f.write('  counterexample/solver output: %s\n' % str(o.model)[:4000])
            if not found:
                f.write('\n== search for a failing input ==\n%s\n' % text)

    def evidence(self, mod, results, dropped, bounded, nviol, secs, nobl, ndis):
        backends = {}
        for r in results:
            for o in r.obls:
                if o.result == 'proved':
                    backends[o.backend] = backends.get(o.backend, 0) + 1
        models = {}
        contracts = {}
        inl = {}
        for r in results:
            if r.ex is not None:
                models.update(r.ex.used_models)
                contracts.update(r.ex.used_contracts)
                inl.update(r.ex.inlined)
        cov = {
            'obligations': nobl, 'discharged': ndis,
            'checker_cmd': './check.py %s' % self.pid,
            'trusted_base': BASE_TRUST + list(getattr(mod, 'TRUST', [])) + ['library contract: %s (%s)' % (k, v) for k, v in sorted(models.items())],
            'functions_under_contract': [{'task': r.task.name, 'status': r.status, 'obligations': len(r.obls),
                                          'function': r.fn.demangled if r.fn is not None else None,
                                          'why': r.why} for r in results],
            'contracts_used_at_calls': sorted(set(contracts.values())),
            'inlined_functions': sorted(inl),
            'helper_contracts_dropped': sorted(map(str, dropped)),
            'backends': backends, 'solver_seconds': round(secs, 2),
            'vacuity_checks': sum(len(r.covers) for r in results),
            'vacuous_paths': sum(1 for r in results for o in r.covers if o.result == 'proved'),
            'samples': [{'obligation': o.label, 'function': o.fn, 'line': o.line, 'result': o.result, 'backend': o.backend}
                        for r in results for o in r.obls[:2]][:12],
        }
        if bounded:
            cov['bounded_fallback'] = bounded
        if self.driver_info:
            cov['driver_runs'] = self.driver_info['runs']
        level = 'proof'
        if bounded or not nobl:
            level = 'exploration'
            cov['evaluations'] = (self.driver_info or {}).get('runs', 0)
            cov['distinct_nontrivial'] = cov['evaluations']
            cov['rule'] = 'bounded fallback: inputs enumerated/generated by the concrete driver against its oracle'
        if getattr(mod, 'BOUNDED_PARTS', None):
            cov['bounded_parts'] = mod.BOUNDED_PARTS
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': list(getattr(mod, 'ASSUME', [])), 'wall_s': round(time.time() - self.t0, 2), 'violations': nviol}
        with open(os.path.join(self.evdir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)


BASE_TRUST = [
    'clang 18 front end: C++ -> LLVM IR at -O0, opt mem2reg and loop-simplify (the verified text is this IR of the real sources)',
    'the VC generator vc/ir.py, vc/engine.py, vc/arith.py, vc/run.py and the solvers z3, cvc5',
    'memory model: accesses through different (struct, field) pairs or different scalar types do not alias (strict aliasing); heap addresses below 2^47; objects do not wrap around the address space',
    'allocation never fails and returns blocks disjoint from all live ones',
    'struct layouts and class member names as given by the compiler (debug information)',
]


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    r = Run(pid)
    try:
        rc = r.main()
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()

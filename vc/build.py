"""Compile the real sources to LLVM IR (no optimisation besides mem2reg) in a scratch directory."""
import os
import subprocess
import concurrent.futures as cf

REPO = os.environ.get('VC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-fno-exceptions', '-fno-rtti', '-g', '-std=c++11', '-DLSMDB_COMPILE_LIBRARY', '-DLSMDB_PLATFORM_POSIX=1']
CXX = 'clang++-18'
OPT = '/usr/lib/llvm-18/bin/opt'

TUS = {
    'coding': 'util/coding.cc', 'hash': 'util/hash.cc', 'status': 'util/status.cc', 'logging': 'util/logging.cc',
    'arena': 'util/arena.cc', 'cache': 'util/cache.cc', 'env': 'util/env.cc', 'env_posix': 'util/env_posix.cc',
    'memenv': 'helpers/memenv/memenv.cc',
    'skiplist_inst': '@tu/skiplist_inst.cc', 'inline_inst': '@tu/inline_inst.cc', 'wrapper_inst': '@tu/wrapper_inst.cc',
}


class BuildError(Exception):
    pass


def includes(tmp):
    return ['-I' + os.path.join(tmp, 'inc'), '-I' + REPO, '-I' + os.path.join(REPO, 'include')]


def prepare(tmp):
    d = os.path.join(tmp, 'inc', 'port')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(VERIF, 'tu', 'port_config.h')) as f:
        t = f.read()
    with open(os.path.join(d, 'port_config.h'), 'w') as f:
        f.write(t)


def src(tu):
    p = TUS[tu]
    return os.path.join(VERIF, p[1:]) if p[0] == '@' else os.path.join(REPO, p)


def compile_ir(tmp, tus):
    prepare(tmp)

    def one(tu):
        a = os.path.join(tmp, tu + '.0.ll')
        b = os.path.join(tmp, tu + '.ll')
        r = subprocess.run([CXX] + FLAGS + includes(tmp) + ['-O0', '-fstandalone-debug', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
                           '-S', '-emit-llvm', src(tu), '-o', a], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('%s does not compile:\n%s' % (src(tu), r.stderr[-3000:]))
        r = subprocess.run([OPT, '-S', '-passes=mem2reg,loop-simplify', a, '-o', b], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('opt: ' + r.stderr[-2000:])
        return b
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, tus))


def compile_driver(tmp, driver, sources, sanitize='address,undefined', extra=()):
    """real sources + driver -> executable"""
    prepare(tmp)
    exe = os.path.join(tmp, 'driver_' + os.path.basename(driver).replace('.cc', ''))
    objs = []
    jobs = []
    common = FLAGS + includes(tmp) + ['-I' + os.path.join(VERIF, 'drivers'), '-O1', '-fno-omit-frame-pointer', '-w']
    if sanitize:
        common += ['-fsanitize=' + sanitize, '-fno-sanitize-recover=all']
    common += list(extra)
    for s in [driver] + [os.path.join(REPO, x) for x in sources]:
        o = os.path.join(tmp, os.path.basename(s) + '.' + str(len(objs)) + '.o')
        objs.append(o)
        jobs.append((s, o))

    def one(j):
        r = subprocess.run([CXX] + common + ['-c', j[0], '-o', j[1]], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('%s: %s' % (j[0], r.stderr[-3000:]))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    ld = [CXX] + (['-fsanitize=' + sanitize] if sanitize else []) + objs + ['-o', exe, '-lpthread', '-ldl'] + \
        [x for x in extra if x.startswith('-Wl') or x.startswith('-l')]
    r = subprocess.run(ld, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('link: ' + r.stderr[-3000:])
    return exe

"""Verification-condition generator: path-wise symbolic execution of LLVM IR
with function contracts, loop invariants and ghost state.

Memory model ("Burstall"/split heap): one map per (struct, field) indexed by
the address of the struct, one flat map per scalar type for everything that is
reached without a struct type (byte buffers, arrays, table slots).
"""
import itertools
import re
import time
import z3
from .arith import Arith, is_num, num
from .ir import IRError

STACK0 = 1 << 48
GLOB0 = 1 << 50
FUNC0 = 1 << 52
HEAPMAX = 1 << 47


class Unsupported(Exception):
    """the construct is outside the verifier's reach (extraction break)"""


def ast_key(t):
    return t.get_id()


class P:
    """pointer value: address term plus static provenance"""
    __slots__ = ('addr', 'tag', 'src', 'sty', 'glob')

    def __init__(self, addr, tag=None, src=None, sty=None, glob=None):
        self.addr, self.tag, self.src, self.sty, self.glob = addr, tag, src, sty, glob

    def __repr__(self):
        return 'P(%s,%s)' % (self.addr, self.tag)


def short(name):
    """class.lsmdb::(anonymous namespace)::LRUHandle.base -> LRUHandle"""
    n = re.sub(r'^(class|struct|union)\.', '', name)
    n = re.sub(r'(\.base|\.\d+)+$', '', n)
    d = 0
    last = 0
    i = 0
    while i < len(n):
        c = n[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0 and n.startswith('::', i):
            last = i + 2
            i += 1
        i += 1
    r = n[last:]
    r = re.sub(r'<.*', '', r)
    return r


class Frame:
    __slots__ = ('fn', 'env', 'loops', 'visits', 'mod', 'depth')

    def __init__(self, fn, depth):
        self.fn, self.env, self.loops, self.visits, self.depth = fn, {}, {}, {}, depth

    def fork(self):
        f = Frame(self.fn, self.depth)
        f.env = dict(self.env)
        f.loops = dict(self.loops)
        f.visits = dict(self.visits)
        return f


class State:
    def __init__(self):
        self.mem = {}
        self.ghost = {}
        self.pc = []
        self.frame = None
        self.trace = ()
        self.nalloca = 0
        self.events = ()
        self.modified = ()
        self.aux = {}     # python-level auxiliary facts (immutable values only)

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.pc = list(self.pc)
        s.frame = self.frame.fork() if self.frame else None
        s.trace = self.trace
        s.nalloca = self.nalloca
        s.events = self.events
        s.aux = dict(self.aux)
        return s

    def assume(self, *fs):
        for f in fs:
            if f is None or z3.is_true(f):
                continue
            self.pc.append(f)


class Obl:
    __slots__ = ('fn', 'label', 'hyps', 'goal', 'line', 'kind', 'trace', 'result', 'backend', 'secs', 'model', 'tags')

    def __init__(self, fn, label, hyps, goal, line=None, kind='post', trace=(), tags=()):
        self.fn, self.label, self.hyps, self.goal, self.line, self.kind, self.trace = fn, label, hyps, goal, line, kind, trace
        self.result = None
        self.backend = None
        self.secs = 0.0
        self.model = None
        self.tags = tags


class Cx:
    """what contracts and invariants see"""

    def __init__(self, ex, st, old=None, args=None, ret=None, **kw):
        self.ex, self.st, self.old, self.args, self.ret = ex, st, old, args, ret
        ex.watch(st)        # what is decided while this is evaluated is decided on its own path
        for k, v in kw.items():
            setattr(self, k, v)

    def F(self, cls, field, st=None):
        return self.ex.region(st or self.st, self.ex.fkey(cls, field))

    def E(self, ty, st=None):
        return self.ex.region(st or self.st, ('E', ty))

    def g(self, name, st=None):
        return (st or self.st).ghost[name]


class FnSpec:
    """contract of one function"""
    name = None         # regex on the demangled name
    tags = ()
    ret_struct = None

    def pre(self, c):
        return []

    def post(self, c):
        return []

    def modifies(self, c):
        """dict: memory key -> None (any index) or list of index tuples"""
        return {}

    def setup(self, c):
        """extra ghost initialisation when the body is verified"""

    def effect(self, c):
        """deterministic ghost update, performed at exit and at call sites"""

    def at_exit(self, c):
        """verification only: lemma instantiation etc. before the post"""

    def at_call(self, c):
        """call sites only: after havoc, before post is assumed"""


class Loop:
    roles = {}        # name -> type string ('ptr','i32','i64','i8','i1')
    optional = ()

    def inv(self, c):
        return []

    def decreases(self, c):
        return None

    def at_header(self, c):
        """after havoc, before inv is assumed (ghost bindings)"""

    def at_back(self, c):
        """before inv is re-proved: ghost steps / lemmas"""


class LoopInfo:
    pass


class Engine:
    def __init__(self, prog, mode, module=None):
        self.prog = prog
        self.A = Arith(mode)
        self.mode = mode
        self.module = module
        self.obls = []
        self.fresh_n = 0
        self.init_mem = {}
        self.globs = {}
        self.glob_rev = {}
        self.fkeys = {}
        self.scan = 0
        self.writes = None
        self.contracts = []     # (regex, FnSpec) applied at call sites
        self.models = []        # (regex, handler)
        self.loop_specs = []    # list of Loop classes/instances for the current root
        self.unroll = 80
        self.choices = {}
        self.choice_pos = {}
        self.choice_n = {}
        self.access_hook = None
        self.atomic_hook = None
        self.atomic_done = None
        self.cur_ins = None
        self.event_hook = None
        self.virtual_hook = None
        self.flat = {}          # pointer fields that share the flat region of pointer cells: key -> address function
        self.slot_fn = None     # address function of array elements of pointer type
        self.memset_views = ('i8', 'ptr', 'i64', 'i32')     # typed views of the storage that memset updates
        self.callback_hook = None
        self.root = None
        self.no_inline = None
        self.axioms = []        # background axioms added to each obligation
        self.max_paths = 4000
        self.paths = 0
        self.used_models = {}
        self.used_contracts = {}
        self.inlined = {}
        self.feas_cache = {}
        self.feas_timeout = 250
        self.light = False      # no pruning by facts about sequences
        self.prune = True
        self.tidy = False       # decide machine wrap-arounds under the path condition while executing
        self.dec = None
        self.visited = {}       # function -> blocks executed (not counting loop scans)
        self.funcs_seen = set()
        self.assert_as = 'assert'
        self.skip_tags = set()  # obligations of these kinds are left to another module
        self.deadline = None

    # ------------------------------------------------------------ symbols
    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (name, self.fresh_n), sort)

    def fresh_int(self, st, name, w):
        t = self.fresh(name, self.A.isort(w))
        r = self.A.in_range(t, w)
        if r is not None:
            st.assume(r)
        return t

    def fresh_addr(self, st, name, heap=True):
        t = self.fresh(name, self.A.asort())
        if heap:
            self.assume_heap(st, t)
        return t

    def assume_heap(self, st, t):
        if is_num(t):
            return
        if self.A.bv:
            st.assume(z3.ULT(t, self.A.addr(HEAPMAX)))
        else:
            st.assume(t >= 0, t < HEAPMAX)

    def vsort(self, ty):
        if ty == 'ptr':
            return self.A.asort()
        if ty == 'seq':
            return z3.SeqSort(self.A.isort(8))
        if ty == 'bool':
            return z3.BoolSort()
        w = int(ty[1:])
        return self.A.isort(8 if w == 1 else w)

    def tyname(self, t):
        if t[0] == 'int':
            return 'i%d' % t[1]
        if t[0] == 'ptr':
            return 'ptr'
        raise Unsupported('scalar type %r' % (t,))

    # ------------------------------------------------------------ regions
    def fkey(self, cls, field):
        k = (cls, field)
        if k in self.fkeys:
            return self.fkeys[k]
        mem = None
        for cn, ms in self.prog.members().items():
            if short('class.' + cn) == cls or cn == cls:
                if field in ms:
                    mem = ms[field]
                    break
        if mem is None:
            raise Unsupported('field %s::%s not found in the debug information' % (cls, field))
        key = ('F', cls, mem[0])
        self.fkeys[k] = key
        return key

    def key_ty(self, key):
        return self.key_types.get(key)

    key_types = None

    def region(self, st, key, ty=None, dims=None):
        if key in st.mem:
            return st.mem[key]
        if key not in self.init_mem:
            if ty is None:
                ty = self.infer_ty(key)
            d = dims if dims is not None else (2 if key[0] == 'FA' else 1)
            s = self.vsort(ty)
            for _ in range(d):
                s = z3.ArraySort(self.A.asort(), s)
            nm = 'M_' + '_'.join(str(x) for x in key)
            self.init_mem[key] = (z3.Const(nm, s), ty)
        return self.init_mem[key][0]

    def region_ty(self, key):
        if key in self.init_mem:
            return self.init_mem[key][1]
        return self.infer_ty(key)

    def infer_ty(self, key):
        if key[0] == 'E':
            return key[1]
        # find the struct type and the scalar at that offset
        for sn, body in self.prog.structs.items():
            if body is not None and short(sn) == key[1]:
                t = self.scalar_at(('struct', sn), key[2])
                if t is not None:
                    return t
        raise Unsupported('cannot type region %r' % (key,))

    def scalar_at(self, t, off):
        try:
            fs = self.prog.fields(t)
        except IRError:
            return None
        for ft, fo in reversed(fs):
            if fo <= off:
                if ft[0] in ('int', 'ptr'):
                    return self.tyname(ft) if fo == off else None
                if ft[0] == 'arr':
                    e = ft[2]
                    return self.tyname(e) if e[0] in ('int', 'ptr') else ('ptr' if e[0] == 'struct' else None)
                if ft[0] in ('struct', 'lit'):
                    return self.scalar_at(ft, off - fo)
        return None

    # resolve pointer to (key, idx list)
    def place(self, p, ty):
        if p.tag is not None:
            return p.tag[0], p.tag[1]
        return ('E', 'i8' if ty == 'i1' else ty), (p.addr,)

    def load(self, st, p, ty, line=None):
        if not isinstance(p, P):
            raise Unsupported('load through non-pointer')
        if ty == 'i64' and p.tag is None and p.sty == ('ptr',):
            return self.load(st, p, 'ptr', line).addr       # a pointer variable read as an integer (atomics)
        if p.glob is not None and p.tag is None:
            v = self.load_const_global(p, ty)
            if v is not None:
                return v
        key, idx = self.place(p, ty)
        if self.access_hook:
            self.access_hook(self, st, 'r', p, key, idx, ty, line)
        if key in self.init_mem and self.init_mem[key][1] != ty and not (ty in ('i1', 'i8') and self.init_mem[key][1] in ('i1', 'i8')):
            raise Unsupported('region %r accessed as %s and as %s' % (key, self.init_mem[key][1], ty))
        arr = self.region(st, key, 'i8' if ty == 'i1' else ty, len(idx))
        v = arr
        for i in idx:
            v = self.select(v, i)
        if ty == 'ptr':
            if not is_num(v):
                # initial memory holds no addresses of this activation's stack objects
                base = self.init_sel(key, idx)
                if base is not None:
                    self.assume_heap(st, base)
            return P(v, src=('load', p, key, idx))
        w = int(ty[1:])
        ww = 8 if w == 1 else w
        r = self.A.in_range(v, ww)
        if r is not None:
            st.assume(r)
        if w == 1:
            return self.A.cast('trunc', v, 8, 1)
        return v

    def init_sel(self, key, idx):
        if key not in self.init_mem:
            return None
        v = self.init_mem[key][0]
        for i in idx:
            v = z3.Select(v, i)
        return v

    def select(self, arr, i):
        # peel syntactically decidable stores
        a = arr
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            k = a.arg(1)
            if k.eq(i):
                return a.arg(2)
            if is_num(k) and is_num(i):
                a = a.arg(0)
                continue
            if self.distinct_addrs(k, i):
                a = a.arg(0)
                continue
            break
        if a is not arr:
            arr = a
        return z3.Select(arr, i)

    def distinct_addrs(self, k, i):
        """syntactic: stack/global numerals never equal heap-bounded terms (base const + offset)"""
        if self.A.bv:
            return False
        if is_num(k) and num(k) >= STACK0:
            return self.heapish(i)
        if is_num(i) and num(i) >= STACK0:
            return self.heapish(k)
        return False

    heap_consts = None

    def heapish(self, t):
        return self.heap_consts is not None and t.get_id() in self.heap_consts

    def mark_heap(self, t):
        if self.heap_consts is None:
            self.heap_consts = {}
        self.heap_consts[t.get_id()] = t

    def store(self, st, p, ty, v, line=None):
        if not isinstance(p, P):
            raise Unsupported('store through non-pointer')
        if ty == 'i64' and p.tag is None and p.sty == ('ptr',):
            ty, v = 'ptr', P(v) if not isinstance(v, P) else v
        key, idx = self.place(p, ty)
        if self.access_hook:
            self.access_hook(self, st, 'w', p, key, idx, ty, line, v)
        if isinstance(v, P):
            v = v.addr
        if ty == 'i1':
            v = self.A.cast('zext', v, 1, 8)
            ty = 'i8'
        if key in self.init_mem and self.init_mem[key][1] != ty:
            raise Unsupported('region %r accessed as %s and as %s' % (key, self.init_mem[key][1], ty))
        arr = self.region(st, key, ty, len(idx))
        self.log_write(key, idx)
        st.mem[key] = self.upd(arr, idx, v)

    def upd(self, arr, idx, v):
        if len(idx) == 1:
            if z3.is_app_of(arr, z3.Z3_OP_STORE) and arr.arg(1).eq(idx[0]):
                arr = arr.arg(0)
            return z3.Store(arr, idx[0], v)
        inner = self.upd(self.select(arr, idx[0]), idx[1:], v)
        return z3.Store(arr, idx[0], inner)

    def log_write(self, key, idx):
        if self.writes is not None:
            self.writes.append((key, idx))

    def havoc_key(self, st, key, idxs=None, name='h'):
        """idxs: None -> whole region, else list of index tuples"""
        arr = self.region(st, key)
        if idxs is None:
            self.log_write(key, None)
            st.mem[key] = self.fresh('%s_%s' % (name, '_'.join(map(str, key[1:]))), arr.sort())
            return
        ty = self.region_ty(key)
        for idx in idxs:
            self.log_write(key, idx)
            v = self.fresh('%s_%s' % (name, '_'.join(map(str, key[1:]))), arr.sort().range() if ty in ('arr', 'x') else self.vsort(ty))
            if ty in ('ptr', 'seq', 'bool', 'arr', 'x'):
                pass
            else:
                r = self.A.in_range(v, int(ty[1:]))
                if r is not None:
                    st.assume(r)
            st.mem[key] = self.upd(self.region(st, key), idx, v)

    # ------------------------------------------------------------ globals
    def glob_addr(self, name, mod):
        k = (name, id(mod) if name.startswith('.str') or name.startswith('__const') or name.startswith('__PRETTY') else 0)
        if k not in self.globs:
            self.globs[k] = GLOB0 + (len(self.globs) + 1) * (1 << 24)
            self.glob_rev[self.globs[k]] = (name, mod)
        return self.globs[k]

    def global_ptr(self, name, mod):
        f = self.prog.find(name, mod)
        if f is not None or any(name in m.decls for m in self.prog.mods):
            k = ('fn', name)
            if k not in self.globs:
                self.globs[k] = FUNC0 + (len(self.globs) + 1) * 16
            p = P(self.A.addr(self.globs[k]))
            p.src = ('fn', name)
            return p
        g = mod.globals.get(name) or {}
        a = self.A.addr(self.glob_addr(name, mod))
        sty = g.get('ty')
        return P(a, glob=(name, mod, 0), sty=sty)

    def global_bytes(self, p):
        if p.glob is None:
            a = z3.simplify(p.addr)      # a pointer that went through memory
            if not (z3.is_int_value(a) or z3.is_bv_value(a)):
                return None
            v = a.as_long()
            base = v >> 24 << 24
            if base not in self.glob_rev:
                return None
            name, mod = self.glob_rev[base]
            off = v - base
        else:
            name, mod, off = p.glob
        g = mod.globals.get(name)
        if not g or not g.get('const') or not g.get('init'):
            return None
        t, init = g['ty'], g['init']
        if init[0] == 'str':
            return init[1][off:]
        if init[0] == 'zero' and t[0] == 'arr' and t[2] == ('int', 8):
            return bytes(t[1])[off:]
        return None

    def load_const_global(self, p, ty):
        name, mod, off = p.glob
        g = mod.globals.get(name)
        if not g or not g.get('const'):
            return None
        if ty == 'i8':
            b = self.global_bytes(p)
            if b is not None and len(b) > 0:
                return self.A.const(b[0], 8)
        if g.get('ty') and g['ty'][0] == 'int' and off == 0 and g.get('init') and g['init'][0] == 'const' \
                and ty == 'i%d' % g['ty'][1]:
            return self.A.const(g['init'][1], g['ty'][1])
        if g.get('ty') and g['ty'][0] == 'int' and off == 0 and g.get('init') and g['init'][0] == 'zero':
            return self.A.const(0, g['ty'][1])
        return None

    # ------------------------------------------------------------ obligations
    def oblige(self, st, label, goal, line=None, kind='post', tags=()):
        if self.scan or self.skip_tags.intersection(tags):
            return
        if goal is None or z3.is_true(goal):
            goal = z3.BoolVal(True)
        o = Obl(self.cur_fn(st), label, list(self.axioms) + list(st.pc) + list(self.A.extra), goal, line, kind, st.trace, tags)
        self.obls.append(o)

    def cur_fn(self, st):
        return st.frame.fn.demangled if st.frame else (self.root or '?')

    def feasible(self, st, extra=None):
        if self.scan or not self.prune:
            return True
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('exploration time limit')
        s = z3.Solver()
        s.set('timeout', 2000)
        for f in st.pc:
            if not heavy(f):
                s.add(f)
        for f in self.A.extra:
            s.add(f)
        if extra is not None:
            s.add(extra)
        if s.check() == z3.unsat:
            return False
        if self.light:
            return True
        s = z3.Solver()
        s.set('timeout', self.feas_timeout)
        for f in st.pc:
            if not has_quant(f):
                s.add(f)
        for f in self.A.extra:
            s.add(f)
        if extra is not None:
            s.add(extra)
        return s.check() != z3.unsat

    def watch(self, st):
        self.A.decider = (lambda c: self.decide(st, c)) if self.tidy and not self.scan and st is not None else None

    def decide(self, st, c):
        """True/False when the path decides c, else None"""
        if self.scan:
            return None
        d = self.dec
        if d is None or len(st.pc) < len(d[1]) or any(a is not b for a, b in zip(d[1], st.pc)):
            s = z3.Solver()
            s.set('timeout', 300)
            d = self.dec = (s, [])
        for f in st.pc[len(d[1]):]:
            if not heavy(f):
                d[0].add(f)
            d[1].append(f)
        if d[0].check(z3.Not(c)) == z3.unsat:
            return True
        if d[0].check(c) == z3.unsat:
            return False
        return None

    # ------------------------------------------------------------ operands
    def val(self, st, ty, op):
        k = op[0]
        if k == 'loc':
            try:
                return st.frame.env[op[1]]
            except KeyError:
                raise Unsupported('undefined value %s in %s' % (op[1], st.frame.fn.demangled))
        if k == 'const':
            return self.A.const(op[1], ty[1])
        if k == 'null':
            return P(self.A.addr(0))
        if k == 'glob':
            return self.global_ptr(op[1], st.frame.fn.module)
        if k in ('undef',):
            if ty[0] == 'ptr':
                return P(self.fresh('undef', self.A.asort()))
            if ty[0] == 'int':
                return self.fresh_int(st, 'undef', ty[1])
            if ty[0] in ('lit', 'struct'):
                return [self.val(st, t, op) for t, _ in self.prog.fields(ty, st.frame.fn.module)]
            raise Unsupported('undef %r' % (ty,))
        if k == 'zero':
            if ty[0] == 'ptr':
                return P(self.A.addr(0))
            if ty[0] == 'int':
                return self.A.const(0, ty[1])
            if ty[0] in ('lit', 'struct'):
                return [self.val(st, t, op) for t, _ in self.prog.fields(ty, st.frame.fn.module)]
        if k == 'gep':
            base = self.val(st, ('ptr',), op[2])
            return self.gep(st, op[1], base, [(t, self.val(st, t, o)) for t, o in op[3]])
        if k == 'cast' and op[1] == 'ptrtoint':
            return self.val(st, ('ptr',), op[3]).addr
        if k == 'cast' and op[1] == 'inttoptr' and op[2] == ('int', 64):
            v = self.val(st, op[2], op[3])
            if is_num(v):
                return P(self.A.addr(num(v) % (1 << 64)))
        if k == 'agg':
            return [self.val(st, t, o) for t, o in op[1]]
        if k == 'fconst':
            return self.fresh('fconst', z3.RealSort())
        raise Unsupported('operand %r' % (op,))

    # ------------------------------------------------------------ gep
    def gep(self, st, ty, base, idx):
        mod = st.frame.fn.module
        A = self.A
        size, _ = self.prog.size_align(ty, mod)
        i0t, i0 = idx[0]
        addr = base.addr
        tag = base.tag
        glob = base.glob
        src = base.src
        zero = is_num(i0) and num(i0) == 0
        if not zero:
            if self.slot_fn is not None and ty == ('ptr',) and len(idx) == 1 and tag is None:
                addr = self.slot_fn(addr, A.signed(i0, i0t[1]))
            else:
                addr = A.aidx(addr, i0, i0t[1], size)
            if glob is not None:
                glob = (glob[0], glob[1], glob[2] + self.snum(i0, i0t[1]) * size) if is_num(i0) else None
            if tag is not None:
                if len(tag[1]) == 2 and ty[0] in ('int', 'ptr'):
                    tag = (tag[0], (tag[1][0], self.idx64(tag[1][1], i0, i0t[1])))
                elif len(tag[1]) == 2 and size == 8 and ty[0] == 'struct' and tag[0][0] == 'FA':
                    tag = (tag[0], (tag[1][0], self.idx64(tag[1][1], i0, i0t[1])))
                else:
                    tag = None
        cur = ty
        if ty[0] == 'lit' and len(idx) == 2 and zero and base.sty is not None and base.sty[0] == 'struct':
            f = num(idx[1][1])
            ft, off = self.prog.fields(ty, mod)[f]
            q = self.path_at(base.sty, off, base.addr, mod)
            if q is not None:
                return q
        if len(idx) == 1:
            sty = base.sty if zero else (ty if ty[0] in ('struct', 'lit') else None)
            return P(addr, tag, src if zero else ('gep', base, ty, idx), sty, glob)
        for it, iv in idx[1:]:
            if cur[0] in ('struct', 'lit'):
                f = num(iv)
                fts = self.prog.fields(cur, mod)
                ft, off = fts[f]
                b = addr
                addr = A.aoff(addr, off)
                if glob is not None:
                    glob = (glob[0], glob[1], glob[2] + off)
                cls = short(cur[1]) if cur[0] == 'struct' else 'lit%d' % len(fts)
                if ft[0] in ('int', 'ptr'):
                    tag = (('F', cls, off), (b,))
                elif ft[0] == 'arr' and (ft[2][0] == 'ptr' or (ft[2][0] == 'int' and ft[2][1] != 8)):
                    tag = (('FA', cls, off), (b, A.const(0, 64)))
                elif ft[0] == 'arr' and ft[2][0] == 'struct' and self.is_atomic_struct(ft[2], mod):
                    tag = (('FA', cls, off), (b, A.const(0, 64)))
                elif ft[0] == 'struct' and self.is_atomic_struct(ft, mod):
                    if tag is not None and self.is_atomic_struct(cur, mod):
                        pass
                    else:
                        tag = (('F', cls, off), (b,))
                else:
                    tag = None
                if self.is_atomic_struct(cur, mod):
                    # inside std::atomic: keep the tag of the enclosing field
                    tag = base.tag
                if tag is not None and tag[0] in self.flat:
                    addr, tag = self.flat[tag[0]](b), None
                cur = ft
            elif cur[0] == 'arr':
                et = cur[2]
                es, _ = self.prog.size_align(et, mod)
                nonzero = not (is_num(iv) and num(iv) == 0)
                if nonzero:
                    addr = A.aidx(addr, iv, it[1], es)
                    if glob is not None:
                        glob = (glob[0], glob[1], glob[2] + num(iv) * es) if is_num(iv) else None
                if tag is not None and len(tag[1]) == 2:
                    tag = (tag[0], (tag[1][0], self.idx64(tag[1][1], iv, it[1])))
                elif tag is not None:
                    tag = None
                cur = et
            else:
                raise Unsupported('gep into %r' % (cur,))
        sty = cur if cur[0] in ('struct', 'lit', 'arr') else None
        return P(addr, tag, ('gep', base, ty, idx), sty, glob)

    def snum(self, t, w):
        v = num(t)
        return v - (1 << w) if v >= (1 << (w - 1)) else v

    def idx64(self, cur, iv, w):
        A = self.A
        if is_num(iv) and num(iv) == 0:
            return cur
        if A.bv:
            e = z3.SignExt(64 - w, iv) if w < 64 else iv
            return z3.simplify(cur + e)
        s = A.signed(iv, w)
        if is_num(cur) and num(cur) == 0:
            return s
        return z3.simplify(cur + s)

    def is_atomic_struct(self, t, mod):
        return t[0] == 'struct' and re.search(r'std::(atomic|__atomic_base)\b', t[1]) is not None

    # ------------------------------------------------------------ driving
    def new_state(self):
        return State()

    def run(self, fn, st, args, depth=0):
        """execute fn's body; returns list of (state, ret)"""
        fn.module.body(fn)
        self.funcs_seen.add(fn.demangled)
        saved = st.frame
        st.frame = Frame(fn, depth)
        if len(args) != len(fn.params):
            raise Unsupported('argument count of ' + fn.demangled)
        for (t, n, at), v in zip(fn.params, args):
            if isinstance(v, P) and v.sty is None and 'sret' in at:
                v = P(v.addr, v.tag, v.src, at['sret'], v.glob)
            st.frame.env[n] = v
        results = []
        work = [(st, fn.entry(), None, None)]
        while work:
            s, blk, prev, ip = work.pop()
            outs = self.exec_block(s, fn, blk, prev, ip)
            for o in outs:
                if o[0] == 'goto':
                    work.append((o[1], o[2], o[3], None))
                elif o[0] == 'resume':
                    work.append((o[1], o[2], o[3], o[4]))
                elif o[0] == 'ret':
                    s2 = o[1]
                    s2.frame = saved.fork() if saved else None
                    results.append((s2, o[2]))
                    if depth == 0:
                        self.paths += 1
                        if self.paths > self.max_paths:
                            raise Unsupported('too many paths')
        return results

    def exec_block(self, st, fn, bname, prev, ip):
        blk = fn.blocks[bname]
        if not self.scan:
            self.visited.setdefault(fn, set()).add(bname)
        if ip is None:
            if bname in fn.loops:
                r = self.at_header(st, fn, blk, prev)
                if r is not None:
                    return r
            else:
                self.do_phis(st, blk, prev)
            ip = 0
        while ip < len(blk.ins):
            ins = blk.ins[ip]
            outs = self.exec_ins(st, fn, ins)
            if outs is None:
                ip += 1
                continue
            # outs: list of states (each with result stored)
            if len(outs) == 1 and outs[0] is st:
                ip += 1
                continue
            return [('resume', s, bname, prev, ip + 1) for s in outs]
        t = blk.term
        if t.op == 'ret':
            if not t.ops:
                return [('ret', st, None)]
            return [('ret', st, self.val(st, t.ty, t.ops[0]))]
        if t.op == 'unreachable':
            return []
        if t.op == 'br':
            if len(t.ops) == 1:
                return [('goto', st, t.ops[0], bname)]
            c = self.val(st, ('int', 1), t.ops[0])
            c = z3.simplify(c)
            if z3.is_true(c):
                return [('goto', st, t.ops[1], bname)]
            if z3.is_false(c):
                return [('goto', st, t.ops[2], bname)]
            outs = []
            nc = z3.Not(c)
            f1 = self.feasible(st, c)
            f2 = self.feasible(st, nc)
            if f1 and f2:
                s2 = st.fork()
                st.assume(c)
                s2.assume(nc)
                st.trace = st.trace + (('%s:%s' % (t.line, 'T')),)
                s2.trace = s2.trace + (('%s:%s' % (t.line, 'F')),)
                return [('goto', s2, t.ops[2], bname), ('goto', st, t.ops[1], bname)]
            if f1:
                st.assume(c)
                return [('goto', st, t.ops[1], bname)]
            if f2:
                st.assume(nc)
                return [('goto', st, t.ops[2], bname)]
            return []
        if t.op == 'switch':
            w = t.ty[1]
            v = self.val(st, t.ty, t.ops[0])
            outs = []
            neg = []
            for cv, b in t.extra['cases']:
                eq = z3.simplify(v == self.A.const(cv, w))
                if z3.is_false(eq):
                    continue
                if z3.is_true(eq):
                    return [('goto', st, b, bname)]
                neg.append(z3.Not(eq))
                if self.feasible(st, eq):
                    s2 = st.fork()
                    s2.assume(eq)
                    s2.trace = s2.trace + ('%s:case%s' % (t.line, cv),)
                    outs.append(('goto', s2, b, bname))
            if not neg or self.feasible(st, z3.And(neg)):
                st.assume(*neg)
                outs.append(('goto', st, t.extra['default'], bname))
            return outs
        raise Unsupported('terminator ' + t.op)

    def phi_vals(self, st, blk, prev):
        vals = []
        for ph in blk.phis:
            for v, b in ph.extra:
                if b == prev:
                    vals.append((ph.res, self.val(st, ph.ty, v)))
                    break
            else:
                raise Unsupported('phi')
        return vals

    def do_phis(self, st, blk, prev):
        for r, v in self.phi_vals(st, blk, prev):
            st.frame.env[r] = v

    # ------------------------------------------------------------ loops
    def at_header(self, st, fn, blk, prev):
        H = blk.name
        body = fn.loops[H]
        inside = prev in body
        if inside and H in st.frame.loops:
            info = st.frame.loops[H]
            self.do_phis(st, blk, prev)
            if info == 'scan':
                return []
            if info != 'unroll':
                self.close_loop(st, fn, blk, info)
                return []
        elif not inside:
            # (re-)entry
            st.frame.loops.pop(H, None)
            st.frame.visits.pop(H, None)
            cand = [s for s in self.loop_specs if self.loop_applicable(s, fn, H) and getattr(s, 'applies', lambda *a: True)(self, st)]
            if cand:
                r = self.enter_loop(st, fn, blk, prev, cand)
                if r:
                    return None
            self.do_phis(st, blk, prev)
            st.frame.loops[H] = 'unroll'
        # unrolling
        n = st.frame.visits.get(H, 0) + 1
        st.frame.visits[H] = n
        if self.scan and n > 2:
            return []
        if n > self.unroll:
            raise Unsupported('loop at line %s of %s has no invariant and is not width-bounded' % (
                self.loop_line(fn, H), fn.demangled))
        return None

    def loop_line(self, fn, H):
        b = fn.blocks[H]
        for i in b.ins + [b.term]:
            if i is not None and i.line:
                return i.line
        return None

    def loop_applicable(self, s, fn, H):
        pat = getattr(s, 'fn', None)
        return pat is None or re.search(pat, fn.demangled)

    def guard_phis(self, fn, H):
        """the loop variables its exit conditions compare (a hint for choosing the binding)"""
        body = fn.loops[H]
        defs = {i.res: i for b in body for i in fn.blocks[b].phis + fn.blocks[b].ins if i.res is not None}
        head = {ph.res for ph in fn.blocks[H].phis}
        out = set()

        def locs(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'loc':
                    yield x[1]
                else:
                    for y in x:
                        yield from locs(y)
            elif isinstance(x, list):
                for y in x:
                    yield from locs(y)
        for b in body:
            t = fn.blocks[b].term
            if t.op == 'br' and len(t.ops) == 3 and any(n not in body for n in t.ops[1:]):
                work, seen = list(locs(t.ops[0])), set()
                while work:
                    r = work.pop()
                    if r in seen:
                        continue
                    seen.add(r)
                    if r in head:
                        out.add(r)
                    elif r in defs:
                        work += list(locs(defs[r].ops)) + list(locs(defs[r].extra))
        return out

    def const_ids(self, t, acc=None):
        """max fresh counter in a term"""
        mx = 0
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if '!' in nm:
                    try:
                        mx = max(mx, int(nm.rsplit('!', 1)[1]))
                    except ValueError:
                        pass
            stack.extend(x.children())
        return mx

    def enter_loop(self, st, fn, blk, prev, cands):
        A = self.A
        H = blk.name
        entry_vals = self.phi_vals(st, blk, prev)
        entry = st.fork()
        for r, v in entry_vals:
            entry.frame.env[r] = v
        mark = self.fresh_n
        # ---- which phis carry ambiguous pointers? find mod set by scanning
        modset = {}      # key -> None | list of idx tuples
        gmod = set()
        phi_tags = {}
        for _round in range(5):
            s = entry.fork()
            self.havoc_phis(s, blk, entry_vals, {}, 'scan')
            self.apply_modset(s, modset, gmod)
            s.frame.loops[H] = 'scan'
            ghost0 = dict(s.ghost)      # the scan runs on s itself
            saved_w = self.writes
            self.writes = []
            self.scan += 1
            s.aux['scan_exit'] = True
            back = self.scan_body(s, fn, blk)
            self.scan -= 1
            w = self.writes
            self.writes = saved_w
            changed = False
            for key, idx in w:
                if key in modset and modset[key] is None:
                    continue
                if idx is None or any(self.const_ids(i) > mark for i in idx):
                    modset[key] = None
                    changed = True
                else:
                    lst = modset.setdefault(key, [])
                    if not any(all(a.eq(b) for a, b in zip(idx, o)) for o in lst):
                        lst.append(idx)
                        changed = True
            for s2, vals in back:
                for g, t in s2.ghost.items():
                    if g not in gmod and (g not in ghost0 or not same(t, ghost0[g])):
                        gmod.add(g)
                        changed = True
                for (r, v) in vals:
                    if isinstance(v, P):
                        tg = v.tag[0] if v.tag is not None else None
                        if tg not in phi_tags.setdefault(r, set()):
                            phi_tags[r].add(tg)
                            changed = True
            if not changed:
                break
        else:
            raise Unsupported('loop modification set does not stabilise')
        # outer scans must see our writes
        if self.writes is not None:
            for key, lst in modset.items():
                if lst is None:
                    self.writes.append((key, None))
                else:
                    for idx in lst:
                        self.writes.append((key, idx))
        # ---- ambiguous pointer phis: not supported generically except all-same tag
        tagsel = {}
        for r, v in entry_vals:
            if isinstance(v, P):
                tags = set(phi_tags.get(r, set()))
                tags.add(v.tag[0] if v.tag is not None else None)
                tagsel[r] = tags
        # ---- candidate variables: phis and modified cells
        cands_vars = []
        for ph, (r, v) in zip(blk.phis, entry_vals):
            cands_vars.append(('phi', r, self.tyname(ph.ty), v))
        for key, lst in modset.items():
            if lst is None:
                continue
            ty = self.region_ty(key)
            for idx in lst:
                arr = self.region(entry, key)
                v = arr
                for i in idx:
                    v = self.select(v, i)
                cands_vars.append(('cell', (key, idx), ty, P(v) if ty == 'ptr' else v))
        for G, inner in fn.loops.items():        # values of the enclosing loops, for roles that ask for them
            if G != H and H in inner:
                for ph in fn.blocks[G].phis:
                    if ph.res in st.frame.env:
                        cands_vars.append(('outer', ph.res, 'outer ' + self.tyname(ph.ty), st.frame.env[ph.res]))
        # ---- bindings
        options = []
        for spec in cands:
            for b in self.bindings(spec, cands_vars):
                options.append((spec, b))
        # filter through entry checks
        ck = (fn.name, H)
        good = []
        if not self.scan:
            memo = self.choice_n.get(ck)
            if memo is not None:
                # same variables, with the values they have at this entry
                def now(v):
                    if v is None:
                        return None
                    for w in cands_vars:
                        if w[0] == v[0] and w[2] == v[2] and (w[1] == v[1] if v[0] != 'cell' else
                                                              w[1][0] == v[1][0] and all(x.eq(y) for x, y in zip(w[1][1], v[1][1]))):
                            return w
                    return v
                good = [(spec, {n: now(v) for n, v in b.items()}) for spec, b in memo]
            else:
                ranked = []
                for spec, b in options:
                    k = self.entry_ok(entry, spec, b, fn, H)
                    if k is not None:
                        bound = [v[1] for v in b.values() if v is not None and v[0] == 'phi']
                        g = getattr(spec, 'guard', None)
                        off = g is not None and (b.get(g) is None or (b[g][0] == 'phi' and b[g][1] not in self.guard_phis(fn, H)))
                        ranked.append(((off, k), (sum(r not in bound for r, _ in entry_vals), len(ranked)), spec, b))
                # a binding under which the invariants provably hold on entry comes first
                good = [(spec, b) for _, _, spec, b in sorted(ranked, key=lambda x: x[:2])]
                if not good:
                    good = options[:1]
                self.choice_n[ck] = good
        else:
            good = options
        if not good:
            return False
        spec, b = good[min(self.choices.get(ck, 0), len(good) - 1)]
        # ---- entry obligations
        info = LoopInfo()
        info.spec, info.binding, info.entry, info.H = spec, b, entry, H
        info.cands = cands_vars
        c = self.loop_cx(entry, info)
        c.phase = 'entry'
        spec.at_header(c) if getattr(spec, 'header_on_entry', False) else None
        for lab, f in spec.inv(c):
            self.oblige(entry, 'loop invariant initially: ' + lab, f, self.loop_line(fn, H), 'inv-init')
        # ---- havoc
        self.do_phis(st, blk, prev)
        self.havoc_phis(st, blk, entry_vals, tagsel, 'L')
        self.apply_modset(st, modset, gmod)
        info.modset = modset
        st.frame.loops[H] = info
        c = self.loop_cx(st, info)
        c.phase = 'assume'
        spec.at_header(c)
        for lab, f in spec.inv(c):
            st.assume(f)
        d = spec.decreases(c)
        info2 = LoopInfo()
        info2.__dict__.update(info.__dict__)
        info2.dec = d
        info2.head = st.fork()
        st.frame.loops[H] = info2
        return True

    def scan_body(self, s, fn, blk):
        """run the loop body once from the header; returns [(state, phi values at back edge)]"""
        H = blk.name
        body = fn.loops[H]
        backs = []
        work = [(s, H, None, 0)]
        steps = 0
        while work:
            st, b, prev, ip = work.pop()
            steps += 1
            if steps > 3000:
                raise Unsupported('loop scan too large')
            outs = self.exec_block_scan(st, fn, b, prev, ip, H, body, backs)
            work.extend(outs)
        return backs

    def exec_block_scan(self, st, fn, b, prev, ip, H, body, backs):
        res = []
        outs = self.exec_block(st, fn, b, prev, ip)
        for o in outs:
            if o[0] == 'goto':
                if o[2] == H:
                    s2 = o[1]
                    vals = self.phi_vals(s2, fn.blocks[H], o[3])
                    backs.append((s2, vals))
                elif o[2] in body:
                    res.append((o[1], o[2], o[3], None))
            elif o[0] == 'resume':
                res.append((o[1], o[2], o[3], o[4]))
        return res

    def havoc_phis(self, st, blk, entry_vals, tagsel, nm):
        for ph, (r, v) in zip(blk.phis, entry_vals):
            if ph.ty[0] == 'ptr':
                a = self.fresh('%s_%s' % (nm, r), self.A.asort())
                p = P(a, sty=v.sty)
                tags = tagsel.get(r)
                if tags and len(tags) == 1:
                    t = next(iter(tags))
                    if t is not None:
                        p = self.retag(a, t)
                elif tags and len(tags) > 1:
                    p.src = ('ambig', tuple(sorted(tags, key=str)))
                st.frame.env[r] = p
            elif ph.ty[0] == 'int':
                st.frame.env[r] = self.fresh_int(st, '%s_%s' % (nm, r), ph.ty[1])
            else:
                raise Unsupported('phi type')

    def retag(self, a, tagkey):
        if tagkey[0] == 'F':
            return P(a, (tagkey, (self.A.aoff(a, -tagkey[2]),)))
        # array fields: unknown base/index
        return P(a, None)

    def apply_modset(self, st, modset, gmod):
        for key, lst in modset.items():
            self.havoc_key(st, key, lst, 'L')
        for g in gmod:
            if g in st.ghost:
                st.ghost[g] = self.fresh('Lg_' + g, st.ghost[g].sort())

    def bindings(self, spec, vars_):
        names = list(spec.roles)
        opts = []
        for n in names:
            ty = spec.roles[n]
            tys = ty if isinstance(ty, tuple) else (ty,)
            o = [v for v in vars_ if v[2] in tys]
            if n in spec.optional:
                o = o + [None]
            opts.append(o)
        out = []
        for combo in itertools.product(*opts):
            used = [id(v) for v in combo if v is not None]
            if len(set(used)) != len(used):
                continue
            out.append(dict(zip(names, combo)))
            if len(out) > 64:
                break
        return out

    def loop_cx(self, st, info):
        c = Cx(self, st)
        c.entry = info.entry
        c.v = {}
        c.e = {}
        for n, b in info.binding.items():
            if b is None:
                c.v[n] = c.e[n] = None
                continue
            c.e[n] = b[3]
            if b[0] != 'cell':
                c.v[n] = st.frame.env[b[1]]
            else:
                key, idx = b[1]
                v = self.region(st, key)
                for i in idx:
                    v = self.select(v, i)
                c.v[n] = P(v) if b[2] == 'ptr' else v
        c.info = info
        c.args = self.root_args
        c.old = self.root_old
        c.head = getattr(info, 'head', None)
        return c

    root_args = None
    root_old = None

    def entry_ok(self, entry, spec, b, fn, H):
        info = LoopInfo()
        info.spec, info.binding, info.entry, info.H = spec, b, entry, H
        c = self.loop_cx(entry, info)
        c.phase = 'entry'
        try:
            fs = spec.inv(c)
        except (Unsupported, z3.Z3Exception, AttributeError, TypeError):
            return None
        hyps = self.axioms + entry.pc + self.A.extra
        light = z3.Solver()
        light.set('timeout', 1000)
        full = z3.Solver()
        full.set('timeout', 250)
        for f in hyps:
            full.add(f)
            if not heavy(f):
                light.add(f)
        doubts = 0
        for lab, f in fs:
            if not heavy(f):
                light.push()
                light.add(z3.Not(f))
                r = light.check()
                light.pop()
                if r == z3.unsat:
                    continue
                doubts += 1
            full.push()
            full.add(z3.Not(f))
            r = full.check()
            full.pop()
            if r == z3.sat:
                return None
            if r == z3.unsat and not heavy(f):
                doubts -= 1
        return doubts

    def close_loop(self, st, fn, blk, info):
        if self.scan:
            return
        spec = info.spec
        c = self.loop_cx(st, info)
        c.phase = 'back'
        spec.at_back(c)
        line = self.loop_line(fn, blk.name)
        for lab, f in spec.inv(c):
            self.oblige(st, 'loop invariant preserved: ' + lab, f, line, 'inv-keep')
        d = spec.decreases(c)
        if d is not None and info.dec is not None:
            new = d if isinstance(d, (list, tuple)) else [d]
            old = info.dec if isinstance(info.dec, (list, tuple)) else [info.dec]
            alts = []
            eqs = []
            for a, b in zip(new, old):
                lt = z3.ULT(a, b) if z3.is_bv(a) else z3.And(a < b, b >= 0)
                alts.append(z3.And(*(eqs + [lt])))
                eqs.append(a == b)
            self.oblige(st, 'loop terminates: measure decreases', z3.Or(alts), line, 'term')

    # ------------------------------------------------------------ instructions
    def exec_ins(self, st, fn, ins):
        env = st.frame.env
        op = ins.op
        A = self.A
        self.watch(st)
        if op == 'alloca':
            if ins.ops[0] is not None:
                raise Unsupported('dynamic alloca')
            st.nalloca += 1
            a = STACK0 + st.nalloca * (1 << 24)
            p = P(A.addr(a), sty=ins.ty)
            if ins.ty[0] in ('int', 'ptr'):
                p.sty = ins.ty
            if ins.ty[0] == 'arr' and ins.ty[2] == ('int', 8):
                st.aux['stackarr'] = st.aux.get('stackarr', ()) + ((a, ins.ty[1]),)
            env[ins.res] = p
            return None
        self.cur_ins = ins
        if op == 'load':
            p = self.val(st, ('ptr',), ins.ops[0])
            if ins.extra.get('atomic') and self.atomic_hook and ins.ty[0] in ('int', 'ptr'):
                self.atomic_hook(self, st, 'load', p, self.tyname(ins.ty), ins.extra['atomic'], ins.line)
            return self.do_load(st, ins, p)
        if op == 'store':
            v = self.val(st, ins.ty, ins.ops[0])
            p = self.val(st, ('ptr',), ins.ops[1])
            if ins.extra.get('atomic') and self.atomic_hook and ins.ty[0] in ('int', 'ptr'):
                self.atomic_hook(self, st, 'store', p, self.tyname(ins.ty), ins.extra['atomic'], ins.line)
            r = self.do_store(st, ins, p, v)
            if ins.extra.get('atomic') and self.atomic_done and r is None:
                self.atomic_done(self, st, 'store', p, None, v, ins.line)
            return r
        if op in ('atomicrmw', 'cmpxchg'):
            p = self.val(st, ('ptr',), ins.ops[0])
            if ins.ty[0] != 'int':
                raise Unsupported('%s on %r' % (op, ins.ty))
            ty, w = self.tyname(ins.ty), ins.ty[1]
            if self.atomic_hook:
                self.atomic_hook(self, st, 'rmw', p, ty, ins.extra['order'], ins.line)
            old = self.load(st, p, ty, ins.line)
            if op == 'atomicrmw':
                v = self.val(st, ins.ty, ins.ops[1])
                rop = ins.extra['op']
                if rop == 'xchg':
                    new = v
                elif rop in ('add', 'sub', 'and', 'or', 'xor'):
                    n0 = len(A.extra)
                    new = A.bin(rop, w, old, v, ())
                    for f in A.extra[n0:]:
                        st.assume(f)
                    del A.extra[n0:]
                else:
                    raise Unsupported('atomicrmw ' + rop)
                self.store(st, p, ty, new, ins.line)
                env[ins.res] = old
            else:
                want = self.val(st, ins.ty, ins.ops[1])
                v = self.val(st, ins.ty, ins.ops[2])
                ok = old == want
                new = z3.If(ok, v, old)
                self.store(st, p, ty, new, ins.line)
                env[ins.res] = [old, ok]
            if self.atomic_done:
                self.atomic_done(self, st, 'rmw', p, old, new, ins.line)
            return None
        if op == 'gep':
            base = self.val(st, ('ptr',), ins.ops[0])
            env[ins.res] = self.gep(st, ins.ty, base, [(t, self.val(st, t, o)) for t, o in ins.ops[1]])
            return None
        if op == 'bin':
            w = ins.ty[1]
            if ins.ty[0] != 'int':
                raise Unsupported('non-integer arithmetic')
            a = self.val(st, ins.ty, ins.ops[0])
            b = self.val(st, ins.ty, ins.ops[1])
            bop = ins.extra['op']
            if bop in ('udiv', 'urem', 'sdiv', 'srem'):
                zero = A.const(0, w)
                if not is_num(b):
                    self.oblige(st, 'no division by zero', z3.Not(b == zero), ins.line, 'safety', ('div0',))
                    st.assume(z3.Not(b == zero))
            n0 = len(A.extra)
            env[ins.res] = A.bin(bop, w, a, b, ins.extra['flags'])
            for f in A.extra[n0:]:
                st.assume(f)
            del A.extra[n0:]
            return None
        if op == 'icmp':
            a = self.val(st, ins.ty, ins.ops[0])
            b = self.val(st, ins.ty, ins.ops[1])
            if ins.ty[0] == 'ptr':
                env[ins.res] = A.icmp(ins.extra, 64, a.addr, b.addr)
            else:
                env[ins.res] = A.icmp(ins.extra, ins.ty[1], a, b)
            return None
        if op == 'cast':
            v = self.val(st, ins.extra['from'], ins.ops[0])
            k = ins.extra['op']
            if k == 'ptrtoint':
                env[ins.res] = v.addr
            elif k == 'inttoptr':
                env[ins.res] = P(v)
            elif k in ('zext', 'sext', 'trunc'):
                env[ins.res] = A.cast(k, v, ins.extra['from'][1], ins.ty[1])
            elif k == 'bitcast':
                env[ins.res] = v
            else:
                raise Unsupported('cast ' + k)
            return None
        if op == 'select':
            c = z3.simplify(self.val(st, ('int', 1), ins.ops[0]))
            a = self.val(st, ins.ty, ins.ops[1])
            b = self.val(st, ins.ty, ins.ops[2])
            if z3.is_true(c):
                env[ins.res] = a
            elif z3.is_false(c):
                env[ins.res] = b
            elif isinstance(a, P):
                s2 = st.fork()
                st.assume(c)
                s2.assume(z3.Not(c))
                env[ins.res] = a
                s2.frame.env[ins.res] = b
                return [st, s2]
            else:
                env[ins.res] = z3.If(c, a, b)
            return None
        if op == 'extractvalue':
            v = self.val(st, ins.ty, ins.ops[0])
            for i in ins.extra:
                v = v[i]
            env[ins.res] = v
            return None
        if op == 'insertvalue':
            v = self.val(st, ins.ty, ins.ops[0])
            w = self.val(st, ('int', 64), ins.ops[1]) if ins.ops[1][0] != 'loc' else env[ins.ops[1][1]]
            v = list(v)
            v[ins.extra[0]] = w
            env[ins.res] = v
            return None
        if op == 'freeze':
            env[ins.res] = self.val(st, ins.ty, ins.ops[0])
            return None
        if op == 'call':
            return self.do_call(st, fn, ins)
        if op == 'fence':
            return None
        raise Unsupported('instruction %s (line %s)' % (op, ins.line))

    def split_ambig(self, st, p):
        """pointer whose region is one of several: fork"""
        if isinstance(p, P) and p.tag is None and p.src is not None and p.src[0] == 'ambig':
            outs = []
            for t in p.src[1]:
                s2 = st.fork()
                q = P(p.addr) if t is None else self.retag(p.addr, t)
                cond = self.ambig_cond(s2, p, t)
                if cond is not None:
                    s2.assume(cond)
                    if not self.feasible(s2):
                        continue
                outs.append((s2, q))
            return outs
        return None

    ambig_hook = None

    def ambig_cond(self, st, p, t):
        if self.ambig_hook:
            return self.ambig_hook(self, st, p, t)
        return None

    def subst_ptr(self, st, p, q):
        for k, v in list(st.frame.env.items()):
            if v is p:
                st.frame.env[k] = q

    def do_load(self, st, ins, p):
        amb = self.split_ambig(st, p)
        if amb is not None:
            outs = []
            for s2, q in amb:
                self.subst_ptr(s2, p, q)
                self.finish_load(s2, ins, q)
                outs.append(s2)
            return outs
        self.finish_load(st, ins, p)
        return None

    def finish_load(self, st, ins, p):
        t = ins.ty
        if t[0] in ('int', 'ptr'):
            st.frame.env[ins.res] = self.load(st, p, self.tyname(t), ins.line)
        elif t[0] in ('lit', 'struct'):
            out = []
            for i, (ft, off) in enumerate(self.prog.fields(t, st.frame.fn.module)):
                q = self.subfield(st, p, off, ft)
                out.append(self.load(st, q, self.tyname(ft), ins.line))
            st.frame.env[ins.res] = out
        elif t[0] == 'float':
            st.frame.env[ins.res] = self.fresh('fl', z3.RealSort())
        else:
            raise Unsupported('load %r' % (t,))

    def do_store(self, st, ins, p, v):
        amb = self.split_ambig(st, p)
        if amb is not None:
            outs = []
            for s2, q in amb:
                self.subst_ptr(s2, p, q)
                self.finish_store(s2, ins, q, v)
                outs.append(s2)
            return outs
        self.finish_store(st, ins, p, v)
        return None

    def finish_store(self, st, ins, p, v):
        t = ins.ty
        if t[0] in ('int', 'ptr'):
            self.store(st, p, self.tyname(t), v, ins.line)
        elif t[0] in ('lit', 'struct'):
            for (ft, off), x in zip(self.prog.fields(t, st.frame.fn.module), v):
                self.store(st, self.subfield(st, p, off, ft), self.tyname(ft), x, ins.line)
        else:
            raise Unsupported('store %r' % (t,))

    def subfield(self, st, p, off, ft):
        """scalar at byte offset off of the struct p.sty (if known)"""
        if p.sty is not None and p.sty[0] in ('struct', 'lit'):
            r = self.path_at(p.sty, off, p.addr, st.frame.fn.module)
            if r is not None:
                return r
        return P(self.A.aoff(p.addr, off))

    def path_at(self, t, off, addr, mod, base_off=0):
        for ft, fo in self.prog.fields(t, mod):
            sz, _ = self.prog.size_align(ft, mod)
            if fo <= off < fo + max(sz, 1):
                if ft[0] in ('int', 'ptr'):
                    if fo != off:
                        return None
                    cls = short(t[1]) if t[0] == 'struct' else 'lit%d' % len(t[1])
                    if ('F', cls, fo) in self.flat:
                        return P(self.flat[('F', cls, fo)](addr))
                    return P(self.A.aoff(addr, fo), (('F', cls, fo), (addr,)))
                if ft[0] in ('struct', 'lit'):
                    return self.path_at(ft, off - fo, self.A.aoff(addr, fo), mod)
                return None
        return None

    # ------------------------------------------------------------ calls
    def do_call(self, st, fn, ins):
        callee, args = ins.ops
        name = None
        f = None
        av = None
        if callee[0] == 'glob':
            name = callee[1]
            while name in fn.module.globals and 'alias' in fn.module.globals[name]:
                name = fn.module.globals[name]['alias']
        vals = []
        for at, ao, attrs in args:
            if at == ('meta',):
                continue
            v = self.val(st, at, ao)
            vals.append(v)
        if name is None:
            fp = self.val(st, ('ptr',), callee)
            outs = self.indirect(st, fp, vals, ins)
        else:
            outs = self.call(st, name, vals, ins, fn.module)
        res = []
        for s2, rv in outs:
            if ins.res is not None:
                s2.frame.env[ins.res] = rv
            res.append(s2)
        return res

    def indirect(self, st, fp, vals, ins):
        if fp.src and fp.src[0] == 'fn':
            return self.call(st, fp.src[1], vals, ins, st.frame.fn.module)
        # virtual call: fp = load(gep(ptr, vt, k)); vt = load(obj)
        try:
            assert fp.src[0] == 'load'
            slotp = fp.src[1]
            if slotp.src and slotp.src[0] == 'gep':
                vt = slotp.src[1]
                k = num(slotp.src[3][0][1])
            else:
                vt, k = slotp, 0
            assert vt.src[0] == 'load'
            obj = vt.src[1]
        except (AssertionError, TypeError, AttributeError, IndexError):
            if self.callback_hook:
                return self.callback_hook(self, st, fp, vals, ins)
            raise Unsupported('indirect call at line %s' % ins.line)
        if self.virtual_hook is None:
            raise Unsupported('virtual call at line %s' % ins.line)
        return self.virtual_hook(self, st, obj, k, vals, ins)

    def call(self, st, name, vals, ins, mod):
        dem = self.prog.dem.get(name, name)
        depth = st.frame.depth + 1
        if depth > 40:
            raise Unsupported('call depth')
        for spec in self.contracts:
            if re.search(spec.name, dem):
                self.used_contracts[spec.name] = dem
                return self.apply_contract(st, spec, vals, ins, dem, name, mod)
        for pat, h in self.models:
            if pat.search(dem):
                self.used_models[dem.split('(')[0][:160]] = h.__name__
                r = h(self, st, vals, ins, dem)
                if r is NotImplemented:
                    continue
                if isinstance(r, list):
                    return r
                return [(st, r)]
        f = self.prog.find(name, mod)
        if f is None:
            raise Unsupported('call to %s (no contract, model or body)' % dem)
        if not self.inlinable(dem):
            raise Unsupported('library function without a model: %s' % dem)
        self.inlined[dem] = self.inlined.get(dem, 0) + 1
        return self.run(f, st, vals, depth)

    INLINE_OK = re.compile(r'lsmdb|^(std::)?(.*)\bstd::(min|max|swap|move|forward|addressof|__addressof|remove_reference|numeric_limits)\b|^__clang_call_terminate|operator new\(unsigned long, void\*\)|^verif_')

    def inlinable(self, dem):
        d = dem
        # strip leading return type of templates
        if re.match(r'^(.* )?(std|__gnu_cxx)::', d.split('(')[0]) and not re.search(
                r'\bstd::(min|max|swap|move|forward|addressof|__addressof|numeric_limits|fill|copy|unique_lock|lock_guard)\b|__gnu_cxx::(operator|__normal_iterator)|\bstd::(atomic|__atomic_base)<|\bstd::operator[&|]$', d.split('(')[0]):
            return False
        return True

    def apply_contract(self, st, spec, vals, ins, dem, name, mod):
        f = self.prog.find(name, mod)
        rt = ins.ty
        old = st.fork()
        c = Cx(self, st, old=st, args=vals, ret=None)
        c.dem = dem
        c.caller = True
        for lab, g in spec.pre(c):
            self.oblige(st, 'precondition of %s: %s' % (dem.split('(')[0], lab), g, ins.line, 'pre')
            st.assume(g)
        c = Cx(self, st, old=old, args=vals)
        c.dem = dem
        c.caller = True
        for key, lst in spec.modifies(c).items():
            self.havoc_key(st, key, lst, 'c')
        rets = [self.fresh_ret(st, rt, spec)]
        outs = []
        for r in rets:
            c.ret = r
            spec.effect(c)
            spec.at_call(c)
            for lab, g in spec.post(c):
                st.assume(g)
            if self.scan == 0 and getattr(spec, 'check_feasible', False) and not self.feasible(st):
                continue
            outs.append((st, c.ret))
        return outs

    def fresh_ret(self, st, rt, spec=None):
        if rt[0] == 'void':
            return None
        if rt[0] == 'int':
            return self.fresh_int(st, 'ret', rt[1])
        if rt[0] == 'ptr':
            p = P(self.fresh('ret', self.A.asort()))
            tags = getattr(spec, 'ret_tags', None)
            if tags:
                t = tags(self)
                p.src = ('ambig', tuple(t))
            return p
        if rt[0] in ('lit', 'struct'):
            return [self.fresh_ret(st, t) for t, _ in self.prog.fields(rt, st.frame.fn.module)]
        raise Unsupported('return type %r' % (rt,))


def has_quant(f):
    seen = set()
    stack = [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


HEAVY = {}


def heavy(f):
    """mentions a quantifier or a sequence"""
    k = f.get_id()
    if k in HEAVY and HEAVY[k][0].eq(f):
        return HEAVY[k][1]
    seen, stack, r = set(), [f], False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or x.sort().kind() == z3.Z3_SEQ_SORT:
            r = True
            break
        stack.extend(x.children())
    HEAVY[k] = (f, r)
    return r


def same(a, b):
    return a is b or (hasattr(a, 'eq') and a.eq(b))

"""EnvWapper: every operation is forwarded once, unchanged."""
from .common import *
from .status_spec import *

TUS = ['env', 'wrapper_inst']
DRIVER = {'src': 'wrapper.cc', 'sources': ['util/env.cc', 'util/status.cc']}
DRIVER_SECS = 10
TRUST = STATUS_TRUST + ['a virtual call reaches the target\'s own override of the called slot; std::function copies compare equal to the original']
ASSUME = ['the wrapped environment is a valid object for the lifetime of the wrapper']
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'


def split_params(dem):
    s = dem[dem.index('(') + 1:] if 'anonymous' not in dem else dem.split(')(', 1)[-1]
    s = s.rsplit(')', 1)[0]
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def tasks(prog):
    slots = {k: v for k, v in prog.virtuals('Env').items() if v != '~Env' and k >= 2}
    if len(slots) < 15:
        raise Unsupported('virtual functions of Env not found')
    T = []
    wrap = prog.virtuals('EnvWapper')
    for slot, name in sorted(slots.items()):
        fns = prog.by_demangled(r'^lsmdb::EnvWapper::%s\(' % name)
        if not fns:
            T.append(Lemma(name, lambda name=name: [('EnvWapper forwards %s (it has an override of its own)' % name, [], z3.BoolVal(False))]))
            continue
        fn = fns[0]
        fn.module.body(fn)
        params = split_params(fn.demangled)
        sret = any('sret' in at for _, _, at in fn.params)
        T.append(one(name, slot, params, sret))
    T.append(simple('EnvWapper()', r'^lsmdb::EnvWapper::EnvWapper\(lsmdb::Env\*\)', None,
                    lambda c: [('wraps the given environment', c.F('EnvWapper', 'target_')[c.args[0].addr] == c.args[1].addr),
                               ('no call', z3.BoolVal(len(c.st.events) == 0))],
                    modifies=lambda c: {c.ex.fkey('EnvWapper', 'target_'): [(c.args[0].addr,)], ('E', 'ptr'): [(c.args[0].addr,)]}, config=cfg))
    T.append(simple('target', r'^lsmdb::EnvWapper::target\(', None,
                    lambda c: [('the wrapped environment', c.ret.addr == c.F('EnvWapper', 'target_')[c.args[0].addr])], config=cfg))
    return [t for t in T if t.name != 'target' or prog.by_demangled(r'^lsmdb::EnvWapper::target\(')]


def cfg(ex, st):
    def vh(ex_, s, obj, k, vals, ins):
        ret = None
        at_call = {}
        if ins.ty[0] != 'void':
            ret = ex.fresh_ret(s, ins.ty)
        elif ins.ops[1] and 'sret' in ins.ops[1][0][2]:
            v = ex.fresh('st', ex.A.asort())
            ex.assume_heap(s, v)
            set_state(ex, s, vals[0].addr, v)
            ret = v
            vals2 = vals[1:]
        s.events = s.events + ((k, obj, list(vals), ret, M.strs(ex, s), funs(ex, s), bool(ins.ops[1] and 'sret' in ins.ops[1][0][2])),)
        return [(s, None if (ins.ty[0] == 'void') else ret)]
    ex.virtual_hook = vh


def one(name, slot, params, sret):
    off = 1 if sret else 0       # position of `this`

    def post(c):
        ev = c.st.events
        r = [('forwards exactly once', z3.BoolVal(len(ev) == 1))]
        if len(ev) != 1:
            return r
        k, obj, vals, ret, strs0, funs0, vs = ev[0]
        r.append(('calls the same operation', z3.BoolVal(k == slot and vs == sret)))
        this = c.args[off].addr
        r.append(('on the wrapped environment', obj.addr == c.F('EnvWapper', 'target_', c.old)[this]))
        if not (k == slot and vs == sret):
            return r
        mine = c.args[off + 1:]
        theirs = vals[off + 1:]
        r.append(('argument count', z3.BoolVal(len(mine) == len(theirs) == len(params))))
        r.append(('receiver', vals[off].addr == obj.addr))
        for i, (p, a, b) in enumerate(zip(params, mine, theirs)):
            if p.startswith('std::function'):
                g = z3.Select(funs0, b.addr) == z3.Select(funs(c.ex, c.old), a.addr)
            elif p.startswith(STR) and p.endswith('const&'):
                g = z3.Or(b.addr == a.addr, z3.Select(strs0, b.addr) == M.str_get(c.ex, c.old, a.addr))
            elif isinstance(a, P):
                g = b.addr == a.addr
            else:
                g = a == b
            r.append(('argument %d passed unchanged' % i, g))
        if sret:
            s = sstate(c, c.args[0].addr)
            r.append(('status returned unchanged', z3.Or(s == ret, z3.And(s != 0, ret != 0, sval(c.ex, c.st)[s] == sval(c.ex, c.st)[ret]))))
        elif c.ret is not None:
            r.append(('result returned unchanged', (c.ret.addr == ret.addr) if isinstance(ret, P) else c.ret == ret))
        return r

    def mods(c):
        m = {}
        if sret:
            m[key(c.ex)] = [(c.args[0].addr,)]
        return m
    return simple(name, r'^lsmdb::EnvWapper::%s\(' % name, None, post, modifies=mods, config=cfg, models=STATUS_MODELS + FUN_MODELS)

"""Parser for the textual LLVM IR (clang 18) generated from /repo's sources.

Only what -O0 + mem2reg + loop-simplify emits for this code base is accepted;
anything else raises IRError, which the checks report as an extraction break.
"""
import re
import subprocess


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
# ('int',w) ('ptr',) ('void',) ('struct',name) ('lit',(t..),packed) ('arr',n,t)
# ('float',w) ('meta',) ('label',) ('func',)
PTR = ('ptr',)
VOID = ('void',)


class Lexer:
    TOK = re.compile(r'''
      (?P<ws>\s+)
     |(?P<lstr>[%@]"[^"]*")
     |(?P<id>[%@][-a-zA-Z$._0-9]+)
     |(?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
     |(?P<str>"[^"]*")
     |(?P<meta>![a-zA-Z_0-9.]*)
     |(?P<attr>\#[0-9]+)
     |(?P<num>-?[0-9]+(?:\.[0-9]+e[+-]?[0-9]+)?)
     |(?P<hexf>0x[0-9A-Fa-f]+)
     |(?P<dots>\.\.\.)
     |(?P<word>[a-zA-Z_][-a-zA-Z_0-9.$]*)
     |(?P<punct>[\[\]{}()<>,=*:|])
    ''', re.X)

    def __init__(self, s):
        self.toks = []
        pos = 0
        n = len(s)
        while pos < n:
            m = self.TOK.match(s, pos)
            if not m:
                raise IRError('lex error at: ' + s[pos:pos + 60])
            pos = m.end()
            k = m.lastgroup
            if k == 'ws':
                continue
            v = m.group()
            if k == 'lstr':
                v = v[0] + v[2:-1]
                k = 'id'
            self.toks.append((k, v))
        self.i = 0

    def peek(self, o=0):
        return self.toks[self.i + o] if self.i + o < len(self.toks) else ('eof', '')

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('punct', 'word', 'dots'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r got %r in %s' % (v, self.peek(), self.toks[max(0, self.i - 8):self.i + 8]))

    def eof(self):
        return self.i >= len(self.toks)


ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'signext', 'zeroext',
         'returned', 'immarg', 'readnone', 'dead_on_unwind', 'writable', 'noreturn', 'nounwind',
         'inreg', 'allocalign', 'allocptr', 'nofree', 'dso_local', 'unnamed_addr', 'local_unnamed_addr',
         'internal', 'linkonce_odr', 'weak', 'weak_odr', 'private', 'external', 'hidden', 'comdat',
         'nonlazybind', 'cold', 'available_externally', 'extern_weak', 'noinline', 'fastcc', 'ccc',
         'immutable', 'constant', 'global', 'thread_local', 'mustprogress'}
PATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'memory',
          'captures', 'range', 'elementtype', 'allocsize', 'allockind'}


def parse_type(lx):
    k, v = lx.next()
    t = None
    if k == 'word':
        if v == 'ptr':
            t = PTR
        elif v == 'void':
            t = VOID
        elif re.fullmatch(r'i\d+', v):
            t = ('int', int(v[1:]))
        elif v in ('double', 'float', 'x86_fp80'):
            t = ('float', {'double': 64, 'float': 32, 'x86_fp80': 80}[v])
        elif v == 'metadata':
            t = ('meta',)
        elif v == 'label':
            t = ('label',)
        elif v == 'opaque':
            t = ('opaque',)
        else:
            raise IRError('type? ' + v)
    elif k == 'id' and v[0] == '%':
        t = ('struct', v[1:])
    elif v == '[':
        n = int(lx.next()[1])
        lx.expect('x')
        e = parse_type(lx)
        lx.expect(']')
        t = ('arr', n, e)
    elif v == '{':
        el = []
        if not lx.accept('}'):
            while True:
                el.append(parse_type(lx))
                if lx.accept('}'):
                    break
                lx.expect(',')
        t = ('lit', tuple(el), False)
    elif v == '<':
        if lx.peek()[1] == '{':
            lx.next()
            el = []
            if not lx.accept('}'):
                while True:
                    el.append(parse_type(lx))
                    if lx.accept('}'):
                        break
                    lx.expect(',')
            lx.expect('>')
            t = ('lit', tuple(el), True)
        else:
            n = int(lx.next()[1])
            lx.expect('x')
            e = parse_type(lx)
            lx.expect('>')
            t = ('vec', n, e)
    else:
        raise IRError('type? %r' % v)
    # function type: T (args)
    if lx.peek()[1] == '(' and t[0] != 'label':
        # caller context decides; only treat as function type when followed by types
        pass
    return t


def skip_attrs(lx, out=None):
    while True:
        k, v = lx.peek()
        if k == 'word' and v in ATTRS:
            lx.next()
            if out is not None:
                out[v] = True
        elif k == 'word' and v in PATTRS:
            lx.next()
            if lx.peek()[1] == '(':
                lx.next()
                if v in ('sret', 'byval', 'byref', 'elementtype'):
                    ty = parse_type(lx)
                    if out is not None:
                        out[v] = ty
                    lx.expect(')')
                else:
                    d = 1
                    while d:
                        q = lx.next()[1]
                        if q == '(':
                            d += 1
                        elif q == ')':
                            d -= 1
                        elif q == '':
                            raise IRError('attr')
            elif v == 'align':
                lx.next()
        elif k == 'attr':
            lx.next()
        elif k == 'str':
            lx.next()
            if lx.accept('='):
                lx.next()
        else:
            return


# ---------------------------------------------------------------- operands
# ('loc',name) ('glob',name) ('const',int) ('null',) ('undef',) ('zero',)
# ('gep',srcty,op,[ (ty,op) ]) ('cast',kind,fromty,op,toty) ('agg',[(ty,op)]) ('str',bytes) ('true'/'false')
def parse_operand(lx, ty):
    k, v = lx.next()
    if k == 'id':
        return ('loc', v[1:]) if v[0] == '%' else ('glob', v[1:])
    if k == 'num':
        if '.' in v:
            return ('fconst', v)
        return ('const', int(v))
    if k == 'hexf':
        return ('fconst', v)
    if k == 'cstr':
        return ('str', decode_cstr(v))
    if k == 'word':
        if v == 'true':
            return ('const', 1)
        if v == 'false':
            return ('const', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'getelementptr':
            while lx.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                lx.next()
            lx.expect('(')
            st = parse_type(lx)
            lx.expect(',')
            parse_type(lx)
            base = parse_operand(lx, PTR)
            idx = []
            while lx.accept(','):
                if lx.peek()[1] == 'inrange':
                    lx.next()
                it = parse_type(lx)
                idx.append((it, parse_operand(lx, it)))
            lx.expect(')')
            return ('gep', st, base, idx)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            lx.expect('(')
            ft = parse_type(lx)
            op = parse_operand(lx, ft)
            lx.expect('to')
            tt = parse_type(lx)
            lx.expect(')')
            return ('cast', v, ft, op, tt)
        if v in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            while lx.peek()[1] in ('nuw', 'nsw'):
                lx.next()
            lx.expect('(')
            t1 = parse_type(lx)
            a = parse_operand(lx, t1)
            lx.expect(',')
            t2 = parse_type(lx)
            b = parse_operand(lx, t2)
            lx.expect(')')
            return ('cbin', v, t1, a, b)
    if v in ('{', '[') or v == '<':
        close = {'{': '}', '[': ']', '<': '>'}[v]
        el = []
        if v == '<' and lx.peek()[1] == '{':
            lx.next()
            while not lx.accept('}'):
                et = parse_type(lx)
                el.append((et, parse_operand(lx, et)))
                lx.accept(',')
            lx.expect('>')
            return ('agg', el)
        while not lx.accept(close):
            et = parse_type(lx)
            el.append((et, parse_operand(lx, et)))
            lx.accept(',')
        return ('agg', el)
    raise IRError('operand? %r %r' % (k, v))


def decode_cstr(v):
    body = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        c = body[i]
        if c == '\\':
            if body[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(body[i + 1:i + 3], 16))
                i += 3
        else:
            out.extend(c.encode('utf-8'))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'extra', 'line', 'dbg')

    def __init__(self, op, res=None, ty=None, ops=(), extra=None):
        self.op, self.res, self.ty, self.ops, self.extra = op, res, ty, ops, extra
        self.line = None
        self.dbg = None

    def __repr__(self):
        return '%s = %s %s %s %s' % (self.res, self.op, self.ty, self.ops, self.extra)


class Block:
    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.term = None

    def succs(self):
        t = self.term
        if t.op == 'br':
            return [t.ops[0]] if len(t.ops) == 1 else [t.ops[1], t.ops[2]]
        if t.op == 'switch':
            return [t.extra['default']] + [b for _, b in t.extra['cases']]
        return []


class Function:
    def __init__(self, name):
        self.name = name
        self.demangled = name
        self.ret = VOID
        self.params = []  # (type, name, attrs)
        self.blocks = {}
        self.order = []
        self.module = None
        self.dbg = None
        self.raw = None
        self.vararg = False

    def entry(self):
        return self.order[0]

    def analyse(self):
        """loops: header -> set(body blocks)"""
        if hasattr(self, 'loops'):
            return
        succ = {b: [s for s in self.blocks[b].succs()] for b in self.order}
        # reachable
        seen = []
        st = [self.entry()]
        ss = set(st)
        while st:
            b = st.pop()
            seen.append(b)
            for s in succ[b]:
                if s not in ss:
                    ss.add(s)
                    st.append(s)
        self.reach = ss
        pred = {b: [] for b in ss}
        for b in ss:
            for s in succ[b]:
                pred[s].append(b)
        # dominators (iterative)
        dom = {b: set(ss) for b in ss}
        dom[self.entry()] = {self.entry()}
        ch = True
        order = [b for b in self.order if b in ss]
        while ch:
            ch = False
            for b in order:
                if b == self.entry():
                    continue
                ps = [dom[p] for p in pred[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.dom = dom
        self.pred = pred
        loops = {}
        for b in ss:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stk.extend(pred[x])
        self.loops = loops


class Module:
    def __init__(self, path):
        self.path = path
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self.parse(open(path, encoding='utf-8').read())

    # ------------------------------------------------------------ top level
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] in ';$' or l.startswith(('source_filename', 'target ', 'attributes', 'module asm')):
                i += 1
                continue
            if l[0] == '%':
                m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)$', l)
                nm = m.group(1).strip('"')
                if m.group(2) == 'opaque':
                    self.structs[nm] = None
                else:
                    self.structs[nm] = parse_type(Lexer(m.group(2)))
                i += 1
            elif l[0] == '@':
                self.parse_global(l)
                i += 1
            elif l[0] == '!':
                m = re.match(r'!([\w.]+) = (.*)$', l)
                if m:
                    self.md[m.group(1)] = m.group(2)
                i += 1
            elif l.startswith('declare'):
                f = self.parse_header(l)
                self.decls[f.name] = f
                i += 1
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = self.parse_header(l)
                f.raw = lines[i + 1:j]
                f.module = self
                self.funcs[f.name] = f
                i = j + 1
            else:
                raise IRError('toplevel: ' + l[:80])

    def parse_global(self, l):
        l2 = re.sub(r', (!dbg|comdat|align|section|partition)\b.*$', '', l)
        m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l2)
        nm = m.group(1).strip('"')
        rest = m.group(2)
        if ' alias ' in ' ' + rest or rest.startswith('alias '):
            mm = re.search(r'ptr @("[^"]*"|[-\w.$]+)$', rest)
            self.globals[nm] = {'alias': mm.group(1).strip('"')} if mm else {}
            return
        isconst = bool(re.search(r'\bconstant\b', rest))
        mm = re.match(r'(?:.*?)\b(global|constant) (.*)$', rest)
        g = {'const': isconst, 'ty': None, 'init': None, 'text': mm.group(2) if mm else ''}
        if mm:
            try:
                lx = Lexer(mm.group(2))
                g['ty'] = parse_type(lx)
                if not lx.eof():
                    g['init'] = parse_operand(lx, g['ty'])
            except IRError:
                pass
        self.globals[nm] = g

    def parse_header(self, l):
        m = re.search(r'!dbg !(\d+)', l)
        dbg = m.group(1) if m else None
        l = re.sub(r'\s+!dbg !\d+', '', l)
        l = re.sub(r'\{\s*$', '', l)
        l = re.sub(r' comdat(\(\$("[^"]*"|[-\w.$]+)\))?', '', l)
        lx = Lexer(l)
        lx.next()
        skip_attrs(lx)
        ret = parse_type(lx)
        skip_attrs(lx)
        k, v = lx.next()
        if k != 'id':
            raise IRError('header: ' + l[:120])
        f = Function(v[1:])
        f.ret = ret
        f.dbg = dbg
        lx.expect('(')
        idx = 0
        while not lx.accept(')'):
            if lx.accept('...'):
                f.vararg = True
                continue
            t = parse_type(lx)
            at = {}
            skip_attrs(lx, at)
            nm = str(idx)
            if lx.peek()[0] == 'id':
                nm = lx.next()[1][1:]
            f.params.append((t, nm, at))
            idx += 1
            lx.accept(',')
        return f

    # ------------------------------------------------------------ bodies
    def body(self, f):
        if f.blocks:
            return f
        # entry label: first line is "entry:" with names kept
        cur = None
        raw = f.raw
        i = 0
        while i < len(raw):
            l = raw[i]
            if not l.strip() or l.lstrip().startswith(';'):
                i += 1
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m and not l.startswith(' '):
                nm = m.group(1).strip('"')
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
                i += 1
                continue
            if cur is None:
                cur = Block('entry0')
                f.blocks['entry0'] = cur
                f.order.append('entry0')
            # join switch
            if re.match(r'\s+switch ', l) and '[' in l and ']' not in l:
                j = i
                while ']' not in raw[j]:
                    j += 1
                l = ' '.join(x.strip() for x in raw[i:j + 1])
                i = j
            ins = self.parse_instr(l)
            if ins is not None:
                if ins.op == 'phi':
                    cur.phis.append(ins)
                elif ins.op in ('br', 'switch', 'ret', 'unreachable'):
                    cur.term = ins
                else:
                    cur.ins.append(ins)
            i += 1
        f.analyse()
        return f

    def parse_instr(self, l):
        dbg = None
        m = re.search(r', !dbg !(\d+)', l)
        if m:
            dbg = m.group(1)
        l = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*$', '', l)
        l = l.strip()
        if 'llvm.dbg.' in l or 'llvm.lifetime' in l or 'llvm.stack' in l:
            return None
        res = None
        m = re.match(r'^%("[^"]*"|[-\w.$]+) = (.*)$', l)
        if m:
            res = m.group(1).strip('"')
            l = m.group(2)
        ins = self._instr(l, res)
        ins.dbg = dbg
        ins.line = self.line_of(dbg)
        return ins

    def line_of(self, dbg):
        if dbg and dbg in self.md:
            m = re.search(r'line: (\d+)', self.md[dbg])
            if m:
                return int(m.group(1))
        return None

    def file_of(self, dbg):
        """source file of a DILocation / DISubprogram scope"""
        seen = 0
        while dbg and dbg in self.md and seen < 20:
            t = self.md[dbg]
            m = re.search(r'\bfile: !(\d+)', t)
            if m and 'DIFile' in self.md.get(m.group(1), ''):
                mm = re.search(r'filename: "([^"]*)"', self.md[m.group(1)])
                return mm.group(1) if mm else None
            m = re.search(r'\bscope: !(\d+)', t)
            dbg = m.group(1) if m else None
            seen += 1
        return None

    def _instr(self, l, res):
        lx = Lexer(l)
        k, op = lx.next()
        if op in ('tail', 'musttail', 'notail'):
            k, op = lx.next()

        def tyop():
            t = parse_type(lx)
            return t, parse_operand(lx, t)
        if op == 'alloca':
            if lx.peek()[1] == 'inalloca':
                lx.next()
            t = parse_type(lx)
            cnt = None
            if lx.accept(','):
                if lx.peek()[1] != 'align':
                    cnt = tyop()
            return Instr('alloca', res, t, (cnt,))
        if op == 'load':
            at = None
            if lx.accept('atomic'):
                at = True
            lx.accept('volatile')
            t = parse_type(lx)
            lx.expect(',')
            _, p = tyop()
            o = None
            if at:
                o = lx.next()[1]
            return Instr('load', res, t, (p,), {'atomic': o})
        if op == 'store':
            at = None
            if lx.accept('atomic'):
                at = True
            lx.accept('volatile')
            t, v = tyop()
            lx.expect(',')
            _, p = tyop()
            o = None
            if at:
                o = lx.next()[1]
            return Instr('store', None, t, (v, p), {'atomic': o})
        if op == 'getelementptr':
            while lx.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                lx.next()
            st = parse_type(lx)
            lx.expect(',')
            _, base = tyop()
            idx = []
            while lx.accept(','):
                it = parse_type(lx)
                idx.append((it, parse_operand(lx, it)))
            return Instr('gep', res, st, (base, idx))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv'):
            flags = []
            while lx.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
                flags.append(lx.next()[1])
            t = parse_type(lx)
            a = parse_operand(lx, t)
            lx.expect(',')
            b = parse_operand(lx, t)
            return Instr('bin', res, t, (a, b), {'op': op, 'flags': flags})
        if op in ('icmp', 'fcmp'):
            pred = lx.next()[1]
            t = parse_type(lx)
            a = parse_operand(lx, t)
            lx.expect(',')
            b = parse_operand(lx, t)
            return Instr(op, res, t, (a, b), pred)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            while lx.peek()[1] in ('nneg', 'nuw', 'nsw'):
                lx.next()
            t, a = tyop()
            lx.expect('to')
            t2 = parse_type(lx)
            return Instr('cast', res, t2, (a,), {'op': op, 'from': t})
        if op == 'select':
            t, c = tyop()
            lx.expect(',')
            t1, a = tyop()
            lx.expect(',')
            _, b = tyop()
            return Instr('select', res, t1, (c, a, b))
        if op == 'phi':
            t = parse_type(lx)
            inc = []
            while True:
                lx.expect('[')
                v = parse_operand(lx, t)
                lx.expect(',')
                b = lx.next()[1][1:]
                lx.expect(']')
                inc.append((v, b))
                if not lx.accept(','):
                    break
            return Instr('phi', res, t, (), inc)
        if op == 'br':
            if lx.accept('label'):
                return Instr('br', None, None, (lx.next()[1][1:],))
            t, c = tyop()
            lx.expect(',')
            lx.expect('label')
            a = lx.next()[1][1:]
            lx.expect(',')
            lx.expect('label')
            b = lx.next()[1][1:]
            return Instr('br', None, None, (c, a, b))
        if op == 'switch':
            t, c = tyop()
            lx.expect(',')
            lx.expect('label')
            d = lx.next()[1][1:]
            lx.expect('[')
            cases = []
            while not lx.accept(']'):
                ct = parse_type(lx)
                cv = parse_operand(lx, ct)
                lx.expect(',')
                lx.expect('label')
                cases.append((cv[1], lx.next()[1][1:]))
            return Instr('switch', None, t, (c,), {'default': d, 'cases': cases})
        if op == 'ret':
            if lx.peek()[1] == 'void':
                return Instr('ret', None, VOID, ())
            t, v = tyop()
            return Instr('ret', None, t, (v,))
        if op == 'unreachable':
            return Instr('unreachable')
        if op == 'call':
            skip_attrs(lx)
            t = parse_type(lx)
            if lx.peek()[1] == '(' :
                # function type for varargs: T (argtypes...) @f
                d = 0
                while True:
                    q = lx.next()[1]
                    if q == '(':
                        d += 1
                    elif q == ')':
                        d -= 1
                        if d == 0:
                            break
            if lx.peek()[1] == 'asm':
                return Instr('unsupported', res, t, (), 'asm')
            callee = parse_operand(lx, PTR)
            lx.expect('(')
            args = []
            while not lx.accept(')'):
                at = parse_type(lx)
                attrs = {}
                skip_attrs(lx, attrs)
                if at == ('meta',):
                    # metadata operand
                    d = 0
                    while not (d == 0 and lx.peek()[1] in (',', ')')):
                        q = lx.next()[1]
                        if q == '(':
                            d += 1
                        elif q == ')':
                            d -= 1
                    args.append((at, None, attrs))
                else:
                    args.append((at, parse_operand(lx, at), attrs))
                lx.accept(',')
            return Instr('call', res, t, (callee, args))
        if op == 'atomicrmw':
            lx.accept('volatile')
            rop = lx.next()[1]
            _, p = tyop()
            lx.expect(',')
            t, v = tyop()
            o = lx.next()[1]
            return Instr('atomicrmw', res, t, (p, v), {'op': rop, 'order': o})
        if op == 'cmpxchg':
            while lx.peek()[1] in ('weak', 'volatile'):
                lx.next()
            _, p = tyop()
            lx.expect(',')
            t, c = tyop()
            lx.expect(',')
            _, v = tyop()
            o = lx.next()[1]
            o2 = lx.next()[1]
            return Instr('cmpxchg', res, t, (p, c, v), {'order': o, 'forder': o2})
        if op == 'extractvalue':
            t, a = tyop()
            idx = []
            while lx.accept(','):
                idx.append(int(lx.next()[1]))
            return Instr('extractvalue', res, t, (a,), idx)
        if op == 'insertvalue':
            t, a = tyop()
            lx.expect(',')
            t2, b = tyop()
            idx = []
            while lx.accept(','):
                idx.append(int(lx.next()[1]))
            return Instr('insertvalue', res, t, (a, b), idx)
        if op == 'fence':
            return Instr('fence', None, None, (), l)
        if op == 'freeze':
            t, a = tyop()
            return Instr('freeze', res, t, (a,))
        if op == 'fneg':
            t, a = tyop()
            return Instr('unsupported', res, t, (), 'fneg')
        if op == 'va_arg':
            return Instr('unsupported', res, None, (), l)
        raise IRError('instruction: ' + l[:120])


class Program:
    """All translation units; demangled names; struct layouts; DI field names."""

    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.structs = {}
        for m in self.mods:
            for k, v in m.structs.items():
                if self.structs.get(k) is None:
                    self.structs[k] = v
                elif v is not None and self.structs[k] != v:
                    # same name, different TU numbering (e.g. std::allocator.9)
                    pass
        names = set()
        for m in self.mods:
            names |= set(m.funcs) | set(m.decls)
        names = sorted(names)
        out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        for m in self.mods:
            for d in (m.funcs, m.decls):
                for k, f in d.items():
                    f.demangled = self.dem.get(k, k)
                    f.module = m
        self._members = None

    def find(self, mangled, mod=None):
        if mod is not None and mangled in mod.funcs:
            return mod.funcs[mangled]
        if mod is not None and mangled in mod.globals and 'alias' in mod.globals[mangled]:
            return self.find(mod.globals[mangled]['alias'], mod)
        for m in self.mods:
            if mangled in m.funcs and not self._internal(m.funcs[mangled]):
                return m.funcs[mangled]
        for m in self.mods:
            if mangled in m.globals and 'alias' in m.globals[mangled]:
                return self.find(m.globals[mangled]['alias'], m)
        return None

    def _internal(self, f):
        return False

    def by_demangled(self, pat):
        """functions with a body whose demangled name matches regex pat (fullmatch on prefix up to '(')"""
        r = []
        seen = set()
        for m in self.mods:
            for f in m.funcs.values():
                if re.search(pat, f.demangled) and f.name not in seen:
                    seen.add(f.name)
                    r.append(f)
        return r

    # ---------------------------------------------------- layout
    def size_align(self, t, mod=None):
        k = t[0]
        if k == 'int':
            w = t[1]
            s = 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16
            return s, min(s, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'float':
            return {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
        if k == 'arr':
            s, a = self.size_align(t[2], mod)
            return s * t[1], a
        if k == 'struct':
            b = (mod.structs.get(t[1]) if mod else None) or self.structs.get(t[1])
            if b is None:
                raise IRError('opaque struct ' + t[1])
            return self.size_align(b, mod)
        if k == 'lit':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e, mod)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise IRError('size of %r' % (t,))

    def fields(self, t, mod=None):
        """struct type -> list of (type, offset)"""
        if t[0] == 'struct':
            b = (mod.structs.get(t[1]) if mod else None) or self.structs.get(t[1])
            if b is None:
                raise IRError('opaque struct ' + t[1])
            t = b
        off = 0
        r = []
        for e in t[1]:
            s, a = self.size_align(e, mod)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            r.append((e, off))
            off += s
        return r

    # ---------------------------------------------------- debug-info members
    def members(self):
        """{(class simple name) : {member name: (offset bytes, size bytes)}} over all DICompositeTypes of lsmdb"""
        if self._members is not None:
            return self._members
        res = {}
        for m in self.mods:
            comp = {}
            for k, v in m.md.items():
                if 'DICompositeType(' in v and ('DW_TAG_class_type' in v or 'DW_TAG_structure_type' in v):
                    comp[k] = v
            for k, v in m.md.items():
                if 'DIDerivedType(tag: DW_TAG_member' in v and 'DIFlagStaticMember' not in v:
                    s = re.search(r'scope: !(\d+)', v)
                    if not s or s.group(1) not in comp:
                        continue
                    cn = re.search(r'name: "([^"]*)"', comp[s.group(1)])
                    nm = re.search(r'\bname: "([^"]*)"', v)
                    if not cn or not nm:
                        continue
                    off = re.search(r'offset: (\d+)', v)
                    sz = re.search(r'size: (\d+)', v)
                    ident = re.search(r'identifier: "([^"]*)"', comp[s.group(1)])
                    if ident and 'lsmdb' not in ident.group(1):
                        continue
                    res.setdefault(cn.group(1), {})[nm.group(1)] = (int(off.group(1)) // 8 if off else 0,
                                                                   int(sz.group(1)) // 8 if sz else 0)
        self._members = res
        return res

    def virtuals(self, cls):
        """{slot: method name} from DISubprogram virtualIndex declarations of class cls"""
        res = {}
        for m in self.mods:
            comp = {k for k, v in m.md.items() if 'DICompositeType(' in v and re.search(r'\bname: "%s"' % re.escape(cls), v)}
            for k, v in m.md.items():
                if 'DISubprogram(' in v and 'virtualIndex' in v:
                    s = re.search(r'scope: !(\d+)', v)
                    if s and s.group(1) in comp:
                        nm = re.search(r'\bname: "([^"]*)"', v).group(1)
                        ix = int(re.search(r'virtualIndex: (\d+)', v).group(1))
                        res[ix] = nm
        return res

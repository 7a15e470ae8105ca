"""Machine arithmetic, in two exact encodings.

mode 'bv' : every iN is a bit-vector of width N, addresses are 64-bit vectors.
mode 'int': every iN is a mathematical integer in [0, 2^N) and every operation
            wraps exactly as the machine does; addresses are integers.
i1 is a Bool in both.
"""
import z3


def is_num(t):
    return z3.is_int_value(t) or z3.is_bv_value(t)


def num(t):
    return t.as_long()


class Arith:
    def __init__(self, mode):
        self.mode = mode
        self.bv = mode == 'bv'
        self.decider = None   # decides conditions under the current path, where the engine offers it
        self.extra = []   # facts about uninterpreted bit operations, collected per use
        if not self.bv:
            self.fand = z3.Function('bits_and', z3.IntSort(), z3.IntSort(), z3.IntSort())
            self.for_ = z3.Function('bits_or', z3.IntSort(), z3.IntSort(), z3.IntSort())
            self.fxor = z3.Function('bits_xor', z3.IntSort(), z3.IntSort(), z3.IntSort())
            self.umod = z3.Function('umod', z3.IntSort(), z3.IntSort(), z3.IntSort())

    # ---- sorts
    def isort(self, w):
        if w == 1:
            return z3.BoolSort()
        return z3.BitVecSort(w) if self.bv else z3.IntSort()

    def asort(self):
        return z3.BitVecSort(64) if self.bv else z3.IntSort()

    def const(self, v, w):
        if w == 1:
            return z3.BoolVal(bool(v & 1))
        v &= (1 << w) - 1
        return z3.BitVecVal(v, w) if self.bv else z3.IntVal(v)

    def addr(self, v):
        return z3.BitVecVal(v, 64) if self.bv else z3.IntVal(v)

    def in_range(self, t, w):
        if w == 1 or self.bv:
            return None
        if is_num(t):
            return None
        return z3.And(t >= 0, t < (1 << w))

    # ---- helpers
    def ite(self, c, a, b):
        if self.decider is not None:
            r = self.decider(c)
            if r is not None:
                return a if r else b
        return z3.If(c, a, b)

    def signed(self, t, w):
        """mathematical signed value (int mode only)"""
        if is_num(t):
            v = num(t)
            return z3.IntVal(v - (1 << w) if v >= (1 << (w - 1)) else v)
        return self.ite(t >= (1 << (w - 1)), t - (1 << w), t)

    def unsign(self, t, w):
        """wrap a mathematical integer known to be in [-2^(w-1), 2^(w-1)) back to [0,2^w)"""
        t = z3.simplify(t)
        if is_num(t):
            return z3.IntVal(num(t) % (1 << w))
        return self.ite(t < 0, t + (1 << w), t)

    def to_math(self, t, w=64):
        """unsigned mathematical integer value of an iN term"""
        if w == 1:
            return z3.If(t, z3.IntVal(1), z3.IntVal(0))
        return z3.BV2Int(t) if self.bv else t

    # ---- integer operations
    def bin(self, op, w, a, b, flags=()):
        if w == 1:
            if op == 'xor':
                return z3.Xor(a, b) if not (z3.is_true(b) or z3.is_true(a)) else (z3.Not(a) if z3.is_true(b) else z3.Not(b))
            if op == 'and':
                return z3.And(a, b)
            if op == 'or':
                return z3.Or(a, b)
            if op in ('add', 'sub'):
                return z3.Xor(a, b)
            raise NotImplementedError(op)
        if self.bv:
            return {
                'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b,
                'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b,
                'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b),
                'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
                'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()
        M = 1 << w
        if is_num(a) and is_num(b):
            x, y = num(a), num(b)
            sx = x - M if x >= M // 2 else x
            sy = y - M if y >= M // 2 else y
            import math
            if op in ('udiv', 'urem', 'sdiv', 'srem') and y == 0:
                raise ZeroDivisionError
            v = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
                 'udiv': lambda: x // y, 'urem': lambda: x % y,
                 'sdiv': lambda: int(math.copysign(abs(sx) // abs(sy), sx * sy)) if sx else 0,
                 'srem': lambda: int(math.copysign(abs(sx) % abs(sy), sx)),
                 'shl': lambda: x << y if y < w else 0, 'lshr': lambda: x >> y, 'ashr': lambda: sx >> y,
                 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]()
            return z3.IntVal(v % M)
        if op == 'add':
            if is_num(a):
                a, b = b, a
            if is_num(b):
                c = num(b)
                if c == 0:
                    return a
                if c >= M // 2:    # subtract M-c
                    d = M - c
                    return self.ite(a >= d, a - d, a + c)
                return self.ite(a < M - c, a + c, a - (M - c))
            s = a + b
            return self.ite(s < M, s, s - M)
        if op == 'sub':
            if is_num(b) and num(b) == 0:
                return a
            s = a - b
            return self.ite(s >= 0, s, s + M)
        if op == 'mul':
            if is_num(a):
                a, b = b, a
            if is_num(b):
                c = num(b)
                if c == 0:
                    return z3.IntVal(0)
                if c == 1:
                    return a
                p = a * c
                return self.ite(p < M, p, p % M)
            p = a * b
            return p % M
        if op in ('udiv', 'urem'):
            if is_num(b) and num(b) > 0:
                return a / b if op == 'udiv' else a % b
            if op == 'urem':
                r = self.umod(a, b)
                self.extra.append(z3.Implies(b > 0, z3.And(r >= 0, r < b, r <= a)))
                return r
            return a / b
        if op in ('sdiv', 'srem'):
            sa, sb = self.signed(a, w), self.signed(b, w)
            if is_num(b):
                d = num(sb)
                if d > 0:
                    q = z3.If(sa >= 0, sa / d, -((-sa) / d))
                    if op == 'sdiv':
                        return self.unsign(q, w)
                    r = z3.If(sa >= 0, sa % d, -((-sa) % d))
                    return self.unsign(r, w)
            q = z3.If(sa >= 0, z3.If(sb > 0, sa / sb, -(sa / (-sb))), z3.If(sb > 0, -((-sa) / sb), (-sa) / (-sb)))
            if op == 'sdiv':
                return self.unsign(q, w)
            return self.unsign(sa - q * sb, w)
        if op in ('shl', 'lshr', 'ashr'):
            if is_num(b):
                k = num(b)
                if k == 0:
                    return a
                if k >= w:
                    return z3.IntVal(0)
                if op == 'shl':
                    p = a * (1 << k)
                    return self.ite(p < M, p, p % M)
                if op == 'lshr':
                    return a / (1 << k)
                return self.unsign(self.signed(a, w) / (1 << k), w)
            # symbolic shift amount: power function table over [0,w)
            p = z3.IntVal(0)
            for k in range(w - 1, -1, -1):
                if op == 'shl':
                    e = (a * (1 << k)) % M
                elif op == 'lshr':
                    e = a / (1 << k)
                else:
                    e = self.unsign(self.signed(a, w) / (1 << k), w)
                p = z3.If(b == k, e, p)
            return p
        if op == 'and':
            if is_num(a):
                a, b = b, a
            if is_num(b):
                c = num(b)
                if c == 0:
                    return z3.IntVal(0)
                if c == M - 1:
                    return a
                if c & (c + 1) == 0:       # low mask
                    return a % (c + 1)
                inv = M - 1 - c
                if inv & (inv + 1) == 0:   # high mask
                    return a - a % (inv + 1)
                if c & (c - 1) == 0:       # single bit
                    return z3.If((a / c) % 2 == 1, b, z3.IntVal(0))
            r = self.fand(a, b)
            self.extra.append(z3.And(r >= 0, r <= a, r <= b))
            return r
        if op == 'or':
            if is_num(a):
                a, b = b, a
            if is_num(b):
                c = num(b)
                if c == 0:
                    return a
                if c & (c - 1) == 0:
                    return z3.If((a / c) % 2 == 1, a, a + c)
            r = self.for_(a, b)
            self.extra.append(z3.And(r >= a, r >= b, r <= a + b, r < M))
            return r
        if op == 'xor':
            if is_num(a):
                a, b = b, a
            if is_num(b) and num(b) == M - 1:
                return (M - 1) - a
            r = self.fxor(a, b)
            self.extra.append(z3.And(r >= 0, r < M, r <= a + b))
            return r
        raise NotImplementedError(op)

    def icmp(self, pred, w, a, b):
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return z3.Not(a == b)
        if w == 1:
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
            return {'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred]
        if self.bv:
            return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
                    'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y,
                    'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred](a, b)
        if pred[0] == 's':
            a, b = self.signed(a, w), self.signed(b, w)
        p = pred[1:]
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]

    def cast(self, op, t, fw, tw):
        if fw == 1:
            one = self.const(1, tw)
            zero = self.const(0, tw)
            if op == 'zext':
                return z3.If(t, one, zero)
            if op == 'sext':
                return z3.If(t, self.const(-1, tw), zero)
        if tw == 1:  # trunc
            if z3.is_app_of(t, z3.Z3_OP_ITE) and is_num(t.arg(1)) and is_num(t.arg(2)) \
                    and num(t.arg(1)) == 1 and num(t.arg(2)) == 0:
                return t.arg(0)
            if is_num(t):
                return z3.BoolVal(num(t) & 1 == 1)
            if self.bv:
                return z3.Extract(0, 0, t) == z3.BitVecVal(1, 1)
            return t % 2 == 1
        if op == 'zext':
            return z3.ZeroExt(tw - fw, t) if self.bv else t
        if op == 'sext':
            if self.bv:
                return z3.SignExt(tw - fw, t)
            if is_num(t):
                v = num(t)
                return z3.IntVal(v if v < (1 << (fw - 1)) else v + (1 << tw) - (1 << fw))
            return self.ite(t >= (1 << (fw - 1)), t + ((1 << tw) - (1 << fw)), t)
        if op == 'trunc':
            if self.bv:
                return z3.Extract(tw - 1, 0, t)
            if is_num(t):
                return z3.IntVal(num(t) % (1 << tw))
            return self.ite(t < (1 << tw), t, t % (1 << tw))
        raise NotImplementedError(op)

    # ---- addresses
    def aoff(self, a, k):
        if k == 0:
            return a
        if is_num(a):
            return self.addr((num(a) + k))
        return a + (z3.BitVecVal(k & ((1 << 64) - 1), 64) if self.bv else k)

    def aidx(self, a, idx, w, size):
        """a + signext(idx)*size"""
        if is_num(idx):
            v = num(idx)
            if v >= 1 << (w - 1):
                v -= 1 << w
            return self.aoff(a, v * size)
        if self.bv:
            if w < 64:
                idx = z3.SignExt(64 - w, idx)
            return a + idx * z3.BitVecVal(size, 64) if size != 1 else a + idx
        s = self.signed(idx, w)
        return a + s * size if size != 1 else a + s

    def ult(self, a, b):
        return z3.ULT(a, b) if self.bv else a < b

    def ule(self, a, b):
        return z3.ULE(a, b) if self.bv else a <= b

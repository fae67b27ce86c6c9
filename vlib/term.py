"""Hash-consed bit-vector terms with constant folding, a z3 back end and a
concrete evaluator.  Every term has a fixed width >= 1; booleans are width-1
terms.  Constants carry their value in [0, 2**w)."""
import sys
import z3
from z3 import z3core as zc

sys.setrecursionlimit(100000)


class T(object):
    __slots__ = ('op', 'args', 'w', 'val', 'id', '__weakref__')

    def __repr__(self):
        return show(self, 4)

    # -- operator sugar for monitors (unsigned semantics, equal widths) -----
    def _co(self, o):
        if isinstance(o, T):
            if o.w == self.w:
                return o
            raise ValueError('width mismatch %d vs %d' % (self.w, o.w))
        if isinstance(o, bool):
            o = int(o)
        return const(o, self.w)

    def __add__(self, o): return add(self, self._co(o))
    def __radd__(self, o): return add(self._co(o), self)
    def __sub__(self, o): return sub(self, self._co(o))
    def __rsub__(self, o): return sub(self._co(o), self)
    def __mul__(self, o): return mul(self, self._co(o))
    def __rmul__(self, o): return mul(self._co(o), self)
    def __and__(self, o): return and_(self, self._co(o))
    __rand__ = __and__
    def __or__(self, o): return or_(self, self._co(o))
    __ror__ = __or__
    def __xor__(self, o): return xor(self, self._co(o))
    __rxor__ = __xor__
    def __invert__(self): return not_(self)
    def __neg__(self): return neg(self)
    def eq(self, o): return eq(self, self._co(o))
    def ne(self, o): return not_(eq(self, self._co(o)))
    def ult(self, o): return ult(self, self._co(o))
    def ule(self, o): return not_(ult(self._co(o), self))
    def ugt(self, o): return ult(self._co(o), self)
    def uge(self, o): return not_(ult(self, self._co(o)))
    def slt(self, o): return slt(self, self._co(o))
    def sle(self, o): return not_(slt(self._co(o), self))
    def sgt(self, o): return slt(self._co(o), self)
    def sge(self, o): return not_(slt(self, self._co(o)))
    def __getitem__(self, i):
        if isinstance(i, slice):
            return extract(self, i.start, i.stop)
        if i < 0:
            i += self.w
        return extract(self, i, i)
    def zx(self, w): return zresize(self, w)
    def sx(self, w): return sresize(self, w)
    def nz(self): return not_(eq(self, const(0, self.w)))
    def isc(self): return self.op == 'const'

    def __bool__(self):
        if self.op == 'const':
            return self.val != 0
        raise TypeError('symbolic term used as a Python bool')


_table = {}
_cnt = [0]


def reset():
    _table.clear()
    _z3cache.clear()


def mk(op, args, w, val=None):
    key = (op, w, val) + tuple(a.id for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.w = w
        t.val = val
        _cnt[0] += 1
        t.id = _cnt[0]
        _table[key] = t
    return t


def const(v, w):
    return mk('const', (), w, int(v) & ((1 << w) - 1))


def var(name, w):
    return mk('var', (), w, name)


TRUE = None
FALSE = None


def true():
    return const(1, 1)


def false():
    return const(0, 1)


def mask(w):
    return (1 << w) - 1


def sval(t):
    v = t.val
    return v - (1 << t.w) if v >> (t.w - 1) else v


def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def isz(t):
    return t.op == 'const' and t.val == 0


def isones(t):
    return t.op == 'const' and t.val == mask(t.w)


# --------------------------------------------------------------------- ops
def ite(c, a, b):
    if c.op == 'const':
        return a if c.val else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.w == 1:
        if a.op == 'const':
            return or_(c, b) if a.val else and_(not_(c), b)
        if b.op == 'const':
            return or_(not_(c), a) if b.val else and_(c, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # ite(c, a, ite(d, a, e)) -> ite(c|d, a, e)
    if b.op == 'ite':
        if b.args[1] is a:
            return ite(or_(c, b.args[0]), a, b.args[2])
        if b.args[2] is a:
            return ite(or_(c, not_(b.args[0])), a, b.args[1])
    if a.op == 'ite':
        if a.args[2] is b:
            return ite(and_(c, a.args[0]), a.args[1], b)
        if a.args[1] is b:
            return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if a.w != b.w:
        raise ValueError('ite width %d %d' % (a.w, b.w))
    return mk('ite', (c, a, b), a.w)


def not_(a):
    if a.op == 'const':
        return const(~a.val, a.w)
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), a.w)


def _w(a, b):
    if a.w != b.w:
        raise ValueError('width mismatch %d %d (%r, %r)' % (a.w, b.w, a, b))


def and_(a=None, b=None, *more):
    if b is None:
        return a if a is not None else true()
    if more:
        return and_(and_(a, b), *more)
    _w(a, b)
    if a.op == 'const' and b.op == 'const':
        return const(a.val & b.val, a.w)
    if isz(a) or isz(b):
        return const(0, a.w)
    if isones(a):
        return b
    if isones(b):
        return a
    if a is b:
        return a
    if (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a):
        return const(0, a.w)
    if a.w == 1:
        # absorption one level
        if b.op == 'and' and (b.args[0] is a or b.args[1] is a):
            return b
        if a.op == 'and' and (a.args[0] is b or a.args[1] is b):
            return a
        if b.op == 'or' and (b.args[0] is a or b.args[1] is a):
            return a
        if a.op == 'or' and (a.args[0] is b or a.args[1] is b):
            return b
        na = not_(a)
        if b.op == 'and' and (b.args[0] is na or b.args[1] is na):
            return const(0, 1)
        nb = not_(b)
        if a.op == 'and' and (a.args[0] is nb or a.args[1] is nb):
            return const(0, 1)
        if b.op == 'or':
            if b.args[0] is na:
                return and_(a, b.args[1])
            if b.args[1] is na:
                return and_(a, b.args[0])
        if a.op == 'or':
            if a.args[0] is nb:
                return and_(b, a.args[1])
            if a.args[1] is nb:
                return and_(b, a.args[0])
        # x==c1 & x==c2
        if a.op == 'eq' and b.op == 'eq' and a.args[0] is b.args[0] and \
                a.args[1].op == 'const' and b.args[1].op == 'const':
            return const(0, 1)
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b), a.w)


def or_(a=None, b=None, *more):
    if b is None:
        return a if a is not None else false()
    if more:
        return or_(or_(a, b), *more)
    _w(a, b)
    if a.op == 'const' and b.op == 'const':
        return const(a.val | b.val, a.w)
    if isones(a) or isones(b):
        return const(-1, a.w)
    if isz(a):
        return b
    if isz(b):
        return a
    if a is b:
        return a
    if (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a):
        return const(-1, a.w)
    if a.w == 1:
        if b.op == 'or' and (b.args[0] is a or b.args[1] is a):
            return b
        if a.op == 'or' and (a.args[0] is b or a.args[1] is b):
            return a
        if b.op == 'and' and (b.args[0] is a or b.args[1] is a):
            return a
        if a.op == 'and' and (a.args[0] is b or a.args[1] is b):
            return b
        na, nb = not_(a), not_(b)
        if b.op == 'or' and (b.args[0] is na or b.args[1] is na):
            return const(1, 1)
        if a.op == 'or' and (a.args[0] is nb or a.args[1] is nb):
            return const(1, 1)
        if b.op == 'and':
            if b.args[0] is na:
                return or_(a, b.args[1])
            if b.args[1] is na:
                return or_(a, b.args[0])
        if a.op == 'and':
            if a.args[0] is nb:
                return or_(b, a.args[1])
            if a.args[1] is nb:
                return or_(b, a.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk('or', (a, b), a.w)


def xor(a, b):
    _w(a, b)
    if a.op == 'const' and b.op == 'const':
        return const(a.val ^ b.val, a.w)
    if isz(a):
        return b
    if isz(b):
        return a
    if isones(a):
        return not_(b)
    if isones(b):
        return not_(a)
    if a is b:
        return const(0, a.w)
    if a.id > b.id:
        a, b = b, a
    return mk('xor', (a, b), a.w)


def _ite_consts(t):
    return t.op == 'ite' and t.args[1].op == 'const' and t.args[2].op == 'const'


def _leafy(t, n=12):
    """ite tree with constant leaves (bounded)"""
    k = 0
    st = [t]
    while st:
        x = st.pop()
        if x.op == 'const':
            k += 1
            if k > n:
                return False
        elif x.op == 'ite':
            st.append(x.args[1])
            st.append(x.args[2])
            if len(st) > n:
                return False
        else:
            return False
    return True


def add(a, b):
    _w(a, b)
    if a.op == 'const' and b.op == 'const':
        return const(a.val + b.val, a.w)
    if isz(a):
        return b
    if isz(b):
        return a
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        if a.op == 'add' and a.args[1].op == 'const':
            return add(a.args[0], const(a.args[1].val + b.val, a.w))
        if a.op == 'ite' and _leafy(a):
            return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    elif a.id > b.id:
        a, b = b, a
    return mk('add', (a, b), a.w)


def neg(a):
    if a.op == 'const':
        return const(-a.val, a.w)
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,), a.w)


def sub(a, b):
    _w(a, b)
    if b.op == 'const':
        return add(a, const(-b.val, a.w))
    if a is b:
        return const(0, a.w)
    if isz(a):
        return neg(b)
    return mk('sub', (a, b), a.w)


def mul(a, b):
    _w(a, b)
    if a.op == 'const' and b.op == 'const':
        return const(a.val * b.val, a.w)
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        if b.val == 0:
            return b
        if b.val == 1:
            return a
        if b.val & (b.val - 1) == 0:
            return shl(a, const(b.val.bit_length() - 1, a.w))
    elif a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), a.w)


def udiv(a, b):
    _w(a, b)
    if b.op == 'const' and b.val == 1:
        return a
    if b.op == 'const' and b.val and b.val & (b.val - 1) == 0:
        return lshr(a, const(b.val.bit_length() - 1, a.w))
    if a.op == 'const' and b.op == 'const':
        return const(mask(a.w) if b.val == 0 else a.val // b.val, a.w)
    return mk('udiv', (a, b), a.w)


def urem(a, b):
    _w(a, b)
    if b.op == 'const' and b.val and b.val & (b.val - 1) == 0:
        return and_(a, const(b.val - 1, a.w))
    if a.op == 'const' and b.op == 'const':
        return const(a.val if b.val == 0 else a.val % b.val, a.w)
    return mk('urem', (a, b), a.w)


def _tdiv(x, y):
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q


def sdiv(a, b):
    _w(a, b)
    if a.op == 'const' and b.op == 'const':
        x, y = sval(a), sval(b)
        if y == 0:
            return const(1 if x < 0 else -1, a.w)
        return const(_tdiv(x, y), a.w)
    return mk('sdiv', (a, b), a.w)


def srem(a, b):
    _w(a, b)
    if a.op == 'const' and b.op == 'const':
        x, y = sval(a), sval(b)
        if y == 0:
            return a
        return const(x - y * _tdiv(x, y), a.w)
    return mk('srem', (a, b), a.w)


def shl(a, b):
    _w(a, b)
    if b.op == 'const':
        n = b.val
        if n == 0:
            return a
        if n >= a.w:
            return const(0, a.w)
        return concat(extract(a, a.w - 1 - n, 0), const(0, n))
    if isz(a):
        return a
    return mk('shl', (a, b), a.w)


def lshr(a, b):
    _w(a, b)
    if b.op == 'const':
        n = b.val
        if n == 0:
            return a
        if n >= a.w:
            return const(0, a.w)
        return concat(const(0, n), extract(a, a.w - 1, n))
    if isz(a):
        return a
    return mk('lshr', (a, b), a.w)


def ashr(a, b):
    _w(a, b)
    if b.op == 'const':
        n = min(b.val, a.w - 1)
        if n == 0:
            return a
        return sresize(extract(a, a.w - 1, n), a.w)
    return mk('ashr', (a, b), a.w)


def eq(a, b):
    _w(a, b)
    if a is b:
        return true()
    if a.op == 'const' and b.op == 'const':
        return const(a.val == b.val, 1)
    if a.w == 1:
        return not_(xor(a, b))
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        if a.op == 'ite':
            x, y = a.args[1], a.args[2]
            if x.op == 'const' or y.op == 'const' or _leafy(a):
                return ite(a.args[0], eq(x, b), eq(y, b))
        elif a.op == 'concat':
            r = true()
            hi = a.w
            for p in a.args:
                lo = hi - p.w
                r = and_(r, eq(p, const(b.val >> lo, p.w)))
                hi = lo
                if isz(r):
                    return r
            return r
        elif a.op == 'add' and a.args[1].op == 'const':
            return eq(a.args[0], const(b.val - a.args[1].val, a.w))
        elif a.op == 'not':
            return eq(a.args[0], const(~b.val, a.w))
    elif a.op == 'concat' and b.op == 'concat' and len(a.args) == len(b.args) \
            and all(x.w == y.w for x, y in zip(a.args, b.args)):
        r = true()
        for x, y in zip(a.args, b.args):
            r = and_(r, eq(x, y))
        return r
    elif a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
    elif a.op == 'ite' and (a.args[1] is b or a.args[2] is b):
        if a.args[1] is b:
            return or_(a.args[0], eq(a.args[2], b))
        return or_(not_(a.args[0]), eq(a.args[1], b))
    elif b.op == 'ite' and (b.args[1] is a or b.args[2] is a):
        return eq(b, a)
    if b.op != 'const' and a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 1)


def ult(a, b):
    _w(a, b)
    if a is b:
        return false()
    if a.op == 'const' and b.op == 'const':
        return const(a.val < b.val, 1)
    if isz(b) or isones(a):
        return false()
    if isz(a):
        return not_(eq(b, a))
    if b.op == 'const' and b.val == 1:
        return eq(a, const(0, a.w))
    if a.w == 1:
        return and_(not_(a), b)
    # strip common zero-extension
    if a.op == 'concat' and b.op == 'concat' and isz(a.args[0]) and isz(b.args[0]):
        n = min(a.args[0].w, b.args[0].w)
        return ult(extract(a, a.w - 1 - n, 0), extract(b, b.w - 1 - n, 0))
    if a.op == 'concat' and isz(a.args[0]) and b.op == 'const':
        k = a.w - a.args[0].w
        if b.val >> k:
            return true()
        return ult(extract(a, k - 1, 0), const(b.val, k))
    if b.op == 'concat' and isz(b.args[0]) and a.op == 'const':
        k = b.w - b.args[0].w
        if a.val >> k:
            return false()
        return ult(const(a.val, k), extract(b, k - 1, 0))
    if b.op == 'const' and a.op == 'ite' and _leafy(a):
        return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if a.op == 'const' and b.op == 'ite' and _leafy(b):
        return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
    return mk('ult', (a, b), 1)


def slt(a, b):
    _w(a, b)
    if a is b:
        return false()
    if a.op == 'const' and b.op == 'const':
        return const(sval(a) < sval(b), 1)
    if isz(b):
        return extract(a, a.w - 1, a.w - 1)
    # both provably non-negative
    def nonneg(t):
        return (t.op == 'const' and not t.val >> (t.w - 1)) or \
            (t.op == 'concat' and isz(t.args[0]))
    if nonneg(a) and nonneg(b):
        return ult(a, b)
    if b.op == 'const' and a.op == 'ite' and _leafy(a):
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if a.op == 'const' and b.op == 'ite' and _leafy(b):
        return ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    return mk('slt', (a, b), 1)


def ule(a, b): return not_(ult(b, a))
def sle(a, b): return not_(slt(b, a))


def extract(a, hi, lo):
    if hi < lo or lo < 0 or hi >= a.w:
        raise ValueError('bad extract [%d:%d] of width %d' % (hi, lo, a.w))
    w = hi - lo + 1
    if w == a.w:
        return a
    if a.op == 'const':
        return const(a.val >> lo, w)
    if a.op == 'extract':
        b, l2 = a.args[0], a.val
        return extract(b, hi + l2, lo + l2)
    if a.op == 'concat':
        parts = []
        top = a.w
        for p in a.args:
            bot = top - p.w
            h, l = min(hi, top - 1), max(lo, bot)
            if h >= l:
                parts.append(extract(p, h - bot, l - bot))
            top = bot
        return concat(*parts)
    if a.op == 'sext':
        b = a.args[0]
        if hi < b.w:
            return extract(b, hi, lo)
        if lo >= b.w - 1:
            return sresize(extract(b, b.w - 1, b.w - 1), w)
        if lo < b.w:
            return sresize(extract(b, b.w - 1, lo), w)
    if a.op == 'ite' and (a.args[1].op == 'const' or a.args[2].op == 'const'
                          or a.args[1].op == 'concat' and a.args[2].op == 'concat'):
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if a.op in ('and', 'or', 'xor') and (a.args[0].op == 'const' or a.args[1].op == 'const' or w == 1):
        f = {'and': and_, 'or': or_, 'xor': xor}[a.op]
        return f(extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    if a.op == 'not':
        return not_(extract(a.args[0], hi, lo))
    if lo == 0 and a.op in ('add', 'sub', 'mul'):
        f = {'add': add, 'sub': sub, 'mul': mul}[a.op]
        return f(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
    if lo == 0 and a.op == 'neg':
        return neg(extract(a.args[0], hi, 0))
    return mk('extract', (a,), w, lo)


def concat(*ps):
    out = []
    for p in ps:
        if p.op == 'concat':
            out.extend(p.args)
        else:
            out.append(p)
    # merge adjacent
    res = [out[0]]
    for p in out[1:]:
        q = res[-1]
        if p.op == 'const' and q.op == 'const':
            res[-1] = const((q.val << p.w) | p.val, q.w + p.w)
        elif p.op == 'extract' and q.op == 'extract' and p.args[0] is q.args[0] \
                and q.val == p.val + p.w:
            res[-1] = extract(p.args[0], q.val + q.w - 1, p.val)
        else:
            res.append(p)
    if len(res) == 1:
        return res[0]
    return mk('concat', tuple(res), sum(p.w for p in res))


def zresize(a, w):
    if w == a.w:
        return a
    if w < a.w:
        return extract(a, w - 1, 0)
    return concat(const(0, w - a.w), a)


def sresize(a, w):
    if w == a.w:
        return a
    if w < a.w:
        return extract(a, w - 1, 0)
    if a.op == 'const':
        return const(sval(a), w)
    if a.op == 'concat' and isz(a.args[0]):
        return zresize(a, w)
    if a.op == 'sext':
        return sresize(a.args[0], w)
    if a.op == 'ite' and _leafy(a):
        return ite(a.args[0], sresize(a.args[1], w), sresize(a.args[2], w))
    return mk('sext', (a,), w)


def redand(a): return eq(a, const(-1, a.w))
def redor(a): return not_(eq(a, const(0, a.w)))


def redxor(a):
    r = extract(a, 0, 0)
    for i in range(1, a.w):
        r = xor(r, extract(a, i, i))
    return r


def conj(ts):
    r = true()
    for t in ts:
        r = and_(r, t)
    return r


def disj(ts):
    r = false()
    for t in ts:
        r = or_(r, t)
    return r


def implies(a, b):
    return or_(not_(a), b)


def select(items, idx, default=None):
    """items[idx] with idx a term"""
    if idx.op == 'const':
        if idx.val < len(items):
            return items[idx.val]
        return default if default is not None else items[-1]
    r = default if default is not None else items[-1]
    n = min(len(items), 1 << idx.w)
    for i in reversed(range(n)):
        r = ite(eq(idx, const(i, idx.w)), items[i], r)
    return r


BUILD = {
    'ite': lambda t, a: ite(*a), 'not': lambda t, a: not_(*a), 'and': lambda t, a: and_(*a),
    'or': lambda t, a: or_(*a), 'xor': lambda t, a: xor(*a), 'add': lambda t, a: add(*a),
    'sub': lambda t, a: sub(*a), 'neg': lambda t, a: neg(*a), 'mul': lambda t, a: mul(*a),
    'udiv': lambda t, a: udiv(*a), 'urem': lambda t, a: urem(*a), 'sdiv': lambda t, a: sdiv(*a),
    'srem': lambda t, a: srem(*a), 'shl': lambda t, a: shl(*a), 'lshr': lambda t, a: lshr(*a),
    'ashr': lambda t, a: ashr(*a), 'eq': lambda t, a: eq(*a), 'ult': lambda t, a: ult(*a),
    'slt': lambda t, a: slt(*a), 'concat': lambda t, a: concat(*a),
    'extract': lambda t, a: extract(a[0], t.val + t.w - 1, t.val),
    'sext': lambda t, a: sresize(a[0], t.w),
}


def rewrite(roots, sub, memo=None):
    """substitute {term: term} bottom-up, re-simplifying"""
    if memo is None:
        memo = {}
    out = []
    for r in roots:
        stack = [r]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            s = sub.get(t)
            if s is not None:
                memo[t.id] = s
                stack.pop()
                continue
            if not t.args:
                memo[t.id] = t
                stack.pop()
                continue
            pend = [a for a in t.args if a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            na = [memo[a.id] for a in t.args]
            if all(x is y for x, y in zip(na, t.args)):
                memo[t.id] = t
            else:
                memo[t.id] = BUILD[t.op](t, na)
            stack.pop()
        out.append(memo[r.id])
    return out


def evaluate(roots, env):
    """concrete value of terms; env: var name -> int (missing = 0)"""
    memo = {}
    for r in roots:
        stack = [r]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            if t.op == 'const':
                memo[t.id] = t.val
                stack.pop()
                continue
            if t.op == 'var':
                memo[t.id] = int(env.get(t.val, 0)) & mask(t.w)
                stack.pop()
                continue
            pend = [a for a in t.args if a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            na = [const(memo[a.id], a.w) for a in t.args]
            memo[t.id] = BUILD[t.op](t, na).val
            stack.pop()
    return [memo[r.id] for r in roots]


def variables(roots):
    seen = set()
    out = {}
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'var':
            out[t.val] = t
        st.extend(t.args)
    return out


def size(roots):
    seen = set()
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        st.extend(t.args)
    return len(seen)


def show(t, d=6):
    if t.op == 'const':
        return "%d'%d" % (t.w, t.val)
    if t.op == 'var':
        return str(t.val)
    if d == 0:
        return '..'
    x = '' if t.val is None else '@%s' % t.val
    return '(%s%s %s)' % (t.op, x, ' '.join(show(a, d - 1) for a in t.args))


# ------------------------------------------------------------------ z3 side
_ctx = z3.main_ctx()
_C = _ctx.ref()
_z3cache = {}
_BOOLVAL = {}


def _toz(t):
    """iterative translation to z3 BitVecRef (width-1 booleans are BV1)"""
    memo = _z3cache
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        pend = [a for a in x.args if a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        memo[x.id] = _tr(x, [memo[a.id] for a in x.args])
        stack.pop()
    return memo[t.id]


_one = z3.BitVecVal(1, 1)
_zero = z3.BitVecVal(0, 1)


def _tr(x, a):
    op = x.op
    if op == 'const':
        return z3.BitVecVal(x.val, x.w)
    if op == 'var':
        return z3.BitVec(str(x.val), x.w)
    r = None
    A = [v.as_ast() for v in a]
    if op == 'ite':
        c = zc.Z3_mk_eq(_C, A[0], _one.as_ast())
        cc = z3.BoolRef(c, _ctx)
        return z3.BitVecRef(zc.Z3_mk_ite(_C, cc.as_ast(), A[1], A[2]), _ctx)
    if op in ('eq', 'ult', 'slt'):
        f = {'eq': zc.Z3_mk_eq, 'ult': zc.Z3_mk_bvult, 'slt': zc.Z3_mk_bvslt}[op]
        cc = z3.BoolRef(f(_C, A[0], A[1]), _ctx)
        return z3.BitVecRef(zc.Z3_mk_ite(_C, cc.as_ast(), _one.as_ast(), _zero.as_ast()), _ctx)
    if op == 'concat':
        cur = a[0]
        for v in a[1:]:
            cur = z3.BitVecRef(zc.Z3_mk_concat(_C, cur.as_ast(), v.as_ast()), _ctx)
        return cur
    if op == 'extract':
        return z3.BitVecRef(zc.Z3_mk_extract(_C, x.val + x.w - 1, x.val, A[0]), _ctx)
    if op == 'sext':
        return z3.BitVecRef(zc.Z3_mk_sign_ext(_C, x.w - x.args[0].w, A[0]), _ctx)
    f = {'not': zc.Z3_mk_bvnot, 'neg': zc.Z3_mk_bvneg, 'and': zc.Z3_mk_bvand, 'or': zc.Z3_mk_bvor,
         'xor': zc.Z3_mk_bvxor, 'add': zc.Z3_mk_bvadd, 'sub': zc.Z3_mk_bvsub, 'mul': zc.Z3_mk_bvmul,
         'udiv': zc.Z3_mk_bvudiv, 'urem': zc.Z3_mk_bvurem, 'sdiv': zc.Z3_mk_bvsdiv,
         'srem': zc.Z3_mk_bvsrem, 'shl': zc.Z3_mk_bvshl, 'lshr': zc.Z3_mk_bvlshr,
         'ashr': zc.Z3_mk_bvashr}[op]
    return z3.BitVecRef(f(_C, *A), _ctx)


def toz(t):
    return _toz(t)


def tobool(t):
    return _toz(t) == _one


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.folded = 0
        self.unknown = 0


STATS = Stats()


def check(assertions, timeout_ms=120000):
    """-> ('sat', model dict name->int) | ('unsat', None) | ('unknown', reason)"""
    import time
    al = []
    for a in assertions:
        if a.w != 1:
            raise ValueError('assertion width')
        if a.op == 'const':
            if not a.val:
                STATS.folded += 1
                return 'unsat', None
            continue
        al.append(a)
    t0 = time.time()
    STATS.queries += 1
    s = z3.SolverFor('QF_BV')
    s.set('timeout', int(timeout_ms))
    for a in al:
        s.add(tobool(a))
    r = s.check()
    STATS.solver_s += time.time() - t0
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.unknown:
        STATS.unknown += 1
        return 'unknown', s.reason_unknown()
    m = s.model()
    vs = variables(al)
    out = {}
    for n, v in vs.items():
        x = m.eval(toz(v), model_completion=True)
        out[n] = x.as_long()
    # the model must satisfy the assertions under our own evaluator
    if not all(evaluate(al, out)):
        return 'unknown', 'model does not satisfy the terms (translator bug)'
    return 'sat', out

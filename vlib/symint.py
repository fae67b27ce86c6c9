"""Symbolic Python integers: real Python code runs on them unchanged.  A SymInt
is an exact (unbounded) signed integer held in a bit-vector wide enough for
every value it can take; conditions fork the path through Ctx.branch."""
from . import term as t
from .term import const

_ctx = None
MAXW = 512


def set_ctx(c):
    global _ctx
    _ctx = c


def need(cond):
    """side condition of the reading: recorded as an assumption of the path"""
    _ctx.assume(cond)


class SymInt(object):
    __slots__ = ('v', 'ok')

    # values of machine variables: operators that are not ring operations require
    # operands inside this many bits (None: no limit)
    LIMIT = None

    def __init__(self, v, ok=None):
        # v: term read as signed; ok: every intermediate result fits LIMIT bits (None: yes)
        self.v = v
        self.ok = ok

    def via(self, *ops):
        """note the operands this value was computed from"""
        if SymInt.LIMIT is not None:
            oks = [o.fits(SymInt.LIMIT) for o in ops if o.v.w > SymInt.LIMIT] + [o.ok for o in ops if o.ok is not None]
            oks = [o for o in oks if o.op != 'const']
            if oks:
                self.ok = t.conj(oks)
        return self

    @staticmethod
    def of(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            return SymInt(const(x, max(x.bit_length() + 1, 1)))
        return None

    @property
    def w(self):
        return self.v.w

    def ext(self, w):
        return self.v.sx(w) if w > self.v.w else (self.v if w == self.v.w else t.extract(self.v, w - 1, 0))

    def mod(self, w):
        """value modulo 2**w as a term"""
        return self.ext(w)

    def _norm(self):
        v = self.v
        if v.op == 'const':
            return t.sval(v)
        if v.w > MAXW:
            raise OverflowError('symbolic integer too wide')
        return self

    def fits(self, w):
        if self.v.w <= w:
            return const(1, 1)
        lo = t.extract(self.v, w - 1, 0)
        return lo.sx(self.v.w).eq(self.v)

    def rng(self):
        if SymInt.LIMIT is not None:
            need(self.fits(SymInt.LIMIT))
            if self.ok is not None:
                need(self.ok)
            if self.v.w > SymInt.LIMIT:
                return SymInt(self.ext(SymInt.LIMIT))
        return self


def _bin(f, grow, limit=False):
    def m(a, b):
        b = SymInt.of(b)
        if b is None:
            return NotImplemented
        if limit:
            a, b = a.rng(), b.rng()
        w = grow(a.v.w, b.v.w)
        return SymInt(f(a.ext(w), b.ext(w))).via(a, b)._norm()

    def r(a, b):
        b = SymInt.of(b)
        if b is None:
            return NotImplemented
        return m(b, a)
    return m, r


def _cmp(f):
    def m(a, b):
        b = SymInt.of(b)
        if b is None:
            return NotImplemented
        a, b = a.rng(), b.rng()
        w = max(a.v.w, b.v.w)
        return SymBool(f(a.ext(w), b.ext(w)))._norm()
    return m


class SymBool(object):
    """result of a comparison (an int 0/1 in arithmetic)"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def _norm(self):
        if self.b.op == 'const':
            return bool(self.b.val)
        return self

    def __bool__(self):
        return _ctx.branch(self.b)

    def int(self):
        return SymInt(self.b.zx(2))


SymInt.__add__, SymInt.__radd__ = _bin(lambda a, b: a + b, lambda x, y: max(x, y) + 1)
SymInt.__sub__, SymInt.__rsub__ = _bin(lambda a, b: a - b, lambda x, y: max(x, y) + 1)
SymInt.__mul__, SymInt.__rmul__ = _bin(lambda a, b: a * b, lambda x, y: x + y)
SymInt.__and__, SymInt.__rand__ = _bin(lambda a, b: a & b, max)
SymInt.__or__, SymInt.__ror__ = _bin(lambda a, b: a | b, max)
SymInt.__xor__, SymInt.__rxor__ = _bin(lambda a, b: a ^ b, max)
SymInt.__eq__ = _cmp(lambda a, b: a.eq(b))
SymInt.__ne__ = _cmp(lambda a, b: a.ne(b))
SymInt.__lt__ = _cmp(lambda a, b: a.slt(b))
SymInt.__le__ = _cmp(lambda a, b: a.sle(b))
SymInt.__gt__ = _cmp(lambda a, b: a.sgt(b))
SymInt.__ge__ = _cmp(lambda a, b: a.sge(b))
SymInt.__hash__ = object.__hash__
SymInt.__neg__ = lambda a: SymInt(-a.v.sx(a.v.w + 1)).via(a)._norm()
SymInt.__pos__ = lambda a: a
SymInt.__invert__ = lambda a: SymInt(~a.v).via(a)._norm()
SymInt.__abs__ = lambda a: SymInt(t.ite(a.v.slt(0), -a.v.sx(a.v.w + 1), a.v.sx(a.v.w + 1)))._norm()
SymInt.__bool__ = lambda a: _ctx.branch(a.rng().v.nz())


def _index(a):
    v = a.rng().v
    x = _ctx.value(v)
    return x - (1 << v.w) if x >> (v.w - 1) else x


SymInt.__index__ = _index


# floor division and modulus, exact Python semantics
def _fdm(a, b):
    b = SymInt.of(b)
    if b is None:
        return NotImplemented
    a, b = a.rng(), b.rng()
    need(b.v.nz())
    w = max(a.w, b.w) + 2
    A, B = a.ext(w), b.ext(w)
    na, nb = A.slt(0), B.slt(0)
    q = t.udiv(t.ite(na, -A, A), t.ite(nb, -B, B))
    r = t.urem(t.ite(na, -A, A), t.ite(nb, -B, B))
    tq, tr = t.ite(na ^ nb, -q, q), t.ite(na, -r, r)
    adj = t.and_(tr.nz(), tr.slt(0) ^ nb)
    return t.ite(adj, tq - 1, tq), t.ite(adj, tr + B, tr)


def _mk(i):
    def f(a, b):
        r = _fdm(a, b)
        return r if r is NotImplemented else SymInt(r[i])._norm()

    def g(a, b):
        b = SymInt.of(b)
        return NotImplemented if b is None else f(b, a)
    return f, g


SymInt.__floordiv__, SymInt.__rfloordiv__ = _mk(0)
SymInt.__mod__, SymInt.__rmod__ = _mk(1)
SymInt.__divmod__ = lambda a, b: (a // b, a % b)


def _lshift(a, b):
    b = SymInt.of(b)
    if b is None:
        return NotImplemented
    if b.v.op == 'const':
        n = t.sval(b.v)
        if n < 0:
            raise ValueError('negative shift count')
        return SymInt(t.concat(a.v, const(0, n)) if n else a.v).via(a)._norm()
    b = b.rng()
    m = SymInt.LIMIT or 32
    need(t.and_(b.v.sge(0), b.ext(max(b.w, 16)).sle(m)))
    w = a.w + m
    return SymInt(t.shl(a.ext(w), b.ext(max(b.w, w)) if b.w > w else b.v.sx(w)))._norm()


def _rshift(a, b):
    b = SymInt.of(b)
    if b is None:
        return NotImplemented
    a = a.rng()
    b = b.rng()
    if b.v.op == 'const':
        n = min(t.sval(b.v), a.w - 1)
        if n < 0:
            raise ValueError('negative shift count')
        return SymInt(t.extract(a.v, a.w - 1, n))._norm()
    need(b.v.sge(0))
    w = max(a.w, b.w) + 1
    return SymInt(t.ashr(a.ext(w), b.ext(w)))._norm()


SymInt.__lshift__ = _lshift
SymInt.__rshift__ = _rshift
SymInt.__rlshift__ = lambda a, b: NotImplemented if SymInt.of(b) is None else _lshift(SymInt.of(b), a)
SymInt.__rrshift__ = lambda a, b: NotImplemented if SymInt.of(b) is None else _rshift(SymInt.of(b), a)


def _pow(a, b, mod=None):
    if not isinstance(b, int):
        b = b.__index__()
    r = 1
    for _ in range(b):
        r = r * a
    return r


SymInt.__pow__ = _pow


def _getitem(a, k):
    """bits of the machine word (LIMIT bits), indexed like a Python sequence"""
    W = SymInt.LIMIT
    bits = a.ext(W)
    if isinstance(k, SymInt):
        s = a >> k
        return s & 1
    idx = range(W)[k]
    if isinstance(idx, int):
        return SymInt(t.concat(const(0, 1), t.extract(bits, idx, idx)))._norm()
    v = t.concat(const(0, 1), *[t.extract(bits, i, i) for i in reversed(idx)])
    return SymInt(v)._norm()


SymInt.__getitem__ = _getitem


def _bool_arith():
    for n in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'floordiv', 'mod', 'lshift', 'rshift'):
        def f(a, b, n=n):
            return getattr(a.int(), '__%s__' % n)(b.int() if isinstance(b, SymBool) else b)

        def g(a, b, n=n):
            return getattr(SymInt.of(b), '__%s__' % n)(a.int()) if SymInt.of(b) is not None else NotImplemented
        setattr(SymBool, '__%s__' % n, f)
        setattr(SymBool, '__r%s__' % n, g)
    for n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        def h(a, b, n=n):
            return getattr(a.int(), '__%s__' % n)(b.int() if isinstance(b, SymBool) else b)
        setattr(SymBool, '__%s__' % n, h)
    SymBool.__hash__ = object.__hash__
    SymBool.__index__ = lambda a: int(bool(a))
    SymBool.__invert__ = lambda a: ~a.int()
    SymBool.__neg__ = lambda a: -a.int()


_bool_arith()


def sym(c, name, w, signed=True):
    set_ctx(c)
    v = c.fresh(name, w)
    return SymInt(v if signed else v.zx(w + 1))


SymInt.__format__ = lambda a, spec: format(_index(a), spec)
SymInt.__str__ = lambda a: str(_index(a))

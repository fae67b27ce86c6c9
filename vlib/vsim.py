"""Elaboration of the Verilog subset and symbolic cycle simulation over
vlib.term bit-vectors (IEEE 1364-2005 width/sign rules, two-valued)."""
import os
from . import term as t
from .term import const, ite, extract, concat, zresize, sresize
from . import vparse


class Unsupported(Exception):
    pass


class ElabError(Exception):
    """the text is not legal Verilog (undeclared name, ...)"""


class CombLoop(Exception):
    pass


class Sig(object):
    __slots__ = ('name', 'w', 'signed', 'msb', 'lsb', 'dims', 'depth', 'kind', 'dir', 'drv', 'parts', 'block',
                 'alias', 'initd', 'local')

    def __init__(self, name, w, signed, msb, lsb, dims, kind, dir_):
        self.name = name
        self.w = w
        self.signed = signed
        self.msb = msb
        self.lsb = lsb
        self.dims = dims
        d = 1
        for a, b in dims:
            d *= abs(a - b) + 1
        self.depth = d if dims else 0
        self.kind = kind
        self.dir = dir_
        self.drv = None       # 'input' 'state' 'wire' 'comb'
        self.parts = None     # for wires: {elem or None: [(hi, lo, closure)]}
        self.block = None
        self.alias = None
        self.initd = False
        self.local = False

    def __repr__(self):
        return self.name


class Param(object):
    __slots__ = ('v', 'signed')

    def __init__(self, v, signed):
        self.v = v
        self.signed = signed


class Func(object):
    def __init__(self, name, scope, ret, ins, decl_ast, body):
        self.name = name
        self.scope = scope
        self.ret = ret
        self.ins = ins
        self.body_ast = body
        self.code = None


class Task(Func):
    pass


class Scope(object):
    def __init__(self, name, parent, path):
        self.name = name
        self.parent = parent
        self.path = path          # tuple of names
        self.names = {}
        self.module_top = False

    def find(self, n):
        s = self
        while s is not None:
            if n in s.names:
                return s.names[n]
            if s.module_top:
                break
            s = s.parent
        return None

    def full(self, n):
        return '.'.join(self.path + (n,))


class Frame(object):
    __slots__ = ('blk', 'nba', 'up')

    def __init__(self, up=None):
        self.blk = {}
        self.nba = {}
        self.up = up


class Env(object):
    __slots__ = ('sim', 'f', 'guard', 'comb')

    def __init__(self, sim, f=None, guard=None, comb=False):
        self.sim = sim
        self.f = f
        self.guard = guard
        self.comb = comb

    def rd(self, key):
        f = self.f
        while f is not None:
            v = f.blk.get(key)
            if v is not None:
                return v
            f = f.up
        return self.sim.value(key)

    def rd_nba(self, key):
        f = self.f
        while f is not None:
            v = f.nba.get(key)
            if v is not None:
                return v
            f = f.up
        s = key[0] if isinstance(key, tuple) else key
        if s in self.sim.mixed:
            # also assigned with '=': the value left unchanged is known at the end of the step only
            return t.var('%s%s?nba' % (self.sim.prefix, self.sim.keyname(key)), s.w)
        return self.sim.value(key)


def key_w(key):
    return key[0].w if isinstance(key, tuple) else key.w


# ---------------------------------------------------------------------------
class Design(object):
    def __init__(self, text, top, params=None):
        self.mods = {}
        for m in vparse.parse(text):
            self.mods[m[1]] = m
        if top not in self.mods:
            raise ElabError('no module %s' % top)
        self.sigs = []
        self.assigns = []      # (lhs_ast, lscope, rhs_ast, rscope)
        self.always = []       # (events, stmt, scope)
        self.initials = []
        self.funcs = []
        self.pending = []
        self.case_sigs = []
        self.nbsigs = set()
        self.blsigs = set()
        self.top = Scope(top, None, ())
        self.top.module_top = True
        self.insts = {}
        self._module(self.mods[top], self.top, dict(params or {}), True)
        self._compile()

    # ------------------------------------------------------------ elaboration
    def _const(self, ast, scope):
        w, s = self.size(ast, scope)
        f = self.gen(ast, scope, w, s)
        v = f(_CENV)
        if v.op != 'const':
            raise ElabError('not a constant expression')
        return v, s

    def cint(self, ast, scope):
        v, s = self._const(ast, scope)
        return t.sval(v) if s else v.val

    def _range(self, r, scope):
        if r is None:
            return 0, 0
        return self.cint(r[0], scope), self.cint(r[1], scope)

    def _mksig(self, d, scope, extra_dir=None):
        _, kinds, signed, r, name, dims, init = d
        dir_ = None
        for k in ('input', 'output', 'inout'):
            if k in kinds:
                dir_ = k
        kind = 'reg' if 'reg' in kinds else ('integer' if 'integer' in kinds or 'time' in kinds else 'wire')
        if 'real' in kinds or 'event' in kinds:
            kind = 'real'
        if kind == 'integer':
            msb, lsb, signed = 31, 0, True
            if 'time' in kinds:
                msb, signed = 63, False
        else:
            msb, lsb = self._range(r, scope)
        w = abs(msb - lsb) + 1
        dd = []
        for a, b in dims:
            dd.append((self.cint(a, scope), self.cint(b, scope)))
        old = scope.names.get(name)
        if isinstance(old, Sig):
            # port redeclaration (e.g. "output x; reg x;")
            if kind in ('reg', 'integer'):
                old.kind = kind
            if dir_:
                old.dir = dir_
            if r is not None:
                old.msb, old.lsb, old.w = msb, lsb, w
            if signed:
                old.signed = True
            s = old
        else:
            if old is not None:
                raise ElabError('%s redeclared' % name)
            s = Sig(scope.full(name), w, signed, msb, lsb, dd, kind, dir_)
            scope.names[name] = s
            self.sigs.append(s)
        if init is None and ('supply0' in kinds or 'supply1' in kinds):
            init = ('num', max(w, 1), False, (1 << w) - 1 if 'supply1' in kinds else 0, 0, 0)
            kind = 'wire'
        if init is not None:
            if kind == 'wire':
                self.assigns.append((('id', name), scope, init, scope))
            else:
                self.initials.append((('blk', ('id', name), init, None), scope))
        return s

    def _module(self, m, scope, params, top=False):
        _, name, ports, items = m
        self._order = ports
        plist = [i[4] for i in items if i[0] == 'decl' and i[1] == ('parameter',)]
        pv = {}
        for i, (k, v) in enumerate(params.items() if isinstance(params, dict) else params):
            if k is None:
                k = plist[i]
            if k not in plist:
                raise ElabError('module %s has no parameter %s' % (name, k))
            pv[k] = v
        self._items(items, scope, pv, top)

    def _items(self, items, scope, pv, top):
        # parameters first: a range may use a parameter declared later in the text
        isp = lambda i: i[0] == 'decl' and ('parameter' in i[1] or 'localparam' in i[1])
        isf = lambda i: i[0] == 'function'
        items = [i for i in items if isp(i)] + [i for i in items if isf(i)] + \
            [i for i in items if not isp(i) and not isf(i)]
        for it in items:
            k = it[0]
            if k == 'decl':
                kinds = it[1]
                if 'parameter' in kinds or 'localparam' in kinds:
                    n = it[4]
                    if n in scope.names:
                        raise ElabError('%s redeclared' % n)
                    if 'parameter' in kinds and n in pv:
                        v = pv[n]
                        if isinstance(v, int):
                            v, s = const(v, 32), True
                        else:
                            v, s = v
                    else:
                        v, s = self._const(it[6], scope)
                    if it[3] is not None:
                        a, b = self._range(it[3], scope)
                        w = abs(a - b) + 1
                        v = sresize(v, w) if s else zresize(v, w)
                        s = it[2]
                    elif it[2]:
                        s = True
                    scope.names[n] = Param(v, s)
                elif 'genvar' in kinds:
                    scope.names.setdefault(it[4], ('genvar',))
                else:
                    self._mksig(it, scope)
            elif k == 'assign':
                self.assigns.append((it[1], scope, it[2], scope))
            elif k == 'always':
                self.always.append((it[1], it[2], scope))
            elif k == 'initial':
                self.initials.append((it[1], scope))
            elif k in ('function', 'task'):
                self._func(it, scope)
            elif k == 'inst':
                self.pending.append((it, scope))
            elif k == 'genfor':
                self._genfor(it, scope)
            elif k == 'genif':
                c, _ = self._const(it[1], scope)
                n, body = (it[2], it[3]) if c.val else (it[4], it[5])
                if body is not None:
                    self._genblk(n, body, scope)
            elif k == 'genblk':
                self._genblk(it[1], it[2], scope)
            else:
                raise Unsupported('item %s' % k)
        if scope.module_top:
            # instances after declarations of this module
            pend, self.pending = self.pending, []
            for it, sc in pend:
                self._inst(it, sc)

    def _genblk(self, n, body, scope):
        if n is None:
            sub = Scope(None, scope, scope.path)
            # unnamed: share names
            self._items(body, _Shared(scope), {}, False)
            return
        sub = Scope(n, scope, scope.path + (n,))
        scope.names[n] = sub
        self._items(body, sub, {}, False)

    def _genfor(self, it, scope):
        _, init, cond, step, n, body = it
        gv = init[1][1]
        old = scope.names.get(gv)
        v, s = self._const(init[2], scope)
        cnt = 0
        while True:
            scope.names[gv] = Param(zresize(v, 32) if v.w >= 32 else sresize(v, 32), True)
            c, _ = self._const(cond, scope)
            if not c.val:
                break
            sub = Scope(n, scope, scope.path + ('%s[%d]' % (n, t.sval(scope.names[gv].v)),))
            sub.names[gv] = scope.names[gv]
            scope.names['%s[%d]' % (n, t.sval(scope.names[gv].v))] = sub
            self._items(body, sub, {}, False)
            v, s = self._const(step[2], scope)
            cnt += 1
            if cnt > 5000:
                raise Unsupported('generate loop')
        scope.names[gv] = old if old is not None else ('genvar',)

    def _func(self, it, scope):
        if it[0] == 'function':
            _, name, signed, r, decls, body = it
        else:
            _, name, decls, body = it
            signed, r = False, None
        sub = Scope(name, scope, scope.path + (name,))
        ret = None
        if it[0] == 'function':
            if r == ('int',):
                msb, lsb, signed = 31, 0, True
            else:
                msb, lsb = self._range(r, scope)
            ret = Sig(sub.full(name), abs(msb - lsb) + 1, signed, msb, lsb, [], 'reg', None)
            ret.local = True
            sub.names[name] = ret
        ins, outs = [], []
        for d in decls:
            s = self._mksig(d, sub)
            s.local = True
            if 'input' in d[1]:
                ins.append(s)
            if 'output' in d[1]:
                outs.append(s)
        f = Func(name, sub, ret, ins, decls, body)
        f.outs = outs
        f.decl_order = [sub.names[d[4]] for d in decls if 'input' in d[1] or 'output' in d[1]]
        scope.names[name] = f
        self.funcs.append(f)

    def _inst(self, it, scope):
        _, mod, params, name, r, conns = it
        if mod not in self.mods:
            raise ElabError('unknown module %s' % mod)
        if r is not None:
            raise Unsupported('instance array')
        m = self.mods[mod]
        pl = []
        for n, e in params:
            if e is None:
                continue
            pl.append((n, self._const(e, scope)))
        sub = Scope(mod, scope, scope.path + (name,))
        sub.module_top = True
        if name in scope.names:
            raise ElabError('%s redeclared' % name)
        scope.names[name] = sub
        self._module(m, sub, pl)
        ports = m[2]
        for i, (n, e) in enumerate(conns):
            if n is None:
                if i >= len(ports):
                    raise ElabError('too many ports on %s' % name)
                n = ports[i]
            s = sub.names.get(n)
            if not isinstance(s, Sig) or s.dir is None:
                raise ElabError('module %s has no port %s' % (mod, n))
            if e is None:
                continue
            if s.dir == 'input':
                self.assigns.append((('id', n), sub, e, scope))
            elif s.dir == 'output':
                self.assigns.append((e, scope, ('id', n), sub))
            else:
                raise Unsupported('inout port')
        for n in ports:
            s = sub.names.get(n)
            if s is None:
                raise ElabError('port %s not declared' % n)

    # ---------------------------------------------------------------- sizing
    def lookup(self, ast, scope):
        if ast[0] == 'id':
            o = scope.find(ast[1])
            if o is None:
                raise ElabError('undeclared identifier %s' % ast[1])
            return o
        if ast[0] == 'dot':
            b = ast[1]
            if b[0] == 'idx':
                o = self.lookup(b[1], scope) if b[1][0] == 'dot' else None
                i = self.cint(b[2], scope)
                base = b[1]
                if base[0] == 'id':
                    s = scope.find('%s[%d]' % (base[1], i))
                else:
                    p = self.lookup(base[1], scope)
                    s = p.names.get('%s[%d]' % (base[2], i))
            else:
                s = self.lookup(b, scope)
            if not isinstance(s, Scope):
                raise ElabError('not a scope: %r' % (b,))
            o = s.names.get(ast[2])
            if o is None:
                raise ElabError('undeclared identifier %s' % (ast,))
            return o
        raise ElabError('bad name %r' % (ast,))

    def target(self, ast, scope):
        """id/idx/part chain -> (obj, [index asts for dims], select)"""
        chain = []
        e = ast
        while e[0] in ('idx', 'part', 'ipart'):
            # generate-scope indexing is handled through 'dot'
            chain.append(e)
            e = e[1]
        o = self.lookup(e, scope)
        chain.reverse()
        return o, chain

    def size(self, e, scope):
        k = e[0]
        if k == 'num':
            w = e[1]
            if w is None:
                if len(e) < 7:
                    w = max(32, e[3].bit_length() + 1)
                else:
                    w = max(32, e[3].bit_length())
            return w, e[2]
        if k in ('id', 'dot'):
            o = self.lookup(e, scope)
            if isinstance(o, Param):
                return o.v.w, o.signed
            if isinstance(o, Sig):
                if o.kind == 'real':
                    raise Unsupported('real')
                if o.depth:
                    raise ElabError('array %s used without index' % o.name)
                return o.w, o.signed
            raise ElabError('bad operand %r' % (e,))
        if k in ('idx', 'part', 'ipart'):
            o, ch = self.target(e, scope)
            nd = len(o.dims) if isinstance(o, Sig) else 0
            if len(ch) == nd and nd:
                return o.w, o.signed
            if len(ch) != nd + 1:
                raise ElabError('bad select on %r' % (e,))
            s = ch[-1]
            if s[0] == 'idx':
                return 1, False
            if s[0] == 'part':
                return abs(self.cint(s[2], scope) - self.cint(s[3], scope)) + 1, False
            return self.cint(s[3], scope), False
        if k == 'bin':
            o = e[1]
            if o in ('==', '!=', '===', '!==', '<', '<=', '>', '>=', '&&', '||'):
                return 1, False
            lw, ls = self.size(e[2], scope)
            rw, rs = self.size(e[3], scope)
            if o in ('<<', '>>', '<<<', '>>>', '**'):
                return lw, (ls if o != '**' else ls and rs)
            return max(lw, rw), ls and rs
        if k == 'un':
            o = e[1]
            w, s = self.size(e[2], scope)
            if o in ('+', '-', '~'):
                return w, s
            return 1, False
        if k == 'cond':
            aw, as_ = self.size(e[2], scope)
            bw, bs = self.size(e[3], scope)
            return max(aw, bw), as_ and bs
        if k == 'cat':
            return sum(self.size(x, scope)[0] for x in e[1]), False
        if k == 'repl':
            n = self.cint(e[1], scope)
            return n * self.size(e[2], scope)[0], False
        if k == 'call':
            f = scope.find(e[1])
            if not isinstance(f, Func) or f.ret is None:
                raise ElabError('unknown function %s' % e[1])
            return f.ret.w, f.ret.signed
        if k == 'sys':
            if e[1] in ('$signed', '$unsigned'):
                w, s = self.size(e[2][0], scope)
                return w, e[1] == '$signed'
            if e[1] == '$clog2':
                return 32, True
            if e[1] in ('$time', '$stime'):
                return (64 if e[1] == '$time' else 32), False
            raise Unsupported(e[1])
        if k == 'str':
            return 8 * max(1, len(e[1])), False
        raise Unsupported('expr %s' % k)

    # -------------------------------------------------------------- codegen
    def self_gen(self, e, scope):
        w, s = self.size(e, scope)
        return self.gen(e, scope, w, s), w, s

    def gen(self, e, scope, W, S):
        """closure(env) -> term of width W, evaluated as signedness S"""
        k = e[0]
        ext = sresize if S else zresize
        if k == 'num':
            w, s = self.size(e, scope)
            if e[4] or e[5]:
                v = const(e[3] & ~(e[4] | e[5]), w)
            else:
                v = const(e[3], w)
            v = ext(v, W)
            return lambda env: v
        if k in ('id', 'dot'):
            o = self.lookup(e, scope)
            if isinstance(o, Param):
                v = ext(o.v, W)
                return lambda env: v
            if not isinstance(o, Sig):
                raise ElabError('bad operand %r' % (e,))
            if o.w == W:
                return lambda env: env.rd(o)
            return lambda env: ext(env.rd(o), W)
        if k in ('idx', 'part', 'ipart'):
            f, w = self.gen_sel(e, scope)
            if w == W:
                return f
            return lambda env: ext(f(env), W)
        if k == 'bin':
            return self.gen_bin(e, scope, W, S)
        if k == 'un':
            o = e[1]
            if o == '+':
                return self.gen(e[2], scope, W, S)
            if o == '-':
                f = self.gen(e[2], scope, W, S)
                return lambda env: t.neg(f(env))
            if o == '~':
                f = self.gen(e[2], scope, W, S)
                return lambda env: t.not_(f(env))
            f, w, s = self.self_gen(e[2], scope)
            g = {'!': lambda v: t.not_(t.redor(v)), '&': t.redand, '|': t.redor, '^': t.redxor,
                 '~&': lambda v: t.not_(t.redand(v)), '~|': lambda v: t.not_(t.redor(v)),
                 '~^': lambda v: t.not_(t.redxor(v)), '^~': lambda v: t.not_(t.redxor(v))}[o]
            return lambda env: zresize(g(f(env)), W)
        if k == 'cond':
            c = self.gen_bool(e[1], scope)
            a = self.gen(e[2], scope, W, S)
            b = self.gen(e[3], scope, W, S)

            def fc(env):
                cv = c(env)
                if cv.op == 'const':
                    return a(env) if cv.val else b(env)
                return ite(cv, a(env), b(env))
            return fc
        if k == 'cat':
            fs = [self.self_gen(x, scope)[0] for x in e[1]]
            return lambda env: zresize(concat(*[f(env) for f in fs]), W)
        if k == 'repl':
            n = self.cint(e[1], scope)
            if n <= 0:
                raise ElabError('bad replication')
            f = self.self_gen(e[2], scope)[0]
            return lambda env: zresize(concat(*([f(env)] * n)), W)
        if k == 'call':
            fn = scope.find(e[1])
            if len(e[2]) != len(fn.ins):
                raise ElabError('function %s arity' % e[1])
            args = [self.gen_assign(a, scope, i.w) for a, i in zip(e[2], fn.ins)]

            def call(env):
                av = [a(env) for a in args]
                if fn.code is None:
                    raise Unsupported('recursive function')
                up = env.f
                env.f = Frame(up)
                for i, v in zip(fn.ins, av):
                    env.f.blk[i] = v
                fn.code(env)
                r = env.rd(fn.ret)
                env.f = up
                return ext(r, W)
            return call
        if k == 'sys':
            if e[1] in ('$signed', '$unsigned'):
                f, w, s = self.self_gen(e[2][0], scope)
                return lambda env: ext(f(env), W)
            if e[1] == '$clog2':
                n = self.cint(e[2][0], scope)
                v = const(max(0, (n - 1).bit_length()) if n > 0 else 0, W)
                return lambda env: v
            if e[1] in ('$time', '$stime'):
                return lambda env: t.var('time!%d' % env.sim.cycle, W)
            raise Unsupported(e[1])
        if k == 'str':
            v = 0
            for ch in e[1]:
                v = v << 8 | ord(ch)
            v = const(v, W)
            return lambda env: v
        raise Unsupported('expr %s' % k)

    def gen_bool(self, e, scope):
        f, w, s = self.self_gen(e, scope)
        if w == 1:
            return f
        return lambda env: t.redor(f(env))

    def gen_assign(self, e, scope, w):
        """value of rhs e when assigned to a w-bit target"""
        rw, rs = self.size(e, scope)
        W = max(w, rw)
        f = self.gen(e, scope, W, rs)
        if W == w:
            return f
        return lambda env: extract(f(env), w - 1, 0)

    def gen_bin(self, e, scope, W, S):
        o = e[1]
        if o in ('&&', '||'):
            a = self.gen_bool(e[2], scope)
            b = self.gen_bool(e[3], scope)
            if o == '&&':
                def land(env):
                    x = a(env)
                    if t.isz(x):
                        return zresize(x, W)
                    return zresize(t.and_(x, b(env)), W)
                return land
            def lor(env):
                x = a(env)
                if t.isones(x):
                    return zresize(x, W)
                return zresize(t.or_(x, b(env)), W)
            return lor
        if o in ('==', '!=', '===', '!==', '<', '<=', '>', '>='):
            lw, ls = self.size(e[2], scope)
            rw, rs = self.size(e[3], scope)
            w, s = max(lw, rw), ls and rs
            a = self.gen(e[2], scope, w, s)
            b = self.gen(e[3], scope, w, s)
            lt = t.slt if s else t.ult
            if o in ('==', '==='):
                g = t.eq
            elif o in ('!=', '!=='):
                g = lambda x, y: t.not_(t.eq(x, y))
            elif o == '<':
                g = lt
            elif o == '>':
                g = lambda x, y: lt(y, x)
            elif o == '<=':
                g = lambda x, y: t.not_(lt(y, x))
            else:
                g = lambda x, y: t.not_(lt(x, y))
            if W == 1:
                return lambda env: g(a(env), b(env))
            return lambda env: zresize(g(a(env), b(env)), W)
        if o in ('<<', '>>', '<<<', '>>>'):
            a = self.gen(e[2], scope, W, S)
            b, rw, _ = self.self_gen(e[3], scope)
            g = {'<<': t.shl, '<<<': t.shl, '>>': t.lshr, '>>>': t.ashr if S else t.lshr}[o]

            def sh(env):
                x = a(env)
                y = b(env)
                if y.op == 'const':
                    return g(x, const(min(y.val, (1 << W) - 1), W)) if y.val < (1 << W) else \
                        g(x, const(-1, W)) if W > 31 else _bigsh(g, x, y)
                if y.w <= W:
                    return g(x, zresize(y, W))
                return zresize(extract(g(ext(x, y.w), y), W - 1, 0), W) if g is not t.lshr else \
                    extract(t.lshr(zresize(x, y.w), y), W - 1, 0)
            ext = sresize if S else zresize
            return sh
        if o == '**':
            a = self.gen(e[2], scope, W, S)
            rf, rw, rs = self.self_gen(e[3], scope)

            def pw(env):
                x = a(env)
                y = rf(env)
                if y.op != 'const':
                    if x.op == 'const' and x.val == 2:
                        n = max(W, y.w)
                        r = t.shl(const(1, n), zresize(y, n))
                        return extract(r, W - 1, 0)
                    # square and multiply over the exponent bits
                    if rs:
                        raise Unsupported('** with a signed symbolic exponent')
                    r = const(1, W)
                    b = x
                    for i in range(y.w):
                        r = ite(y[i], t.mul(r, b), r)
                        b = t.mul(b, b)
                    return r
                n = t.sval(y) if rs else y.val
                if n < 0:
                    raise Unsupported('negative exponent')
                if x.op == 'const':
                    return const(pow(t.sval(x) if S else x.val, n, 1 << W), W)
                r = const(1, W)
                for _ in range(n):
                    r = t.mul(r, x)
                return r
            return pw
        a = self.gen(e[2], scope, W, S)
        b = self.gen(e[3], scope, W, S)
        g = {'+': t.add, '-': t.sub, '*': t.mul, '/': t.sdiv if S else t.udiv, '%': t.srem if S else t.urem,
             '&': t.and_, '|': t.or_, '^': t.xor, '~^': lambda x, y: t.not_(t.xor(x, y)),
             '^~': lambda x, y: t.not_(t.xor(x, y))}[o]
        return lambda env: g(a(env), b(env))

    # index helper: position of bit index in vector
    def _pos(self, sig, idx):
        return idx - sig.lsb if sig.msb >= sig.lsb else sig.lsb - idx

    def gen_elem(self, sig, ch, scope):
        """array element address: closure -> int or term (flattened)"""
        fs = []
        for (a, b), c in zip(sig.dims, ch):
            if c[0] != 'idx':
                raise ElabError('part select of an array')
            f, w, s = self.self_gen(c[2], scope)
            fs.append((f, w, s, min(a, b), abs(a - b) + 1))
        if len(fs) == 1 and fs[0][3] == 0:
            f, w, s, lo, n = fs[0]

            def one(env):
                v = f(env)
                if v.op == 'const':
                    x = t.sval(v) if s else v.val
                    return x if 0 <= x < n else -1
                return v
            return one

        def many(env):
            vs = []
            for f, w, s, lo, n in fs:
                v = f(env)
                vs.append((v, s, lo, n))
            if all(v.op == 'const' for v, s, lo, n in vs):
                r = 0
                for v, s, lo, n in vs:
                    x = (t.sval(v) if s else v.val) - lo
                    if not 0 <= x < n:
                        return -1
                    r = r * n + x
                return r
            r = const(0, 32)
            bad = t.false()
            for v, s, lo, n in vs:
                x = t.sub(sresize(v, 33) if s else zresize(v, 33), const(lo, 33))
                bad = t.or_(bad, t.not_(t.ult(x, const(n, 33))))
                r = t.add(t.mul(r, const(n, 32)), extract(x, 31, 0))
            return ite(bad, const(-1, 32), r)
        return many

    def gen_sel(self, e, scope):
        o, ch = self.target(e, scope)
        if isinstance(o, Param):
            base = o.v
            lsb, msb = 0, o.v.w - 1
            rd = lambda env: base
            rest = ch
            w = base.w
        elif isinstance(o, Sig):
            nd = len(o.dims)
            if nd:
                if len(ch) < nd:
                    raise ElabError('array %s not fully indexed' % o.name)
                ad = self.gen_elem(o, ch[:nd], scope)

                def rd(env):
                    a = ad(env)
                    if isinstance(a, int):
                        if a < 0:
                            return const(0, o.w)
                        return env.rd((o, a))
                    return t.select([env.rd((o, i)) for i in range(min(o.depth, 1 << a.w))], a, const(0, o.w))
                rest = ch[nd:]
                if not rest:
                    return rd, o.w
            else:
                rd = None
                rest = ch
            msb, lsb, w = o.msb, o.lsb, o.w
        else:
            raise ElabError('bad select base %r' % (e,))
        if len(rest) != 1:
            raise ElabError('bad select %r' % (e,))
        s = rest[0]
        up = msb >= lsb
        if s[0] == 'part':
            a, b = self.cint(s[2], scope), self.cint(s[3], scope)
            hi, lo = (a - lsb, b - lsb) if up else (lsb - a, lsb - b)
            if hi < lo:
                raise ElabError('reversed part select')
            if hi >= w or lo < 0:
                # out of range bits read as x; modelled as 0
                def oob(env):
                    v = rd(env) if rd else env.rd(o)
                    if lo >= w or hi < 0:
                        return const(0, hi - lo + 1)
                    l = max(lo, 0)
                    x = extract(v, min(hi, w - 1), l)
                    x = zresize(x, x.w + (hi - min(hi, w - 1)))
                    if lo < 0:
                        x = concat(x, const(0, -lo))
                    return x
                return oob, hi - lo + 1
            if rd is None:
                return (lambda env: _rdpart(env, o, hi, lo)), hi - lo + 1
            return (lambda env: extract(rd(env), hi, lo)), hi - lo + 1
        if s[0] == 'idx':
            f, iw, is_ = self.self_gen(s[2], scope)
            n = 1
            dirn = 1
        else:
            f, iw, is_ = self.self_gen(s[2], scope)
            n = self.cint(s[3], scope)
            dirn = s[4]

        def dyn(env):
            iv = f(env)
            if iv.op == 'const':
                x = t.sval(iv) if is_ else iv.val
                p = x - lsb if up else lsb - x
                if n > 1:
                    if (dirn > 0) == up:
                        lo = p
                    else:
                        lo = p - n + 1
                else:
                    lo = p
                hi = lo + n - 1
                if hi < w and lo >= 0:
                    if rd is None:
                        return _rdpart(env, o, hi, lo)
                    return extract(rd(env), hi, lo)
                v = rd(env) if rd else env.rd(o)
                bits = []
                for i in range(hi, lo - 1, -1):
                    bits.append(extract(v, i, i) if 0 <= i < w else const(0, 1))
                return concat(*bits)
            v = rd(env) if rd else env.rd(o)
            W = max(w, iw) + 2
            p = sresize(iv, W) if is_ else zresize(iv, W)
            p = t.sub(p, const(lsb, W)) if up else t.sub(const(lsb, W), p)
            if n > 1 and (dirn > 0) != up:
                p = t.sub(p, const(n - 1, W))
            pad = n
            big = zresize(concat(v, const(0, pad)), max(W, w + pad + n))
            sh = t.add(sresize(p, big.w), const(pad, big.w))
            return extract(t.lshr(big, sh), n - 1, 0)
        return dyn, n

    # ----------------------------------------------------------- lvalues
    def gen_lv(self, e, scope, nb):
        """-> (width, store(env, value)); nb: nonblocking"""
        if e[0] == 'cat':
            subs = [self.gen_lv(x, scope, nb) for x in e[1]]
            W = sum(s[0] for s in subs)

            def st(env, v):
                hi = W
                for w, s in subs:
                    s(env, extract(v, hi - 1, hi - w))
                    hi -= w
            return W, st
        if e[0] in ('id', 'dot'):
            o = self.lookup(e, scope)
            if not isinstance(o, Sig) or o.depth:
                raise ElabError('bad assignment target %r' % (e,))
            self._mark(o)
            (self.nbsigs if nb else self.blsigs).add(o)
            if nb:
                def st1(env, v):
                    if env.comb:
                        env.f.blk[o] = v
                    else:
                        env.f.nba[o] = v
                return o.w, st1

            def st2(env, v):
                env.f.blk[o] = v
            return o.w, st2
        o, ch = self.target(e, scope)
        if not isinstance(o, Sig):
            raise ElabError('bad assignment target %r' % (e,))
        self._mark(o)
        (self.nbsigs if nb else self.blsigs).add(o)
        nd = len(o.dims)
        if len(ch) < nd:
            raise ElabError('array %s not fully indexed' % o.name)
        ad = self.gen_elem(o, ch[:nd], scope) if nd else None
        rest = ch[nd:]
        ins = None
        w = o.w
        if rest:
            if len(rest) != 1:
                raise ElabError('bad select %r' % (e,))
            ins, w = self.gen_insert(o, rest[0], scope)

        def put(env, key, v, g):
            usenba = nb and not env.comb
            if ins is not None or g is not None:
                old = env.rd_nba(key) if usenba else env.rd(key)
                if ins is not None:
                    v = ins(env, old, v)
                if g is not None:
                    v = ite(g, v, old)
            if usenba:
                env.f.nba[key] = v
            else:
                env.f.blk[key] = v

        def st3(env, v):
            if ad is None:
                put(env, o, v, None)
                return
            a = ad(env)
            if isinstance(a, int):
                if a >= 0:
                    put(env, (o, a), v, None)
                return
            if o.depth > 4096:
                raise Unsupported('symbolic address into %d words' % o.depth)
            for i in range(min(o.depth, 1 << a.w)):
                c = t.eq(a, const(i, a.w))
                if t.isz(c):
                    continue
                put(env, (o, i), v, c)
        return w, st3

    def gen_insert(self, o, s, scope):
        up = o.msb >= o.lsb
        W = o.w
        if s[0] == 'part':
            a, b = self.cint(s[2], scope), self.cint(s[3], scope)
            hi, lo = (a - o.lsb, b - o.lsb) if up else (o.lsb - a, o.lsb - b)
            n = hi - lo + 1

            def insp(env, old, v):
                return _ins(old, v, hi, lo)
            return insp, n
        f, iw, is_ = self.self_gen(s[2], scope)
        n = 1 if s[0] == 'idx' else self.cint(s[3], scope)
        dirn = 1 if s[0] == 'idx' else s[4]

        def insd(env, old, v):
            iv = f(env)
            if iv.op == 'const':
                x = t.sval(iv) if is_ else iv.val
                p = x - o.lsb if up else o.lsb - x
                lo = p if (n == 1 or (dirn > 0) == up) else p - n + 1
                return _ins(old, v, lo + n - 1, lo)
            r = old
            for lo in range(-n + 1, W):
                p = lo if (n == 1 or (dirn > 0) == up) else lo + n - 1
                x = p + o.lsb if up else o.lsb - p
                if x < 0 and not is_:
                    continue
                if not (-(1 << (iw - 1)) <= x < (1 << (iw - 1)) if is_ else 0 <= x < (1 << iw)):
                    continue
                c = t.eq(iv, const(x, iw))
                if t.isz(c):
                    continue
                r = ite(c, _ins(old, v, lo + n - 1, lo), r)
            return r
        return insd, n

    def _mark(self, o):
        if self._cur is not None:
            self._cur.add(o)

    # --------------------------------------------------------- statements
    def gen_stmt(self, s, scope):
        k = s[0]
        if k == 'null':
            return lambda env: None
        if k in ('blk', 'nba'):
            w, st = self.gen_lv(s[1], scope, k == 'nba')
            f = self.gen_assign(s[2], scope, w)
            return lambda env: st(env, f(env))
        if k == 'block':
            sc = scope
            if s[3]:
                sc = Scope(s[1], scope, scope.path + ((s[1],) if s[1] else ()))
                for d in s[3]:
                    self._mksig(d, sc)
            ss = [self.gen_stmt(x, sc) for x in s[2]]

            def blk(env):
                for x in ss:
                    x(env)
            return blk
        if k == 'if':
            c = self.gen_bool(s[1], scope)
            a = self.gen_stmt(s[2], scope)
            b = self.gen_stmt(s[3], scope) if s[3] is not None else None

            def fif(env):
                _branch(env, c(env), a, b)
            return fif
        if k == 'case':
            return self.gen_case(s, scope)
        if k == 'for':
            i = self.gen_stmt(s[1], scope)
            c = self.gen_bool(s[2], scope)
            u = self.gen_stmt(s[3], scope)
            b = self.gen_stmt(s[4], scope)

            def ffor(env):
                i(env)
                n = 0
                while True:
                    v = c(env)
                    if v.op != 'const':
                        return _symloop(env, c, lambda e: (b(e), u(e)))
                    if not v.val:
                        return
                    b(env)
                    u(env)
                    n += 1
                    if n > 100000:
                        raise Unsupported('for loop bound')
            return ffor
        if k == 'while':
            c = self.gen_bool(s[1], scope)
            b = self.gen_stmt(s[2], scope)
            return lambda env: _symloop(env, c, b)
        if k == 'repeat':
            f, w, sg = self.self_gen(s[1], scope)
            b = self.gen_stmt(s[2], scope)

            def frep(env):
                v = f(env)
                if v.op != 'const':
                    raise Unsupported('symbolic repeat')
                for _ in range(t.sval(v) if sg else v.val):
                    b(env)
            return frep
        if k == 'systask':
            name, args = s[1], s[2]
            fs = []
            for a in args:
                if a[0] == 'str':
                    fs.append(a[1])
                else:
                    try:
                        fs.append(self.self_gen(a, scope)[0::2] if False else self.self_gen(a, scope))
                    except (Unsupported, ElabError):
                        if name in ('$display', '$write', '$monitor'):
                            raise
                        fs.append(None)

            target = None
            if name == '$readmemh' and len(args) == 2 and args[0][0] == 'str' and args[1][0] == 'id':
                target = scope.find(args[1][1])

            def ftask(env):
                if target is not None and os.path.exists(args[0][1]):
                    # initial memory image
                    with open(args[0][1]) as f:
                        for k, v in enumerate(f.read().split()):
                            env.sim.st[(target, k)] = const(int(v, 16), target.w)
                g = env.guard if env.guard is not None else t.true()
                env.sim.events.append((env.sim.cycle, g, name,
                                       [x if isinstance(x, str) or x is None else (x[0](env), x[2]) for x in fs]))
            return ftask
        if k == 'taskcall':
            fn = scope.find(s[1])
            if not isinstance(fn, Func):
                raise ElabError('unknown task %s' % s[1])
            if len(s[2]) != len(fn.decl_order):
                raise ElabError('task %s arity' % s[1])
            ins, outs = [], []
            for a, d in zip(s[2], fn.decl_order):
                if d in fn.ins:
                    ins.append((self.gen_assign(a, scope, d.w), d))
                else:
                    outs.append((self.gen_lv(a, scope, False), d))

            def ftc(env):
                vs = [(d, f(env)) for f, d in ins]
                for d, v in vs:
                    env.f.blk[d] = v
                fn.code(env)
                for (w, st), d in outs:
                    st(env, zresize(env.rd(d), w))
            return ftc
        if k == 'delay':
            b = self.gen_stmt(s[2], scope)

            def fdel(env):
                raise _Stop('delay')
            return fdel
        if k in ('evwait', 'wait', 'forever', 'trigger', 'disable'):
            def fstop(env):
                raise _Stop(k)
            return fstop
        raise Unsupported('stmt %s' % k)

    def gen_case(self, s, scope):
        _, kind, ce, items = s
        w, sg = self.size(ce, scope)
        if ce[0] == 'id':
            o = self.lookup(ce, scope)
            if isinstance(o, Sig) and o not in self.case_sigs:
                self.case_sigs.append(o)
        for ls, _st in items:
            for l in ls or []:
                lw, lsg = self.size(l, scope)
                w = max(w, lw)
                sg = sg and lsg
        cf = self.gen(ce, scope, w, sg)
        prog = []
        deflt = None
        for ls, st in items:
            b = self.gen_stmt(st, scope)
            if ls is None:
                deflt = b
                continue
            tests = []
            for l in ls:
                m = 0
                if kind in ('casex', 'casez') and l[0] == 'num' and (l[4] or l[5]):
                    m = (l[5] | l[4]) if kind == 'casex' else l[5]
                elif l[0] == 'num' and (l[4] or l[5]):
                    m = None
                tests.append((self.gen(l, scope, w, sg), m))
            prog.append((tests, b))

        def run(i, env, cv):
            if i == len(prog):
                if deflt is not None:
                    deflt(env)
                return
            tests, b = prog[i]
            c = t.false()
            for f, m in tests:
                if m is None:
                    continue        # two-valued: never equal to an x pattern
                v = f(env)
                if m:
                    k = const(~m, w)
                    c = t.or_(c, t.eq(t.and_(cv, k), t.and_(v, k)))
                else:
                    c = t.or_(c, t.eq(cv, v))
                if c.op == 'const' and c.val:
                    break
            if c.op == 'const':
                if c.val:
                    b(env)
                else:
                    run(i + 1, env, cv)
                return
            _branch(env, c, b, lambda e: run(i + 1, e, cv))

        def fcase(env):
            cv = cf(env)
            if cv.op == 'const':
                # iterative fast path
                for i, (tests, b) in enumerate(prog):
                    hit = False
                    for f, m in tests:
                        if m is None:
                            continue
                        v = f(env)
                        if m:
                            kk = const(~m, w)
                            c = t.eq(t.and_(cv, kk), t.and_(v, kk))
                        else:
                            c = t.eq(cv, v)
                        if c.op != 'const':
                            return run(i, env, cv)
                        if c.val:
                            hit = True
                            break
                    if hit:
                        return b(env)
                if deflt is not None:
                    deflt(env)
                return
            run(0, env, cv)
        return fcase

    # ------------------------------------------------------------ compile all
    def _compile(self):
        self._cur = None
        for f in self.funcs:
            f.code = None
        # functions may call each other: compile in order, lazily resolved
        for f in self.funcs:
            body = [self.gen_stmt(x, f.scope) for x in f.body_ast]

            def code(env, body=body):
                for x in body:
                    x(env)
            f.code = code
        self.init_code = []
        for st, sc in self.initials:
            self._cur = set()
            self.init_code.append((self.gen_stmt(st, sc), sc))
            for s in self._cur:
                if s.local:
                    continue
                s.initd = True
        self.seq = []
        self.combs = []
        seqd, combd = set(), set()
        self.sim_only = []
        for ev, st, sc in self.always:
            if ev is None:
                self.sim_only.append((st, sc))
                continue
            self._cur = set()
            code = self.gen_stmt(st, sc)
            outs = set(s for s in self._cur if not s.local)
            self._cur = None
            edges = [e for e in ev if e[0] in ('posedge', 'negedge')]
            if edges:
                clks = []
                for kind, e in edges:
                    if e[0] != 'id':
                        raise Unsupported('clock expression')
                    clks.append((kind, self.lookup(e, sc)))
                self.seq.append((clks, code, outs))
                seqd |= outs
            else:
                b = (code, outs)
                self.combs.append(b)
                combd |= outs
                for s in outs:
                    if s.block is not None:
                        raise Unsupported('two combinational drivers of %s' % s.name)
                    s.block = b
                if ev[0][0] != 'any':
                    # level sensitivity list: treated as complete (checked)
                    pass
        self._cur = None
        # assigns
        for lhs, ls, rhs, rs in self.assigns:
            self._assign(lhs, ls, rhs, rs)
        for s in self.sigs:
            if s.local:
                continue
            if s.block is not None:
                s.drv = 'comb'
                if s in seqd or s.parts:
                    raise ElabError('multiple drivers of %s' % s.name)
            elif s.parts is not None:
                s.drv = 'wire'
                if s in seqd:
                    raise ElabError('multiple drivers of %s' % s.name)
            elif s.kind in ('reg', 'integer', 'real'):
                s.drv = 'state'
            elif s.dir == 'input' and '.' not in s.name:
                s.drv = 'input'
            else:
                s.drv = 'undriven'
        # roots of clocks
        self.seq = [([(k, self.root(c)) for k, c in clks], code, outs) for clks, code, outs in self.seq]

    def root(self, s):
        n = 0
        while s.alias is not None and n < 100:
            s = s.alias
            n += 1
        return s

    def _assign(self, lhs, ls, rhs, rs):
        if lhs[0] == 'cat':
            ws = [self.size(x, ls)[0] for x in lhs[1]]
            W = sum(ws)
            f = self.gen_assign(rhs, rs, W)
            hi = W
            for x, w in zip(lhs[1], ws):
                self._assign1(x, ls, (lambda env, f=f, hi=hi, w=w: extract(f(env), hi - 1, hi - w)), w)
                hi -= w
            return
        w, _ = self.size(lhs, ls)
        f = self.gen_assign(rhs, rs, w)
        s = self._assign1(lhs, ls, f, w)
        if s is not None and rhs[0] == 'id':
            o = self.lookup(rhs, rs)
            if isinstance(o, Sig) and not o.depth and o.w == s.w:
                s.alias = o

    def _assign1(self, lhs, ls, f, w):
        o, ch = self.target(lhs, ls)
        if not isinstance(o, Sig):
            raise ElabError('bad assign target %r' % (lhs,))
        if o.kind in ('reg', 'integer'):
            raise ElabError('continuous assignment to reg %s' % o.name)
        nd = len(o.dims)
        elem = None
        if nd:
            a = self.gen_elem(o, ch[:nd], ls)(_CENV)
            if not isinstance(a, int):
                raise ElabError('non-constant assign index')
            if a < 0:
                return None
            elem = a
        rest = ch[nd:]
        hi, lo = o.w - 1, 0
        if rest:
            s = rest[0]
            up = o.msb >= o.lsb
            if s[0] == 'idx':
                x = self.cint(s[2], ls)
                hi = lo = (x - o.lsb if up else o.lsb - x)
            elif s[0] == 'part':
                a, b = self.cint(s[2], ls), self.cint(s[3], ls)
                hi, lo = (a - o.lsb, b - o.lsb) if up else (o.lsb - a, o.lsb - b)
            else:
                a, n = self.cint(s[2], ls), self.cint(s[3], ls)
                lo = a - o.lsb if s[4] > 0 else a - o.lsb - n + 1
                hi = lo + n - 1
            if lo < 0 or hi >= o.w:
                raise Unsupported('assign out of range')
        if o.parts is None:
            o.parts = {}
        l = o.parts.setdefault(elem, [])
        for h2, l2, _ in l:
            if not (hi < l2 or lo > h2):
                raise ElabError('multiple drivers of %s' % o.name)
        l.append((hi, lo, f))
        l.sort(key=lambda x: -x[0])
        return o if not rest and not nd else None


class _Shared(Scope):
    """unnamed generate block: declares into the enclosing scope"""
    def __init__(self, scope):
        self.__dict__ = dict(scope.__dict__)
        self.module_top = False
        self.parent = scope


class _Stop(Exception):
    pass


class _CEnv(object):
    f = None
    guard = None
    comb = False
    sim = None

    def rd(self, key):
        raise ElabError('not a constant: %s' % (key,))
    rd_nba = rd


class _ConstEnv(Env):
    def __init__(self):
        Env.__init__(self, None)

    def rd(self, key):
        f = self.f
        while f is not None:
            v = f.blk.get(key)
            if v is not None:
                return v
            f = f.up
        raise ElabError('not a constant: %s' % (key,))


_CENV = _ConstEnv()


def _bigsh(g, x, y):
    n = y.val
    W = x.w
    if g is t.ashr:
        return sresize(extract(x, W - 1, W - 1), W)
    if n >= W:
        return const(0, W)
    return g(x, const(n, W))


def _ins(old, v, hi, lo):
    w = old.w
    if hi < 0 or lo >= w:
        return old
    if lo < 0:
        v = extract(v, v.w - 1, -lo)
        lo = 0
    if hi >= w:
        v = extract(v, v.w - 1 - (hi - w + 1), 0)
        hi = w - 1
    ps = []
    if hi < w - 1:
        ps.append(extract(old, w - 1, hi + 1))
    ps.append(v)
    if lo > 0:
        ps.append(extract(old, lo - 1, 0))
    return concat(*ps)


def _rdpart(env, o, hi, lo):
    """read only the bits needed (avoids false combinational loops)"""
    if o.drv == 'wire' and not o.depth and len(o.parts.get(None, ())) > 1:
        return env.sim.wire_part(o, None, hi, lo)
    return extract(env.rd(o), hi, lo)


def _branch(env, c, a, b):
    if c.op == 'const':
        if c.val:
            a(env)
        elif b is not None:
            b(env)
        return
    up = env.f
    g0 = env.guard
    env.f = fa = Frame(up)
    env.guard = c if g0 is None else t.and_(g0, c)
    if not t.isz(env.guard):
        a(env)
    env.f = fb = Frame(up)
    if b is not None:
        nc = t.not_(c)
        env.guard = nc if g0 is None else t.and_(g0, nc)
        if not t.isz(env.guard):
            b(env)
    env.f = up
    env.guard = g0
    for dst, x, y, rd in ((up.blk, fa.blk, fb.blk, env.rd), (up.nba, fa.nba, fb.nba, env.rd_nba)):
        for k in x:
            v = y.get(k)
            if v is None:
                v = rd(k)
            dst[k] = ite(c, x[k], v) if x[k].w == v.w else _bad(k)
        for k in y:
            if k not in x:
                dst[k] = ite(c, rd(k), y[k])


def _bad(k):
    raise Unsupported('width of %s' % (k,))


def _symloop(env, c, body, bound=64):
    def go(e, n):
        v = c(e)
        if v.op == 'const' and not v.val:
            return
        if n >= bound:
            raise Unsupported('loop bound')
        if v.op == 'const':
            body(e)
            return go(e, n + 1)

        def it(e2):
            body(e2)
            go(e2, n + 1)
        _branch(e, v, it, None)
    go(env, 0)


# ---------------------------------------------------------------------------
class Sim(object):
    """symbolic cycle simulator of a Design"""

    def __init__(self, design, initzero=False, prefix=''):
        self.d = design
        self.st = {}
        self.comb = {}
        self.inp = {}
        self.cycle = 0
        self.events = []
        self.busy = set()
        self.initvars = {}     # key -> var term (arbitrary initial values)
        self.initzero = initzero
        self.prefix = prefix
        self.freed = {}
        self.mixed = ()
        self._run_initial()
        self.mixed = design.nbsigs & design.blsigs

    def clone(self):
        s = Sim.__new__(Sim)
        s.__dict__.update(self.__dict__)
        s.st = dict(self.st)
        s.comb = dict(self.comb)
        s.inp = dict(self.inp)
        s.events = list(self.events)
        s.busy = set()
        s.initvars = dict(self.initvars)
        return s

    def _run_initial(self):
        for code, sc in self.d.init_code:
            env = Env(self, Frame())
            try:
                code(env)
            except _Stop:
                pass
            self.st.update(env.f.blk)
            self.st.update(env.f.nba)
            self.comb = {}

    # ----------------------------------------------------------------- values
    def keyname(self, key):
        if isinstance(key, tuple):
            return key[0].name + self.elemtext(key[0], key[1])
        return key.name

    @staticmethod
    def elemtext(sig, flat):
        ix = []
        for a, b in reversed(sig.dims):
            n = abs(a - b) + 1
            ix.append(flat % n + min(a, b))
            flat //= n
        return ''.join('[%d]' % i for i in reversed(ix))

    def value(self, key):
        v = self.st.get(key)
        if v is not None:
            return v
        sig = key[0] if isinstance(key, tuple) else key
        d = sig.drv
        if d == 'state' or sig.local:
            if isinstance(key, tuple) and not 0 <= key[1] < sig.depth:
                return const(0, sig.w)
            if self.initzero:
                v = const(0, sig.w)
            else:
                v = t.var('%s%s!init%d' % (self.prefix, self.keyname(key), sig.w), sig.w)
                self.initvars[key] = v
            self.st[key] = v
            return v
        v = self.comb.get(key)
        if v is not None:
            return v
        if d == 'input':
            v = self.inp.get(sig)
            if v is None:
                v = t.var('%s%s@%d' % (self.prefix, sig.name, self.cycle), sig.w)
                self.inp[sig] = v
            return v
        if d == 'undriven':
            v = t.var('%s%s?%d' % (self.prefix, self.keyname(key), self.cycle), sig.w)
            self.comb[key] = v
            return v
        if d == 'wire':
            elem = key[1] if isinstance(key, tuple) else None
            v = self.wire_part(sig, elem, sig.w - 1, 0)
            self.comb[key] = v
            return v
        if d == 'comb':
            b = sig.block
            if id(b) in self.busy:
                raise CombLoop(sig.name)
            self.busy.add(id(b))
            env = Env(self, Frame(), comb=True)
            # latch semantics: unassigned paths keep the previous value
            latch = _LatchFrame(self, b[1])
            env.f = Frame(latch)
            b[0](env)
            self.busy.discard(id(b))
            for k, x in env.f.blk.items():
                self.comb[k] = x
            v = self.comb.get(key)
            if v is None:
                v = latch.blk.get(key)
                self.comb[key] = v
            return v
        raise Unsupported('value of %s (%s)' % (sig.name, d))

    def wire_part(self, sig, elem, hi, lo):
        ps = sig.parts.get(elem)
        if not ps:
            k = (sig, elem) if elem is not None else sig
            v = t.var('%s%s?%d' % (self.prefix, self.keyname(k), self.cycle), sig.w)
            return extract(v, hi, lo)
        out = []
        top = hi
        for i, (h, l, f) in enumerate(ps):
            if h < lo or l > top:
                continue
            if h < top:
                out.append(self._hole(sig, elem, top, h + 1))
                top = h
            ck = (sig, elem, i)
            v = self.comb.get(ck)
            if v is None:
                if ck in self.busy:
                    raise CombLoop(sig.name)
                self.busy.add(ck)
                v = f(Env(self, None))
                self.busy.discard(ck)
                self.comb[ck] = v
            b = max(l, lo)
            out.append(extract(v, top - l, b - l))
            top = b - 1
            if top < lo:
                break
        if top >= lo:
            out.append(self._hole(sig, elem, top, lo))
        return concat(*out)

    def _hole(self, sig, elem, hi, lo):
        k = (sig, elem) if elem is not None else sig
        v = t.var('%s%s?%d' % (self.prefix, self.keyname(k), self.cycle), sig.w)
        return extract(v, hi, lo)

    # ------------------------------------------------------------------ user
    def sig(self, path):
        sc = self.d.top
        ps = path.split('.')
        for p in ps[:-1]:
            sc = sc.names.get(p)
            if not isinstance(sc, Scope):
                raise KeyError(path)
        o = sc.names.get(ps[-1])
        if not isinstance(o, Sig):
            raise KeyError(path)
        return o

    def get(self, path, elem=None):
        s = path if isinstance(path, Sig) else self.sig(path)
        return self.value((s, elem) if elem is not None else s)

    def set(self, path, v):
        """drive a top-level input for the current cycle"""
        s = self.sig(path)
        if s.drv != 'input':
            raise KeyError('%s is not an input' % path)
        if not isinstance(v, t.T):
            v = const(v, s.w)
        if v.w != s.w:
            raise ValueError('width of %s: %d vs %d' % (path, v.w, s.w))
        if self.inp.get(s) is not v:
            self.inp[s] = v
            self.comb = {}
        return v

    def poke(self, key, v):
        self.st[key] = v
        self.comb = {}

    def step(self, clk='CLK', edge='posedge'):
        c = self.sig(clk) if isinstance(clk, str) else clk
        env = Env(self, Frame())
        for clks, code, outs in self.d.seq:
            if any(k == edge and s is c for k, s in clks):
                if len(clks) > 1:
                    raise Unsupported('asynchronous reset')
                # blocking values are visible to other blocks only after this
                # one (single shared frame, source order)
                code(env)
        # latches
        for b in self.d.combs:
            for s in b[1]:
                if not s.depth and any(True for _ in (0,)):
                    pass
        new = {}
        new.update(env.f.blk)
        for k, v in env.f.nba.items():
            s = k[0] if isinstance(k, tuple) else k
            if s in self.mixed:
                old = new.get(k)
                v = t.rewrite([v], {t.var('%s%s?nba' % (self.prefix, self.keyname(k)), s.w): self.value(k) if old is None else old})[0]
            new[k] = v
        lat = {}
        for b in self.d.combs:
            for s in b[1]:
                for k in ([(s, i) for i in range(s.depth)] if s.depth else [s]):
                    if k in self.comb:
                        lat[k] = self.comb[k]
        self.latch = lat
        self.st.update(new)
        self.comb = {}
        self.inp = {}
        self.cycle += 1

    def subst(self, sub):
        """rewrite the whole state under a substitution"""
        keys = list(self.st)
        vals = t.rewrite([self.st[k] for k in keys], sub)
        self.st = dict(zip(keys, vals))
        self.comb = {}


class _LatchFrame(object):
    def __init__(self, sim, outs):
        self.sim = sim
        self.up = None
        self.nba = {}
        self.blk = _LatchDict(sim, outs)


class _LatchDict(dict):
    def __init__(self, sim, outs):
        dict.__init__(self)
        self.sim = sim
        self.outs = outs

    def get(self, key, default=None):
        v = dict.get(self, key)
        if v is not None:
            return v
        s = key[0] if isinstance(key, tuple) else key
        if s in self.outs:
            v = getattr(self.sim, 'latch', {}).get(key)
            if v is None:
                v = t.var('%s%s!latch%d' % (self.sim.prefix, self.sim.keyname(key), self.sim.cycle), s.w)
            self[key] = v
            return v
        return default

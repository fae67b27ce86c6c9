"""C37: dataflow graphs."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from checks.flow import flow
from checks.thlib import load

R = Registry('C37', 'symbolic execution of the generated dataflow modules with symbolic data, valid and ready in every cycle; z3 decides every cycle',
             ['veriloggen/dataflow/dtypes.py', 'veriloggen/dataflow/dataflow.py', 'veriloggen/dataflow/scheduler.py', 'veriloggen/dataflow/visitor.py',
              'veriloggen/dataflow/allocator.py', 'veriloggen/dataflow/mul.py', 'veriloggen/dataflow/div.py', 'veriloggen/seq/seq.py', 'veriloggen/types/fixed.py',
              'veriloggen/types/rom.py'],
             assumptions=['an offered element is held until it is accepted', 'valid-only inputs of one graph are offered together', 'divisors are not zero'],
             explanation='window of symbolic stalls, then a drain with the sinks ready')

VR, V, P = 'vr', 'v', ''
W = 40


def build(src, ins, outs, kind, consts=()):
    def f():
        import veriloggen.dataflow as df
        import veriloggen.core.vtypes as vt
        df.reset()
        env = {'df': df, 'vt': vt}
        for n, spec in ins.items():
            w, p, s = spec
            env[n] = df.Variable(n, valid='v' + n if 'v' in kind else None, ready='r' + n if 'r' in kind else None, width=w, point=p, signed=s)
        for n, (w, p, s) in dict(consts).items():
            env[n] = df.ParameterVariable(n, width=w, point=p, signed=s)
        load(src, env, 'flow')
        nodes = []
        for n in outs:
            env['o' + n].output(n, valid='v' + n if 'v' in kind else None, ready='r' + n if 'r' in kind else None)
            nodes.append(env['o' + n])
        d = df.Dataflow(*nodes)
        m = d.to_module('dut')
        return m, d.pipeline_depth() or 0
    return f


def num(v, s):
    return (t.sresize if s else t.zresize)(v, W)


def flowc(name, body, ins, outs, ref, cycles=4, drain=None, kinds=(VR,), tier='quick', consts=None, lat=None, depth=3, groups=None, pre=None, **kw):
    """ins: {name: (width, point, signed) | width (signed)}; outs: {name: width}; ref(x, k, a): x[name][i] = value (W bits) of the i-th element"""
    ins = {n: (s, 0, True) if isinstance(s, int) else s for n, s in ins.items()}
    consts = {n: (s, 0, True) if isinstance(s, int) else s for n, s in (consts or {}).items()}
    for kd in kinds:
        def rr(e, k, a, ref=ref):
            x = {n: [num(v, ins[n][2]) for v in q] for n, q in e.items()}
            pa = {n: num(v, consts[n][2]) for n, v in a.items()}
            return ref(x, k, pa)
        R.add('%s_%s' % (name, kd or 'plain'),
              flow(None, {n: (s[0], kd) for n, s in ins.items()}, {n: (w, kd) for n, w in outs.items()}, rr, cycles, drain or depth + cycles + 2,
                   more={n: s[0] for n, s in consts.items()}, builder=build(body, ins, outs, kd, consts), paired=True, groups=groups, checkw=True, pre=pre), tier)


def one(b):
    return ite(b, const(1, W), const(0, W))


def at(q, k, d=0):
    return q[k] if k >= 0 else const(d, W)


def asr(v, n):
    return t.ashr(v, const(n, W))


def wrap(v, w, s=True):
    return (t.sresize if s else t.zresize)(t.zresize(v, w), W)


# ---- operators: signed and unsigned
OPS = {
    'add': ('x + y', 8, lambda x, y: x + y), 'sub': ('x - y', 8, lambda x, y: x - y),
    'and': ('x & y', 8, lambda x, y: x & y), 'or': ('x | y', 8, lambda x, y: x | y), 'xor': ('x ^ y', 8, lambda x, y: x ^ y),
    'xnor': ('df.Xnor(x, y)', 8, lambda x, y: ~(x ^ y)),
    'eq': ('x == y', 1, lambda x, y: one(x.eq(y))), 'ne': ('x != y', 1, lambda x, y: one(t.not_(x.eq(y)))),
    'lt': ('x < y', 1, lambda x, y: one(t.slt(x, y))), 'le': ('x <= y', 1, lambda x, y: one(t.sle(x, y))),
    'gt': ('x > y', 1, lambda x, y: one(t.slt(y, x))), 'ge': ('x >= y', 1, lambda x, y: one(t.sle(y, x))),
    'land': ('df.Land(x, y)', 1, lambda x, y: one(t.and_(x.nz(), y.nz()))), 'lor': ('df.Lor(x, y)', 1, lambda x, y: one(t.or_(x.nz(), y.nz()))),
    'neg': ('-x + (y - y)', 8, lambda x, y: -x), 'not': ('~x ^ (y & 0)', 8, lambda x, y: ~x),
    'lnot': ('df.Ulnot(x) & (y == y)', 1, lambda x, y: one(x.eq(0))),
    'cond': ('df.Mux(x > y, x, y)', 8, lambda x, y: ite(t.slt(y, x), x, y)),
    'abs': ('df.Abs(x) + (y - y)', 8, lambda x, y: ite(t.slt(x, const(0, W)), -x, x)),
    'sign': ('df.Sign(x) & (y == y)', 1, lambda x, y: one(t.sle(const(0, W), x))),
    'mulc': ('x + y + 3', 8, lambda x, y: x + y + 3), 'cneg': ('x - 5 + y', 8, lambda x, y: x - 5 + y),
    'ltc': ('(x < 5) & (y > -3)', 1, lambda x, y: one(t.and_(t.slt(x, const(5, W)), t.slt(const(-3, W), y)))),
}
for n, (e, w, f) in OPS.items():
    for sg in (True, False):
        if not sg and n in ('ltc', 'sign'):
            continue
        flowc('%s_%s' % (n, 's' if sg else 'u'), 'oz = ' + e, {'x': (8, 0, sg), 'y': (8, 0, sg)}, {'z': w}, lambda x, k, a, f=f: {'z': f(x['x'][k], x['y'][k])},
              kinds=(VR,) if sg else (V,), cycles=3, depth=4)
for n, e, w, f in (('uand', 'df.Uand(x)', 1, lambda x: one(x.eq(255))), ('uor', 'df.Uor(x)', 1, lambda x: one(x.nz())), ('uxor', 'df.Uxor(x)', 1, None),
                   ('unand', 'df.Unand(x)', 1, lambda x: one(t.not_(x.eq(255)))), ('unor', 'df.Unor(x)', 1, lambda x: one(x.eq(0))), ('uxnor', 'df.Uxnor(x)', 1, None),
                   ('bit3', 'x[3]', 1, lambda x: t.lshr(x, const(3, W)) & 1), ('bit7', 'x[7]', 1, lambda x: t.lshr(x, const(7, W)) & 1),
                   ('slice', 'df.Slice(x, 6, 2)', 5, lambda x: t.lshr(x, const(2, W)) & 31), ('slice1', 'df.Slice(x, 4, 4)', 1, lambda x: t.lshr(x, const(4, W)) & 1),
                   ('repeat', 'df.Repeat(x, 2)', 16, lambda x: x * 257), ('sll', 'x << 3', 11, lambda x: x * 8), ('srl', 'df.Srl(x, 2)', 8, lambda x: t.lshr(x, const(2, W))),
                   ('sllv', 'df.Cat(x, df.Slice(x, 7, 4))', 12, lambda x: x * 16 + t.lshr(x, const(4, W))), ('uplus', '+x', 8, lambda x: x)):
    if f is None:
        def f(x, n=n):
            r = t.extract(x, 0, 0)
            for i in range(1, 8):
                r = r ^ t.extract(x, i, i)
            return t.zresize(~r if n == 'uxnor' else r, W)
    flowc(n, 'oz = ' + e, {'x': (8, 0, False)}, {'z': w}, lambda x, k, a, f=f: {'z': f(x['x'][k])}, kinds=(VR, P), cycles=3)
flowc('sra', 'oz = df.Sra(x, 2)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': asr(x['x'][k], 2)}, kinds=(VR, P))
flowc('sra_var', 'oz = df.Sra(x, y)', {'x': 8, 'y': (3, 0, False)}, {'z': 8}, lambda x, k, a: {'z': t.ashr(x['x'][k], x['y'][k])}, cycles=3)
flowc('srl_var', 'oz = df.Srl(x, y)', {'x': (8, 0, False), 'y': (3, 0, False)}, {'z': 8}, lambda x, k, a: {'z': t.lshr(x['x'][k], x['y'][k])}, cycles=3)
flowc('sll_var', 'oz = x << y', {'x': (8, 0, False), 'y': (3, 0, False)}, {'z': 16}, lambda x, k, a: {'z': t.shl(x['x'][k], x['y'][k])}, cycles=3)
flowc('shr_op', 'oz = x >> 2', {'x': (8, 0, False)}, {'z': 8}, lambda x, k, a: {'z': t.lshr(x['x'][k], const(2, W))}, cycles=3)
flowc('bit_var', 'oz = x[y]', {'x': (8, 0, False), 'y': (3, 0, False)}, {'z': 1}, lambda x, k, a: {'z': t.lshr(x['x'][k], x['y'][k]) & 1}, cycles=3)
flowc('cat3', 'oz = df.Cat(x, y, x)', {'x': (4, 0, False), 'y': (3, 0, False)}, {'z': 11}, lambda x, k, a: {'z': x['x'][k] * 128 + x['y'][k] * 16 + x['x'][k]}, cycles=3)
flowc('mixed_width', 'oz = x + y', {'x': 8, 'y': 5}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] + x['y'][k]}, cycles=3)
flowc('mux_const', 'oz = df.Mux(x > 3, 10, -7)', {'x': 8}, {'z': 5}, lambda x, k, a: {'z': ite(t.slt(const(3, W), x['x'][k]), const(10, W), const(-7, W))}, cycles=3)
flowc('lut', 'oz = df.LUT(x, [3, 1, 4, 1, 5, 9, 2, 6], width=8)', {'x': (3, 0, False)}, {'z': 8},
      lambda x, k, a: {'z': t.select([const(v, W) for v in (3, 1, 4, 1, 5, 9, 2, 6)], t.zresize(x['x'][k], 3))}, kinds=(VR, P))
flowc('custom', 'oz = df.CustomOp(lambda a, b: vt.Mux(a > b, a - b, b - a), x, y)', {'x': 8, 'y': 8}, {'z': 8},
      lambda x, k, a: {'z': ite(t.slt(x['y'][k], x['x'][k]), x['x'][k] - x['y'][k], x['y'][k] - x['x'][k])}, cycles=3)

# ---- multiplication and division
for sx in (True, False):
    for sy in (True, False):
        flowc('mul_%s%s' % ('us'[sx], 'us'[sy]), 'oz = x * y', {'x': (4, 0, sx), 'y': (4, 0, sy)}, {'z': 4}, lambda x, k, a: {'z': x['x'][k] * x['y'][k]}, cycles=2, depth=7)
flowc('mul_wide', 'oz = x * y', {'x': (8, 0, True), 'y': (3, 0, True)}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] * x['y'][k]}, cycles=3, depth=7, kinds=(VR, V, P))
flowc('mul_const', 'oz = x * 5', {'x': (8, 0, True)}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] * 5}, cycles=3, depth=7)
flowc('muladd', 'oz = x * y + z0', {'x': (4, 0, True), 'y': (4, 0, True), 'z0': 4}, {'z': 4}, lambda x, k, a: {'z': x['x'][k] * x['y'][k] + x['z0'][k]}, cycles=2, depth=8)
flowc('mul_then', 'oz = x * 3 - x', {'x': (8, 0, True)}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] * 2}, cycles=3, depth=8, kinds=(VR, P))


def quot(x, y, w, s):
    r = t.sdiv(x, y) if s else t.udiv(x, y)
    return r


def nonzero(x):
    return t.not_(x.eq(0))


def divs(what, kf):
    """most negative signed dividends and unsigned operands with the top bit set are kept apart"""
    for sg in (True, False):
        def pre(e, sg=sg):
            x, y = e['x'], e['y']
            bad = t.or_(x.eq(8), y.eq(8)) if sg else t.or_(x.uge(8), y.uge(8))
            return [y.nz(), bad if kf else t.not_(bad)]
        op = '/' if what == 'div' else '%'
        f = {('div', True): t.sdiv, ('div', False): t.udiv, ('mod', True): t.srem, ('mod', False): t.urem}[what, sg]
        flowc('%s%s_%s' % ('kf_' if kf else '', what, 'us'[sg]), 'oz = x %s y' % op, {'x': (4, 0, sg), 'y': (4, 0, sg)}, {'z': 4},
              lambda x, k, a, f=f: {'z': f(x['x'][k], x['y'][k])}, cycles=1 if kf else 2, depth=11, kinds=(V,) if kf else (VR, P), pre=pre)


for what in ('div', 'mod'):
    divs(what, False)
    divs(what, True)
flowc('div_const', 'oz = x / 3', {'x': (7, 0, True)}, {'z': 7}, lambda x, k, a: {'z': t.sdiv(x['x'][k], const(3, W))}, cycles=2, depth=14, kinds=(VR,), pre=lambda e: [t.not_(e['x'].eq(64))])
flowc('mod_const', 'oz = x % 4 + y', {'x': (7, 0, True), 'y': 7}, {'z': 7}, lambda x, k, a: {'z': t.srem(x['x'][k], const(4, W)) + x['y'][k]}, cycles=2, depth=14, kinds=(VR,),
      pre=lambda e: [t.not_(e['x'].eq(64))])

# ---- fixed point
flowc('fx_add', 'oz = x + y', {'x': (8, 4, True), 'y': (8, 2, True)}, {'z': 10}, lambda x, k, a: {'z': x['x'][k] + x['y'][k] * 4}, cycles=3)
flowc('fx_sub_int', 'oz = x - y', {'x': (8, 4, True), 'y': (6, 0, True)}, {'z': 10}, lambda x, k, a: {'z': x['x'][k] - x['y'][k] * 16}, cycles=3)
flowc('fx_lt', 'oz = x < y', {'x': (8, 4, True), 'y': (8, 2, True)}, {'z': 1}, lambda x, k, a: {'z': one(t.slt(x['x'][k], x['y'][k] * 4))}, cycles=3)
flowc('fx_eq', 'oz = x == y', {'x': (8, 4, True), 'y': (8, 2, True)}, {'z': 1}, lambda x, k, a: {'z': one(x['x'][k].eq(x['y'][k] * 4))}, cycles=3)
flowc('fx_ge_u', 'oz = x >= y', {'x': (8, 4, False), 'y': (8, 2, False)}, {'z': 1}, lambda x, k, a: {'z': one(t.sle(x['y'][k] * 4, x['x'][k]))}, cycles=3)
flowc('fx_const', 'oz = x + df.Constant(1.5, point=4)', {'x': (8, 4, True)}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] + 24}, cycles=3)
flowc('fx_mul', 'oz = x * y', {'x': (6, 3, True), 'y': (6, 2, True)}, {'z': 6}, lambda x, k, a: {'z': asr(x['x'][k] * x['y'][k], 2)}, cycles=2, depth=7)
flowc('fx_mul_u', 'oz = x * y', {'x': (5, 2, False), 'y': (5, 2, False)}, {'z': 5}, lambda x, k, a: {'z': asr(x['x'][k] * x['y'][k], 2)}, cycles=2, depth=7)
flowc('fx_cond', 'oz = df.Mux(x > y, x, y)', {'x': (8, 4, True), 'y': (8, 2, True)}, {'z': 10},
      lambda x, k, a: {'z': ite(t.slt(x['y'][k] * 4, x['x'][k]), x['x'][k], x['y'][k] * 4)}, cycles=3)

# ---- alignment, sharing, several outputs
flowc('pass', 'oz = x', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': x['x'][k]}, kinds=(VR, V, P))
flowc('chain', 'oz = ((x + 3) - 5) + 9', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] + 7}, kinds=(VR, V, P), cycles=5, depth=3)
flowc('diamond', 'a = x + 1\nb = a - 3\noz = b + x', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] * 2 - 2}, kinds=(VR, V, P), cycles=4)
flowc('unbal_in', 'oz = (x + 1 + 2) + y', {'x': 8, 'y': 8}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] + 3 + x['y'][k]}, kinds=(VR, V, P), cycles=4)
flowc('two_out', 'oz = x + y\now = x - y', {'x': 8, 'y': 8}, {'z': 8, 'w': 8}, lambda x, k, a: {'z': x['x'][k] + x['y'][k], 'w': x['x'][k] - x['y'][k]}, kinds=(VR, V, P), cycles=4)
flowc('unbal_out', 'ow = x + 1\noz = (ow + 1) + 1', {'x': 8}, {'z': 8, 'w': 8}, lambda x, k, a: {'z': x['x'][k] + 3, 'w': x['x'][k] + 1}, kinds=(VR, V, P), cycles=4)
flowc('pass_and', 'ow = x\noz = x + 1', {'x': 8}, {'z': 8, 'w': 8}, lambda x, k, a: {'z': x['x'][k] + 1, 'w': x['x'][k]}, kinds=(VR, V, P), cycles=4)
flowc('kf_fork_join', 'ow = y + 1\noz = x + y', {'x': 8, 'y': 8}, {'z': 8, 'w': 8}, lambda x, k, a: {'z': x['x'][k] + x['y'][k], 'w': x['y'][k] + 1},
      groups={'z': ['x', 'y'], 'w': ['y']}, kinds=(VR,), cycles=4)
flowc('kf_fork_join3', 'ow = y + 1\noz = x + y\nou = x - 1', {'x': 8, 'y': 8}, {'z': 8, 'w': 8, 'u': 8},
      lambda x, k, a: {'z': x['x'][k] + x['y'][k], 'w': x['y'][k] + 1, 'u': x['x'][k] - 1}, groups={'z': ['x', 'y'], 'w': ['y'], 'u': ['x']}, kinds=(VR,), cycles=4)
flowc('kf_fork_join_one', 'oz = (x + y) + (x + u)', {'x': 8, 'y': 8, 'u': 8}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] * 2 + x['y'][k] + x['u'][k]}, kinds=(VR,), cycles=4)
flowc('three_in', 'oz = df.Mux(x > 0, y, z0)', {'x': 8, 'y': 8, 'z0': 8}, {'z': 8}, lambda x, k, a: {'z': ite(t.slt(const(0, W), x['x'][k]), x['y'][k], x['z0'][k])}, kinds=(VR, V), cycles=4)
flowc('cat_in', 'oz = df.Cat(x, y)', {'x': 4, 'y': 4}, {'z': 8}, lambda x, k, a: {'z': t.zresize(t.concat(t.zresize(x['x'][k], 4), t.zresize(x['y'][k], 4)), W)}, kinds=(VR,), cycles=4)
flowc('param', 'oz = x + c', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] + a['c']}, consts={'c': 8}, kinds=(VR, P))
flowc('alias', 'b = df.Variable(x + 1, width=8)\noz = b + 2', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] + 3}, kinds=(VR, P))

# ---- previous values
flowc('prev1', 'oz = x - x.prev(1)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': at(x['x'], k) - at(x['x'], k - 1)}, kinds=(VR, V, P))
flowc('prev2', 'oz = x + x.prev(2)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': at(x['x'], k) + at(x['x'], k - 2)}, kinds=(VR, V, P))
flowc('prev_mix', 'oz = x.prev(3) - x.prev(1)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': at(x['x'], k - 3) - at(x['x'], k - 1)}, kinds=(VR, V, P))
flowc('prev_out', 'oz = x.prev(1)\now = x + 1', {'x': 8}, {'z': 8, 'w': 8}, lambda x, k, a: {'z': at(x['x'], k - 1), 'w': x['x'][k] + 1}, kinds=(VR, V, P))
flowc('prev_mid', 'b = x + 1\noz = b - b.prev(1)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] + 1 - (x['x'][k - 1] + 1 if k else const(0, W))}, kinds=(VR, V), cycles=4)
flowc('prev_late', 'b = x + 1 + 2\noz = b - x.prev(1)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] + 3 - at(x['x'], k - 1)}, kinds=(VR, V, P), cycles=4)
flowc('prev_prev', 'oz = x.prev(1).prev(1) + x', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': at(x['x'], k - 2) + x['x'][k]}, kinds=(VR, V, P))
flowc('prev_two', 'oz = x.prev(1) + y', {'x': 8, 'y': 8}, {'z': 8}, lambda x, k, a: {'z': at(x['x'], k - 1) + x['y'][k]}, kinds=(VR, V), cycles=4)


# ---- reductions and counters
def fold(f, init, q, k, w=8, s=True, size=None, en=None, rs=None):
    """value after element k; size: groups; en/rs: lists of conditions"""
    r = const(init, W)
    n = const(0, W)
    for i in range(k + 1):
        e = t.true() if en is None else en[i].nz()
        base = r
        if size is not None:
            base = ite(n.eq(0), const(init, W), base)
        if rs is not None:
            base = ite(rs[i].nz(), const(init, W), base)
        nr = wrap(f(base, q[i]), w, s)
        if rs is not None and en is not None:
            r = ite(e, nr, ite(rs[i].nz(), const(init, W), r))
        else:
            r = ite(e, nr, r)
        if size is not None:
            n = ite(e, ite(n.eq(size - 1), const(0, W), n + 1), n)
    return r


ADD, SUB, MUL = (lambda r, x: r + x), (lambda r, x: r - x), (lambda r, x: r * x)
flowc('radd', 'oz = df.ReduceAdd(x)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': fold(ADD, 0, x['x'], k)}, kinds=(VR, V))
flowc('radd_init', 'oz = df.ReduceAdd(x, initval=7)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': fold(ADD, 7, x['x'], k)}, kinds=(VR, V))
flowc('radd_width', 'oz = df.ReduceAdd(x, width=12)', {'x': 8}, {'z': 12}, lambda x, k, a: {'z': fold(ADD, 0, x['x'], k, 12)}, kinds=(VR,))
flowc('rsub', 'oz = df.ReduceSub(x)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': fold(SUB, 0, x['x'], k)}, kinds=(VR, V), cycles=3)
flowc('rmul', 'oz = df.ReduceMul(x, initval=1)', {'x': 4}, {'z': 4}, lambda x, k, a: {'z': fold(MUL, 1, x['x'], k, 4)}, kinds=(VR,), cycles=3)
flowc('rcustom', 'oz = df.ReduceCustom(lambda l, r: vt.Mux(l > r, l, r), x, initval=-128)', {'x': 8}, {'z': 8},
      lambda x, k, a: {'z': fold(lambda r, x: ite(t.slt(x, r), r, x), -128, x['x'], k)}, kinds=(VR, V))
flowc('radd_size', 'oz = df.ReduceAdd(x, size=3)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': fold(ADD, 0, x['x'], k, size=3)}, kinds=(VR, V), cycles=5)
flowc('radd_size1', 'oz = df.ReduceAdd(x, size=1, initval=2)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] + 2}, kinds=(VR,), cycles=4)
flowc('radd_en', 'oz = df.ReduceAdd(x, enable=y)', {'x': 8, 'y': (1, 0, False)}, {'z': 8}, lambda x, k, a: {'z': fold(ADD, 0, x['x'], k, en=x['y'])}, kinds=(VR, V), cycles=4)
flowc('radd_enw', 'oz = df.ReduceAdd(x, enable=y > 3)', {'x': 8, 'y': 4}, {'z': 8}, lambda x, k, a: {'z': fold(ADD, 0, x['x'], k, en=[one(t.slt(const(3, W), v)) for v in x['y']])}, kinds=(VR,), cycles=3)
flowc('radd_rst', 'oz = df.ReduceAdd(x, reset=y, initval=1)', {'x': 8, 'y': (1, 0, False)}, {'z': 8}, lambda x, k, a: {'z': fold(ADD, 1, x['x'], k, rs=x['y'])}, kinds=(VR, V), cycles=4)
flowc('radd_en_rst', 'oz = df.ReduceAdd(x, enable=y, reset=r)', {'x': 8, 'y': (1, 0, False), 'r': (1, 0, False)}, {'z': 8},
      lambda x, k, a: {'z': fold(ADD, 0, x['x'], k, en=x['y'], rs=x['r'])}, kinds=(VR, V), cycles=4)
flowc('radd_size_en', 'oz = df.ReduceAdd(x, size=2, enable=y)', {'x': 8, 'y': (1, 0, False)}, {'z': 8}, lambda x, k, a: {'z': fold(ADD, 0, x['x'], k, size=2, en=x['y'])}, kinds=(VR, V), cycles=4)
flowc('radd_param', 'oz = df.ReduceAdd(x, size=c)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': foldp(x['x'], k, a['c'])}, consts={'c': (3, 0, False)}, kinds=(VR,), cycles=4)


def foldp(q, k, n):
    r, c = const(0, W), const(0, W)
    for i in range(k + 1):
        r = wrap(ite(c.eq(0), const(0, W), r) + q[i], 8)
        c = ite(c.eq(n - 1), const(0, W), c + 1)
    return r


def pulse(k, size, en=None):
    n, p = const(0, W), const(0, W)
    for i in range(k + 1):
        e = t.true() if en is None else en[i].nz()
        p = ite(e, one(n.eq(size - 1)), p)
        n = ite(e, ite(n.eq(size - 1), const(0, W), n + 1), n)
    return p


flowc('radd_valid', 'oz, ow = df.ReduceAddValid(x, 3)', {'x': 8}, {'z': 8, 'w': 1}, lambda x, k, a: {'z': fold(ADD, 0, x['x'], k, size=3), 'w': const(1 if k % 3 == 2 else 0, W)}, kinds=(VR, V), cycles=5)
flowc('radd_valid_en', 'oz, ow = df.ReduceAddValid(x, 2, enable=y)', {'x': 8, 'y': (1, 0, False)}, {'z': 8, 'w': 1},
      lambda x, k, a: {'z': fold(ADD, 0, x['x'], k, size=2, en=x['y']), 'w': pulse(k, 2, x['y'])}, kinds=(VR,), cycles=4)
flowc('rcustom_valid', 'oz, ow = df.ReduceCustomValid(lambda l, r: l ^ r, x, 2)', {'x': 8}, {'z': 8, 'w': 1},
      lambda x, k, a: {'z': fold(lambda r, x: r ^ x, 0, x['x'], k, size=2), 'w': const(k % 2, W)}, kinds=(VR,), cycles=4)
flowc('counter', 'oz = df.Counter(control=x)', {'x': 8}, {'z': 32}, lambda x, k, a: {'z': const(k, W)}, kinds=(VR, V), cycles=4)
flowc('counter_step', 'oz = df.Counter(step=3, initval=4, control=x)', {'x': 8}, {'z': 32}, lambda x, k, a: {'z': const(4 + 3 * k, W)}, kinds=(VR,), cycles=4)
flowc('counter_size', 'oz = df.Counter(size=3, control=x)', {'x': 8}, {'z': 32}, lambda x, k, a: {'z': const(k % 3, W)}, kinds=(VR,), cycles=5)
flowc('counter_en', 'oz = df.Counter(enable=y)', {'y': (1, 0, False)}, {'z': 32}, lambda x, k, a: {'z': cnt(x['y'], k)}, kinds=(VR, V), cycles=4)
flowc('counter_rst', 'oz = df.Counter(reset=y)', {'y': (1, 0, False)}, {'z': 32}, lambda x, k, a: {'z': cntr(x['y'], k)}, kinds=(VR, V), cycles=4)
flowc('pulse', 'oz = df.Pulse(3, control=x)', {'x': 8}, {'z': 1}, lambda x, k, a: {'z': const(1 if k % 3 == 2 else 0, W)}, kinds=(VR,), cycles=5)
flowc('average', 'oz = df.Sra(x + x.prev(1), 1)', {'x': (8, 0, True)}, {'z': 8}, lambda x, k, a: {'z': asr(wrap(x['x'][k] + at(x['x'], k - 1), 8), 1)}, kinds=(VR, V, P))
flowc('mac', 'oz = df.ReduceAdd(x * y, size=2)', {'x': 4, 'y': 4}, {'z': 4}, lambda x, k, a: {'z': fold(ADD, 0, [p * q for p, q in zip(x['x'], x['y'])], k, 4, size=2)}, kinds=(VR,), cycles=2, depth=8)


def cnt(en, k):
    r = const(-1, W)
    for i in range(k + 1):
        r = ite(en[i].nz(), r + 1, r)
    return r


def cntr(rs, k):
    r = const(-1, W)
    for i in range(k + 1):
        r = ite(rs[i].nz(), const(0, W), r + 1)
    return r
flowc('lut5', 'oz = df.LUT(x, [3, 1, 4, 1, 5], width=8)', {'x': (3, 0, False)}, {'z': 8},
      lambda x, k, a: {'z': t.select([const(v, W) for v in (3, 1, 4, 1, 5, 0, 0, 0)], t.zresize(x['x'][k], 3))}, kinds=(VR,), pre=lambda e: [e['x'].ult(5)])
flowc('const_bool', 'oz = x + df.Constant(True)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] + 1}, kinds=(VR,))
flowc('fork_depths', 'a = x + 1\nb = a + 2\nc = b + 3\noz = df.Cat(a, c)\now = b', {'x': 4}, {'z': 8, 'w': 4},
      lambda x, k, a: {'z': t.zresize(t.concat(t.zresize(x['x'][k] + 1, 4), t.zresize(x['x'][k] + 6, 4)), W), 'w': x['x'][k] + 3}, kinds=(VR, V, P), cycles=4, depth=4)
flowc('mul_beside', 'oz = x * y + (x + y)', {'x': 4, 'y': 4}, {'z': 4}, lambda x, k, a: {'z': x['x'][k] * x['y'][k] + x['x'][k] + x['y'][k]}, cycles=3, depth=8, kinds=(VR, V))
flowc('prev_deep', 'b = x + 1 + 2\noz = b.prev(2) + x', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': x['x'][k] + (x['x'][k - 2] + 3 if k >= 2 else const(0, W))}, kinds=(VR, V), cycles=4)
flowc('prev_shared', 'p = x.prev(2)\noz = x + p\now = p + x.prev(1)', {'x': 8}, {'z': 8, 'w': 8},
      lambda x, k, a: {'z': x['x'][k] + at(x['x'], k - 2), 'w': at(x['x'], k - 1) + at(x['x'], k - 2)}, kinds=(VR, V), cycles=4)
flowc('radd_prev', 'oz = df.ReduceAdd(x).prev(1)', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': fold(ADD, 0, x['x'], k - 1) if k else const(0, W)}, kinds=(VR, V), cycles=4)
flowc('radd_of', 'oz = df.ReduceAdd(x + 1) - x', {'x': 8}, {'z': 8}, lambda x, k, a: {'z': fold(ADD, 0, [v + 1 for v in x['x']], k) - x['x'][k]}, kinds=(VR, V), cycles=3)

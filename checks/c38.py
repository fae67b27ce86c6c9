"""C38: pipelines built from explicit stages."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from checks.flow import flow

R = Registry('C38', 'symbolic execution of the generated pipelines with symbolic data, valid and ready in every cycle; z3 decides every cycle',
             ['veriloggen/pipeline/pipeline.py', 'veriloggen/seq/seq.py', 'veriloggen/core/vtypes.py', 'veriloggen/verilog/to_verilog.py'],
             assumptions=['an offered element is held until it is accepted', 'valid-only inputs of one pipeline are accepted together'],
             explanation='window of symbolic stalls, then a drain with the sinks ready')

VR, V, P = 'vr', 'v', ''

HEAD = '''
import veriloggen.pipeline.pipeline as pl
p = pl.Pipeline(m, 'p', CLK, RST%s)
'''


def inp(ins, kinds):
    r = []
    for n in ins:
        k = kinds.get(n)
        a = [n] + (["valid=v" + n] if 'v' in k else []) + (['ready=r' + n] if 'r' in k else [])
        r.append('p%s = p.input(%s)' % (n, ', '.join(a)))
    return '\n'.join(r) + '\n'


def outp(outs):
    r = []
    for n, (w, k) in outs.items():
        a = [n] + (["valid=v" + n] if 'v' in k else []) + (['ready=r' + n] if 'r' in k else [])
        r.append('o%s.output(%s)' % (n, ', '.join(a)))
    return '\n'.join(r) + '\np.make_always()\n'


def pipe(name, body, ins, outs, ref, cycles=6, drain=8, tier='quick', opts='', kinds=(VR, V, P), lat=None, **kw):
    for k in kinds:
        i = {n: (w, k) for n, w in ins.items()}
        o = {n: (w, k) for n, w in outs.items()}
        src = HEAD % opts + inp(i, {n: k for n in i}) + body + '\n' + outp(o)
        R.add('%s_%s' % (name, k or 'plain'), flow(src, i, o, ref, cycles, drain, latency={n: lat for n in o}, **kw), tier)


def Z(v, w=32):
    return t.zresize(v, w)


def at(q, k, d=0, w=32):
    return Z(q[k], w) if k >= 0 else const(d, w)


pipe('stage1', 'oz = p.stage(px + 3)', {'x': 8}, {'z': 32}, lambda e, k, a: {'z': Z(e['x'][k]) + 3}, lat=1)
pipe('stage3', 'oz = p(p(p(px + 3) * 2) - 1)', {'x': 8}, {'z': 32}, lambda e, k, a: {'z': (Z(e['x'][k]) + 3) * 2 - 1}, lat=3)
pipe('passthrough', 'oz = px', {'x': 8}, {'z': 8}, lambda e, k, a: {'z': e['x'][k]}, lat=0)
pipe('two_in', 'oz = p(px + py)', {'x': 8, 'y': 8}, {'z': 32}, lambda e, k, a: {'z': Z(e['x'][k]) + Z(e['y'][k])}, lat=1, cycles=5)
pipe('unbalanced_in', 'oz = p(p(px * 2) + py)', {'x': 8, 'y': 8}, {'z': 32}, lambda e, k, a: {'z': Z(e['x'][k]) * 2 + Z(e['y'][k])}, lat=2, cycles=4)
pipe('two_out', 'a = p(px + 1)\noz = p(a + 1)\now = p(a - 1)', {'x': 8}, {'z': 32, 'w': 32},
     lambda e, k, a: {'z': Z(e['x'][k]) + 2, 'w': Z(e['x'][k])}, lat=2, cycles=5)
pipe('unbalanced_out', 'ow = p(px + 1)\noz = p(p(ow + 1))', {'x': 8}, {'z': 32, 'w': 32},
     lambda e, k, a: {'z': Z(e['x'][k]) + 2, 'w': Z(e['x'][k]) + 1}, lat=3, cycles=5)
pipe('skip', 'a = p(px + 1)\nb = p(a + 1)\noz = p(b + px)', {'x': 8}, {'z': 32}, lambda e, k, a: {'z': Z(e['x'][k]) * 2 + 2}, lat=3, cycles=5)
pipe('skip_expr', 'a = p(p(px + 1))\noz = p(a - (px - 7))', {'x': 8}, {'z': 32}, lambda e, k, a: {"z": const(8, 32)}, lat=3, cycles=4)
for op, py in (('neg', '-px'), ('not', '~px'), ('lnot', 'vt.Ulnot(px)'), ('rxor', 'vt.Uxor(px)'), ('ror', 'vt.Uor(px)'), ('rand', 'vt.Uand(px)')):
    f = {'neg': lambda x: -Z(x), 'not': lambda x: ~Z(x), 'lnot': lambda x: Z(x.eq(0).bv() if hasattr(x.eq(0), 'bv') else ite(x.eq(0), const(1, 1), const(0, 1))),
         'rxor': lambda x: Z(ite(t.redxor(x), const(1, 1), const(0, 1))) if t.redxor(x).w == 0 else Z(t.redxor(x)),
         'ror': lambda x: ite(x.nz(), const(1, 32), const(0, 32)), 'rand': lambda x: ite(x.eq(255), const(1, 32), const(0, 32))}[op]
    pipe('op_' + op, 'oz = p(%s)' % py, {'x': 8}, {'z': 32}, lambda e, k, a, f=f: {'z': f(e['x'][k])}, lat=1, kinds=(V,), cycles=3, drain=4)

# ---- operators
B8 = {'add': 'px + py', 'sub': 'px - py', 'mul': 'px * py', 'and': 'px & py', 'or': 'px | py', 'xor': 'px ^ py', 'lt': 'px < py', 'ge': 'px >= py',
      'eq': 'px == py', 'land': 'vt.Land(px, py)', 'sll': 'px << (py & 7)', 'srl': 'px >> (py & 7)', 'cat': 'vt.Cat(px, py)', 'rep': 'vt.Repeat(px, 2) ^ py',
      'cond': 'vt.Cond(px > py, px, py)', 'const': '(px + 1) * 3 + (py & 0xf)'}


def one(b):
    return ite(b, const(1, 32), const(0, 32))


F8 = {'add': lambda x, y: Z(x) + Z(y), 'sub': lambda x, y: Z(x) - Z(y), 'mul': lambda x, y: Z(x) * Z(y), 'and': lambda x, y: Z(x & y), 'or': lambda x, y: Z(x | y),
      'xor': lambda x, y: Z(x ^ y), 'lt': lambda x, y: one(x.ult(y)), 'ge': lambda x, y: one(t.not_(x.ult(y))), 'eq': lambda x, y: one(x.eq(y)),
      'land': lambda x, y: one(t.and_(x.nz(), y.nz())), 'sll': lambda x, y: t.shl(Z(x), Z(t.extract(y, 2, 0))), 'srl': lambda x, y: t.lshr(Z(x), Z(t.extract(y, 2, 0))),
      'cat': lambda x, y: Z(t.concat(x, y)), 'rep': lambda x, y: Z(t.concat(x, x)) ^ Z(y), 'cond': lambda x, y: Z(ite(y.ult(x), x, y)),
      'const': lambda x, y: (Z(x) + 1) * 3 + Z(y & 15)}
for n, py in B8.items():
    WX = 4 if n == 'mul' else 8
    pipe('bin_' + n, 'oz = p(%s)' % py, {'x': WX, 'y': WX}, {'z': 32}, lambda e, k, a, f=F8[n]: {'z': f(e['x'][k], e['y'][k])}, lat=1, kinds=(VR,), cycles=3, drain=4)
    if n in ('mul',):
        continue
    pipe('late_' + n, 'a = p(px, width=8)\npx = a\noz = p(%s)' % py, {'x': 8, 'y': 8}, {'z': 32}, lambda e, k, a, f=F8[n]: {'z': f(e['x'][k], e['y'][k])}, lat=2,
         kinds=(VR,), cycles=3, drain=5)

# ---- widths
pipe('narrow_stage', 'oz = p.stage(p.stage(px + 200, width=8) + 1, width=16)', {'x': 8}, {'z': 16}, lambda e, k, a: {'z': t.zresize(e['x'][k] + 200, 16) + 1}, lat=2)
pipe('default_width', 'oz = p(p(px * 3) * 3)', {'x': 8}, {'z': 8}, lambda e, k, a: {'z': t.zresize(t.zresize(t.zresize(e['x'][k] * 3, 6), 8) * 3, 6)}, opts=', width=6', lat=2)
pipe('wide_out_delay', 'a = p.stage(px + 1, width=40)\now = a\noz = p(p(px))', {'x': 40}, {'w': 40, 'z': 32}, lambda e, k, a: {'w': e['x'][k] + 1, 'z': t.extract(e['x'][k], 31, 0)}, lat=2)
pipe('wide_in_delay', 'a = p(p(px & 0xff))\noz = p.stage(a + px, width=40)', {'x': 40}, {'z': 40}, lambda e, k, a: {'z': e['x'][k] + Z(t.extract(e['x'][k], 7, 0), 40)}, lat=3)

# ---- previous values
pipe('prev1', 'oz = p(px - px.prev(1))', {'x': 8}, {'z': 32}, lambda e, k, a: {'z': at(e['x'], k) - at(e['x'], k - 1)}, lat=1)
pipe('prev2', 'oz = p(px + px.prev(2) * 2)', {'x': 8}, {'z': 32}, lambda e, k, a: {'z': at(e['x'], k) + at(e['x'], k - 2) * 2}, lat=1)
pipe('prev_init', 'oz = p(px + px.prev(2, initval=5) * 2)', {'x': 8}, {'z': 32}, lambda e, k, a: {'z': at(e['x'], k) + at(e['x'], k - 2, 5) * 2}, lat=1)
pipe('prev_shared', 'oz = p(px.prev(1) + px.prev(3) * 2)\now = p(px.prev(2) + px)', {'x': 8}, {'z': 32, 'w': 32},
     lambda e, k, a: {'z': at(e['x'], k - 1) + at(e['x'], k - 3) * 2, 'w': at(e['x'], k - 2) + at(e['x'], k)}, lat=1)
pipe('prev_order', 'b = px.prev(3)\na = px.prev(1)\noz = p(a + b * 2)', {'x': 8}, {'z': 32}, lambda e, k, a: {'z': at(e['x'], k - 1) + at(e['x'], k - 3) * 2}, lat=1)
pipe('prev_of_prev', 'oz = p(px.prev(1).prev(1) + px)', {'x': 8}, {'z': 32}, lambda e, k, a: {'z': at(e['x'], k - 2) + at(e['x'], k)}, lat=1)
pipe('prev_zero', 'oz = p(px.prev(0) + 1)', {'x': 8}, {'z': 32}, lambda e, k, a: {'z': at(e['x'], k) + 1}, lat=1)
pipe('prev_mid', 'a = p(px + 1)\noz = p(a - a.prev(1))', {'x': 8}, {'z': 32}, lambda e, k, a: {'z': (at(e['x'], k) + 1) - ((at(e['x'], k - 1) + 1) if k else const(0, 32))},
     kinds=(VR, V), cycles=5)
pipe('prev_late', 'a = p(px + 1)\noz = p(a + px.prev(1))', {'x': 8}, {'z': 32}, lambda e, k, a: {'z': at(e['x'], k) + 1 + at(e['x'], k - 1)}, lat=2, cycles=5)
pipe('prev_two_in', 'oz = p(px.prev(1) + py.prev(2) + py)', {'x': 8, 'y': 8}, {'z': 32}, lambda e, k, a: {'z': at(e['x'], k - 1) + at(e['y'], k - 2) + at(e['y'], k)}, lat=1, cycles=4)
pipe('prev_out', 'oz = px.prev(1)\now = p(px)', {'x': 8}, {'z': 8, 'w': 8}, lambda e, k, a: {'z': at(e['x'], k - 1, 0, 8), 'w': e['x'][k]}, lat=1)
pipe('fir', 'oz = p(px + px.prev(1) * 3 + px.prev(2) * 5 + px.prev(3) * 7)', {'x': 4}, {'z': 32},
     lambda e, k, a: {'z': at(e['x'], k) + at(e['x'], k - 1) * 3 + at(e['x'], k - 2) * 5 + at(e['x'], k - 3) * 7}, lat=1, cycles=4)


# ---- accumulators
def fold(f, init, q, k, w=32):
    r = const(init, w)
    for i in range(k + 1):
        r = f(r, Z(q[i], w))
    return r


ACC = {'add': (lambda r, x: r + x, 0), 'sub': (lambda r, x: r - x, 9), 'and': (lambda r, x: r & x, 255), 'or': (lambda r, x: r | x, 0), 'xor': (lambda r, x: r ^ x, 3),
       'nand': (lambda r, x: ~(r & x), 0), 'nor': (lambda r, x: ~(r | x), 0), 'xnor': (lambda r, x: ~(r ^ x), 0),
       'max': (lambda r, x: ite(x.ult(r), r, x), 4), 'min': (lambda r, x: ite(r.ult(x), r, x), 200)}
for n, (f, init) in ACC.items():
    pipe('acc_' + n, 'oz = p.acc_%s(px, initval=%d)' % (n, init), {'x': 8}, {'z': 32}, lambda e, k, a, f=f, init=init: {'z': fold(f, init, e['x'], k)}, lat=1, kinds=(VR, V), cycles=4)
    pipe('acc_%s_long' % n, 'oz = p.acc_%s(px, initval=%d)' % (n, init), {'x': 8}, {'z': 32}, lambda e, k, a, f=f, init=init: {'z': fold(f, init, e['x'], k)}, lat=1,
         kinds=(VR, V), cycles=5, tier='thorough')
for n, f in (('div', t.udiv), ('mod', t.urem)):
    pipe('acc_' + n, 'oz = p.acc_%s(px | 1, initval=1000, width=10)' % n, {'x': 3}, {'z': 10}, lambda e, k, a, f=f: {'z': fold(lambda r, x: f(r, x | 1), 1000, e['x'], k, 10)},
         lat=1, kinds=(VR, V), cycles=3, drain=5)
pipe('acc_mul', 'oz = p.acc_mul(px, initval=1)', {'x': 4}, {'z': 32}, lambda e, k, a: {'z': fold(lambda r, x: r * x, 1, e['x'], k)}, lat=1, kinds=(VR, V), cycles=3, drain=5)
pipe('acc_custom', 'oz = p.acc_custom(px, lambda l, r: l * 2 + r)', {'x': 4}, {'z': 32}, lambda e, k, a: {'z': fold(lambda r, x: r * 2 + x, 0, e['x'], k)}, lat=1, kinds=(VR, V))
pipe('acc_custom2', 'oz = p.acc_custom(px, [lambda l, r: l + r, vt.Unot])', {'x': 4}, {'z': 32}, lambda e, k, a: {'z': fold(lambda r, x: ~(r + x), 0, e['x'], k)}, lat=1, kinds=(VR,), cycles=4)
pipe('acc_narrow', 'oz = p.acc_add(px, width=5)', {'x': 5}, {'z': 5}, lambda e, k, a: {'z': fold(lambda r, x: r + x, 0, e['x'], k, 5)}, lat=1)
pipe('acc_expr', 'oz = p(p.acc_add(p(px * 2) + 1) + 5)', {'x': 5}, {'z': 32}, lambda e, k, a: {'z': fold(lambda r, x: r + x * 2 + 1, 0, e['x'], k) + 5}, kinds=(VR, V), cycles=5)
pipe('acc_two', 'oz = p.acc_add(px + py)\now = p.acc_max(py)', {'x': 5, 'y': 5}, {'z': 32, 'w': 32},
     lambda e, k, a: {'z': fold(lambda r, x: r + x, 0, e['x'], k) + fold(lambda r, x: r + x, 0, e['y'], k),
                      'w': fold(lambda r, x: ite(x.ult(r), r, x), 0, e['y'], k)}, kinds=(VR, V), cycles=3, groups={'z': ['x', 'y'], 'w': ['y']})
pipe('acc_avg', 'a = p.acc_add(px)\noz = p(a - px)', {'x': 5}, {'z': 32}, lambda e, k, a: {'z': fold(lambda r, x: r + x, 0, e['x'], k) - Z(e['x'][k])}, kinds=(VR, V), cycles=5)
pipe('acc_prev', 'oz = p.acc_add(px - px.prev(1))', {'x': 5}, {'z': 32}, lambda e, k, a: {'z': Z(e['x'][k])}, kinds=(VR, V), cycles=5)
pipe('held_operand', 'oz = p(p(px + c) * c)', {'x': 5}, {'z': 32}, lambda e, k, a: {'z': (Z(e['x'][k]) + Z(a['c'])) * Z(a['c'])}, lat=2, more={'c': 3}, cycles=4)


def restart(c):
    """an accumulator with a restart condition starts over; elements are offered only without it"""
    from checks.flow import build
    src = HEAD % '' + inp({'x': 0}, {'x': 'v'}) + "oz = p.acc_add(px, initval=3, resetcond=rs)\n" + outp({'z': (32, 'v')})
    h = c.hw(c.verilog('d', build(src, {'x': (8, 'v')}, {'z': (32, 'v')}, {'rs': 1})), 'dut')
    for n in ('x', 'vx', 'rs'):
        h.set(n, 0)
    h.reset()
    acc = const(3, 32)
    for s in range(6):
        x, v, r = c.fresh('x%d' % s, 8), c.fresh('v%d' % s, 1), c.fresh('rs%d' % s, 1)
        c.assume(t.implies(r.nz(), v.eq(0)))
        h.set('x', x)
        h.set('vx', v)
        h.set('rs', r)
        h.step()
        acc = ite(r.nz(), const(3, 32), ite(v.nz(), acc + Z(x), acc))
        c.check('valid, cycle %d' % s, h.get('vz').eq(v))
        c.check('value, cycle %d' % s, t.implies(v.nz(), h.get('z').eq(acc)))


R.add('acc_restart', restart)

# ---- ready chains: several consumers, sources joined and forked
FORKS = {
    'fork_two_sinks': ('oz = p(px + 1)\now = p(px * 2)', ['x'], {'z': lambda x, y: x + 1, 'w': lambda x, y: x * 2}, None),
    'fork_then_join': ('a = p(px + 1)\nb = p(px * 2)\noz = p(a + b)', ['x'], {'z': lambda x, y: x * 3 + 1}, None),
    'join_fork_late': ('a = p(px + 1)\nb = p(py + 2)\noz = p(a + b)\now = p(b * 2)', ['x', 'y'],
                       {'z': lambda x, y: x + y + 3, 'w': lambda x, y: (y + 2) * 2}, None),
    'join_fork_both': ('oz = p(px + py)\now = p(px - 1)\nou = p(py + 5)', ['x', 'y'], {'z': lambda x, y: x + y, 'w': lambda x, y: x - 1, 'u': lambda x, y: y + 5},
                       {'z': ['x', 'y'], 'w': ['x'], 'u': ['y']}),
    'join_in_depth': ('a = p(px + 1)\noz = p(a + py)\now = p(py + 5)', ['x', 'y'], {'z': lambda x, y: x + y + 1, 'w': lambda x, y: y + 5}, {'z': ['x', 'y'], 'w': ['y']}),
}
for n, (body, i, f, g) in FORKS.items():
    pipe(n, body, {k: 6 for k in i}, {k: 32 for k in f}, lambda e, k, a, f=f: {o: fn(Z(e['x'][k]), Z(e['y'][k]) if 'y' in e else None) for o, fn in f.items()},
         cycles=5, drain=10, kinds=(VR,), groups=g)

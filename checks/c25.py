"""Pipelined multipliers, multiply-adders and dividers return exact results at their latency."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite

R = Registry('C25', 'model_checking', ['types/mul.py', 'stream/mul.py', 'stream/madd.py', 'stream/div.py', 'dataflow/mul.py', 'dataflow/div.py',
                                       'verilog/from_verilog.py'],
             assumptions=['operand widths up to 8 bits (dividers up to 5, 7 in the thorough tier)', 'divisors are not zero',
                          'divider: operands signed as its parameters say'],
             explanation='Arithmetic pipelines with symbolic operands and an arbitrary stall (update) pattern; each result compared with the exact '
                         'product, sum or truncated quotient and remainder of the operands accepted latency updates earlier; valid flags likewise.')


def sx(v, s, w):
    return v.sx(w) if s else v.zx(w)


class Pipe(object):
    """n-stage shift model advanced on update; entries None until filled"""

    def __init__(self, n, mk):
        self.q = [mk() for _ in range(n)]

    def push(self, up, items):
        new = [items] + self.q[:-1]
        self.q = [tuple(ite(up, a, b) for a, b in zip(x, y)) for x, y in zip(new, self.q)]

    def out(self):
        return self.q[-1]


def drive(c, h, n, lat, ops, cycles, check, with_update=True, enable=None, valid=None, rst=False):
    """ops: [(port, width)]; check(args)->[(port, expected)] when filled"""
    for p, w in ops:
        h.set(p, 0)
    for x in ('update', 'enable'):
        if h.has(x):
            h.set(x, 0)
    if h.has('RST'):
        h.reset()
    zero = tuple(const(0, w) for p, w in ops) + (const(0, 1), const(0, 1))     # operands, filled, enable
    pipe = Pipe(lat, lambda: zero)
    for s in range(cycles):
        vs = tuple(c.fresh('%s%d' % (p, s), w) for p, w in ops)
        up = c.fresh('u%d' % s, 1) if with_update else const(1, 1)
        en = c.fresh('e%d' % s, 1) if enable else const(1, 1)
        for (p, w), v in zip(ops, vs):
            h.set(p, v)
        if with_update:
            h.set('update', up)
        if enable:
            h.set(enable, en)
        h.step()
        pipe.push(up.eq(1), vs + (const(1, 1), en))
        o = pipe.out()
        filled = o[-2].eq(1)
        if valid:
            c.check('%s valid after cycle %d' % (n, s), h.get(valid).eq(t.and_(o[-2], o[-1])) if True else None)
        for port, e, guard in check(o[:-2]):
            g = filled if guard is None else t.and_(filled, guard)
            c.check('%s %s after cycle %d' % (n, port, s), t.implies(g, h.get(port).eq(e)))


def mul_def(mod, lw, rw, ls, rs, depth, up=True, en=True, form='def'):
    def f():
        import veriloggen as vg
        if mod == 'types':
            from veriloggen.types import mul
            if form == 'def':
                return mul.mkMultiplier('dut', ls, rs, depth, up, en)
            m = vg.Module('dut')
            clk, rst = m.Input('CLK'), m.Input('RST')
            a, b = m.Input('a', lw, signed=ls), m.Input('b', rw, signed=rs)
            u = m.Input('update') if up else None
            e = m.Input('enable') if en else None
            kw = {} if form == 'obj' else {'lwidth': lw, 'rwidth': rw}
            x = mul.Multiplier(m, 'mm', clk, rst, a, b, e, u, lsigned=ls, rsigned=rs, depth=depth, **kw)
            m.Output('c', lw + rw).assign(x.value)
            if en:
                m.Output('valid').assign(x.valid)
            return m
        if mod == 'stream':
            from veriloggen.stream import mul
        else:
            from veriloggen.dataflow import mul
        return mul.get_mul(lw, rw, ls, rs, depth)
    return f


def mul_scn(mod, lw, rw, ls, rs, depth, up=True, en=True, form='def', cycles=None):
    def sc(c):
        txt = c.verilog('d', mul_def(mod, lw, rw, ls, rs, depth, up, en, form))
        top = 'dut' if mod == 'types' else 'multiplier_0'
        prm = {'lwidth': lw, 'rwidth': rw} if mod == 'types' and form == 'def' else None
        h = c.hw(txt, top, params=prm)
        W = lw + rw
        has_en = h.has('enable')
        drive(c, h, 'mul', depth, [('a', lw), ('b', rw)], cycles or depth + 2,
              lambda o: [('c', sx(o[0], ls, W) * sx(o[1], rs, W), None)], with_update=up, enable='enable' if has_en else None,
              valid='valid' if has_en else None)
    return sc


def madd_scn(aw, bw, cw, sa, sb, sc_, depth):
    def gen():
        from veriloggen.stream import madd
        return madd.get_madd(aw, bw, cw, sa, sb, sc_, depth)

    def sc(c):
        h = c.hw(c.verilog('d', gen), 'madd_0')
        W = max(aw + bw, cw)
        drive(c, h, 'madd', depth, [('a', aw), ('b', bw), ('c', cw)], depth + 2,
              lambda o: [('d', sx(o[0], sa, W) * sx(o[1], sb, W) + sx(o[2], sc_, W), None)])
    return sc


def divmodel(a, b, sa, sb):
    """exact truncated quotient and remainder, two bits wider than the operands"""
    w = a.w + 2
    A, B = sx(a, sa, w), sx(b, sb, w)
    absf = lambda v: ite(v.slt(0), -v, v)
    q = t.udiv(absf(A), absf(B))
    r = t.urem(absf(A), absf(B))
    return ite(A.slt(0) ^ B.slt(0), -q, q), ite(A.slt(0), -r, r)


def div_scn(mod, w, sa, sb, so, cycles=None, upd=True):
    def gen():
        if mod == 'stream':
            from veriloggen.stream import div
        else:
            from veriloggen.dataflow import div
        return div.get_div()

    def sc(c):
        prm = {'W_D': w}
        if mod == 'stream':
            prm.update(A_SIGNED=int(sa), B_SIGNED=int(sb), O_SIGNED=int(so))
        h = c.hw(c.verilog('d', gen), 'Divider', params=prm)

        def chk(o):
            q, r = divmodel(o[0], o[1], sa, sb)
            ok = o[1].ne(0)
            return [('rslt', t.extract(q, w - 1, 0), ok), ('mod', t.extract(r, w - 1, 0), ok)]
        drive(c, h, 'div', w + 2, [('in_a', w), ('in_b', w)], cycles or w + 3, chk, with_update=True, enable='enable', valid='valid')
    return sc


SG = [(True, True), (False, False), (True, False), (False, True)]
for ls, rs in SG:
    n = '%s%s' % ('su'[not ls], 'su'[not rs])
    for mod in ('types', 'stream', 'dataflow'):
        for lw, rw, d in ((4, 4, 6), (5, 3, 2), (1, 6, 3), (6, 2, 4)):
            R.add('mul_%s_%s_%dx%d_d%d' % (mod, n, lw, rw, d), mul_scn(mod, lw, rw, ls, rs, d), bounds='all operands, any stalls, depth %d' % d)
    for up in (True, False):
        for en in (True, False):
            for form in ('def', 'obj', 'objw'):
                R.add('mul_types_%s_%s_u%d_e%d' % (form, n, up, en), mul_scn('types', 4, 3, ls, rs, 3, up, en, form), bounds='update and enable optional')
    for s3 in (True, False):
        for aw, bw, cw, d in ((4, 3, 5, 3), (3, 3, 8, 2), (2, 5, 3, 6)):
            R.add('madd_%s%s_%d_%d_%d_d%d' % (n, 'su'[not s3], aw, bw, cw, d), madd_scn(aw, bw, cw, ls, rs, s3, d), bounds='all operands, any stalls')
for w in (3, 4, 5):
    R.add('div_dataflow_%d' % w, div_scn('dataflow', w, True, True, True), bounds='%d-bit signed operands, any stalls' % w, timeout=600, weight=w)
    for sa, sb, so in ((True, True, True), (False, False, False)):
        R.add('div_stream_%d_%s' % (w, 'su'[not sa]), div_scn('stream', w, sa, sb, so), bounds='%d-bit operands, any stalls' % w, timeout=600, weight=w)
for w in (6, 7):
    R.add('div_dataflow_%d' % w, div_scn('dataflow', w, True, True, True), tier='thorough', bounds='%d-bit signed operands' % w, timeout=900)
    R.add('div_stream_%d_u' % w, div_scn('stream', w, False, False, False), tier='thorough', bounds='%d-bit operands' % w, timeout=900)
R.add('mul_wide', mul_scn('stream', 8, 8, True, True, 6), tier='thorough', bounds='8x8', timeout=900)

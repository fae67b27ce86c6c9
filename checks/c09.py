"""Delayed, kept and previous-value sequence actions happen on time."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import ite, const
from .seqlib import op, declare, compare, V, INS, REGS
from .c08 import seq_scn

R = Registry('C09', 'model_checking', ['seq/seq.py', 'fsm/fsm.py'],
             assumptions=['two-state logic, arbitrary register contents before the first reset'],
             explanation='Seq programs with Delay/Keep/EagerVal/LazyCond (method and keyword forms) are compared with history shift registers '
                         'printed independently; previous values are compared with the recorded input history. All inputs and reset pulses symbolic.')

P = {}
P['delay'] = []
for _d in (1, 2, 3):
    for _kw in (False, True):
        o = dict(kw=_kw)
        P['delay'] += [
            [op('If', ['a'], [('r0', 'x')], delay=_d, **o)],
            [op('call', [], [('r0', 'x')], delay=_d, **o)],
            [op('If', ['a'], [('r0', 'x'), ('r1', ('+', 'r1', 1))], delay=_d, eager=True, **o)],
            [op('If', ['a'], [('r2', 'z'), (('slice', 'r3', 6, 3), 'x')], delay=_d, eager=True, **o), op('If', ['b'], [('f0', 'd')])],
            [op('If', ['a'], [('r0', 'x')], delay=_d, lazy=True, **o)],
            [op('If', ['a'], [('r0', 'x'), ('f1', 1)], delay=_d, lazy=True, eager=True, **o)],
            [op('call', [], [('r0', 'x')], delay=_d, eager=True, **o)],
        ]
P['mixed'] = [
    [op('If', ['a'], [('r0', 'x')]), op('Else', [], [('r1', 'y')], delay=1)],
    [op('If', ['a'], [('r0', 'x')], delay=1), op('Else', [], [('r1', 'y')])],
    [op('If', ['a'], [('r0', 'x')], delay=1), op('Else', [], [('r1', 'y')], delay=2)],
    [op('If', ['a'], [('r0', 'x')], delay=2), op('Elif', ['b'], [('r1', 'y')])],
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b'], [('r1', 'y')], delay=1)],
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b'], [('r1', 'y')], delay=1, eager=True), op('Else', [], [('r2', 'z')], delay=2)],
    [op('If', ['a'], [('r0', 'x')]), op('Then', [], [('r1', 'y')], delay=1), op('Then', [], [('f0', 'd')], delay=2)],
    [op('If', ['a'], [('r0', 'x')], delay=1), op('If', ['b'], [('r0', 'y')])],
    [op('If', ['a'], [('r0', 'x')], delay=1), op('If', ['a'], [('r1', 'r0')], delay=2), op('If', ['a'], [('r2', 'r1')], delay=3)],
    [op('If', ['a', 'b'], [('r0', 'x')], delay=1, eager=True), op('If', ['a'], [('r1', 'x')], delay=2, eager=True), op('call', [], [('r3', ('+', 'r3', 1))])],
    [op('If', ['a'], [('r0', 'x')], delay=0), op('Else', [], [('r1', 'y')], delay=0)],
]
P['separated'] = [
    [op('If', ['a'], [('r0', 'x')], delay=1), op('Elif', ['b'], [('r1', 'y')]), op('Else', [], [('r2', 'z')])],
    [op('If', ['a'], [('r0', 'x')], delay=1), op('Elif', ['b'], [('r1', 'y')]), op('Elif', ['d'], [('r2', 'z')]), op('Else', [], [('f0', 0)])],
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b'], [('r1', 'y')], delay=1), op('Else', [], [('r2', 'z')])],
]
P['elif_then_call'] = [
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b'], [('r1', 'y')], delay=1), op('call', [], [('r2', 'z')])],
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b'], [('r1', 'y')], keep=2), op('call', [], [('r2', 'z')])],
]
P['keep'] = []
for _n in (1, 2, 3, 4):
    for _kw in (False, True):
        P['keep'].append([op('If', ['a'], [('r0', 'x'), ('r1', ('+', 'r1', 1))], keep=_n, kw=_kw)])
    P['keep'].append([op('If', ['a'], [('r0', 'x')], keep=_n, delay=1)])
    P['keep'].append([op('If', ['a'], [('r0', 'x')], keep=_n, eager=True)])
    P['keep'].append([op('If', ['a'], [('r0', 'x')], keep=_n), op('Else', [], [('r1', 'y')])])
    P['keep'].append([op('If', ['a'], [('r0', 'x')], keep=_n, delay=2, eager=True, kw=True)])
for _k, _v in P.items():
    R.add('%s_seq' % _k, seq_scn(_v, 6, True), bounds='6 cycles from any state, reset pulses anywhere, delay 0..3, keep 1..4')
    if _k != 'separated' and _k != 'elif_then_call':
        R.add('%s_norst' % _k, seq_scn(_v, 5, False), bounds='5 cycles from zero state, no reset input')
    R.add('%s_long' % _k, seq_scn(_v, 11, True), tier='thorough', bounds='11 cycles', timeout=900)


# ----------------------------------------------------------------- previous values
def prev_scn(kind, owner):
    def gen():
        import veriloggen as vg
        m = vg.Module('dut')
        clk, rst = m.Input('CLK'), m.Input('RST')
        env = {}
        declare(m, env)
        s = vg.Seq(m, 's', clk, rst) if owner == 'seq' else vg.FSM(m, 's', clk, rst)
        outs = []

        def out(name, v, w, signed=False):
            o = m.Output(name, w, signed=signed)
            o.assign(v)
        x, z, a = env['x'], env['z'], env['a']
        if kind == 'plain':
            for k in (0, 1, 2, 3, 4):
                out('o%d' % k, s.Prev(x, k), 4)
            out('oz', s.Prev(z, 2), 6, True)
            out('oz2', s.Prev(z, 1), 6, True)
            out('oa', s.Prev(a, 3), 1)
        elif kind == 'order':
            out('o3', s.Prev(x, 3), 4)
            out('o1', s.Prev(x, 1), 4)
            out('o2', s.Prev(x, 2), 4)
            out('o3b', s.Prev(x, 3), 4)
        elif kind == 'expr':
            out('e2', s.Prev(x + env['y'], 2), 4)
            out('e1', s.Prev(x ^ env['y'], 1), 4)
            out('es', s.Prev(x[1:3], 1), 2)
            out('ec', s.Prev(vg.Cat(x, a), 2), 5)
            out('k', s.Prev(7, 2), 4)
        elif kind == 'init':
            out('o2', s.Prev(x, 2, initval=9), 4)
        elif kind == 'prefix':
            out('o2', s.Prev(x, 2, prefix='_q_'), 4)
            out('o1', s.Prev(x, 1, prefix='_r_'), 4)
        elif kind == 'cond':
            out('o2', s.Prev(x, 2, cond=a), 4)
            out('o1', s.Prev(x, 1, cond=a), 4)
            out('o1b', s.Prev(x, 1, cond=env['b']), 4)
        elif kind == 'condmix':
            out('p1', s.Prev(x, 1), 4)
            out('o1', s.Prev(x, 1, cond=a), 4)
            out('o2', s.Prev(x, 2, cond=a), 4)
            out('p2', s.Prev(x, 2), 4)
        elif kind == 'used':
            s.If(s.Prev(a, 2))(env['r0'](s.Prev(x, 1)))
            out('q', env['r0'], 4)
        return m

    def sc(c):
        h = c.hw(c.verilog('d', gen), 'dut')
        h.set('RST', 1)
        for nm in INS:
            if h.has(nm):
                h.set(nm, 0)
        h.step()
        h.step()
        hist = {n: [] for n in INS}
        q = const(0, 4)
        ch = {}

        def past(n, k, iv=0):
            H = hist[n]
            w = INS[n][0]
            return H[-k] if k <= len(H) else const(iv, w)
        for cyc in range(7):
            ins = {n: c.fresh('%s%d' % (n, cyc), w) for n, (w, s) in INS.items()}
            rst = c.fresh('rst%d' % cyc, 1) if cyc == 4 else const(0, 1)
            h.set('RST', rst)
            for n, v in ins.items():
                if h.has(n):
                    h.set(n, v)
            P_ = lambda n, k, iv=0: past(n, k, iv) if k else ins[n]
            E = {}
            if kind == 'plain':
                for k in range(5):
                    E['o%d' % k] = P_('x', k)
                E['oz'] = P_('z', 2).sx(6)
                E['oz2'] = P_('z', 1).sx(6)
                E['oa'] = P_('a', 3)
            elif kind == 'order':
                E = {'o1': P_('x', 1), 'o2': P_('x', 2), 'o3': P_('x', 3), 'o3b': P_('x', 3)}
            elif kind == 'expr':
                E['e2'] = P_('x', 2) + P_('y', 2)
                E['e1'] = P_('x', 1) ^ P_('y', 1)
                E['es'] = P_('x', 1)[2:1]
                E['ec'] = t.concat(P_('x', 2), P_('a', 2))
                E['k'] = const(7, 4)
            elif kind == 'init':
                E['o2'] = P_('x', 2, 9)
            elif kind == 'prefix':
                E = {'o2': P_('x', 2), 'o1': P_('x', 1)}
            elif kind in ('cond', 'condmix'):
                g = lambda nm: ch.get(nm, const(0, 4))
                E = {'o1': g('A1'), 'o2': g('A2')}
                if kind == 'cond':
                    E['o1b'] = g('B1')
                else:
                    E['p1'], E['p2'] = P_('x', 1), P_('x', 2)
            elif kind == 'used':
                E = {'q': q}
            for n, v in E.items():
                c.eqv('%s cycle %d' % (n, cyc), h.get(n), v)
            # reset clears the recorded history (value 0 / initval)
            q = ite(rst, const(0, 4), ite(P_('a', 2), P_('x', 1), q))
            nA1 = ite(ins['a'], ins['x'], ch.get('A1', const(0, 4)))
            nA2 = ite(ins['a'], ch.get('A1', const(0, 4)), ch.get('A2', const(0, 4)))
            nB1 = ite(ins['b'], ins['x'], ch.get('B1', const(0, 4)))
            z4 = const(0, 4)
            ch = {'A1': ite(rst, z4, nA1), 'A2': ite(rst, z4, nA2), 'B1': ite(rst, z4, nB1)}
            iv = 9 if kind == 'init' else 0
            for n, (w, s) in INS.items():
                H = hist[n]
                hist[n] = [ite(rst, const(iv, w), v) for v in ([const(iv, w)] * max(0, 4 - len(H)) + H + [ins[n]])][-5:]
            h.step()
    return sc


for _o in ('seq', 'fsm'):
    for _k in ('plain', 'order', 'expr', 'init', 'prefix', 'cond', 'condmix', 'used'):
        if _o == 'fsm' and _k == 'used':
            continue
        R.add('prev_%s_%s' % (_k, _o), prev_scn(_k, _o), bounds='7 cycles, depth up to 4, one reset pulse')

"""Clocked sequences update registers exactly under their conditions."""
from vlib.harness import Registry
from vlib import term as t
from .seqlib import (op, Ref, apply_api, declare, ref_head, ref_actions, compare, obs_of, REGS, V)

R = Registry('C08', 'model_checking', ['seq/seq.py', 'seq/reset_visitor.py', 'seq/subst_visitor.py'],
             assumptions=['two-state logic, arbitrary register contents before the first reset'],
             explanation='Seq programs written as chains of If/Elif/Else/Then/cond= calls are built through the API and compared with '
                         'an always block whose guards are computed independently; all inputs and reset pulses symbolic in every cycle.')


def seq_scn(progs, cycles=3, rst=True, form='seq', reset='any', skip=0):
    def gen(p):
        def f():
            import veriloggen as vg
            m = vg.Module('dut')
            clk = m.Input('CLK')
            r = m.Input('RST')
            env = {}
            declare(m, env)
            if form == 'tmp':
                s = vg.TmpSeq(m, clk, r if rst else None)
            elif form == 'nohook':
                s = vg.Seq(m, 's', clk, r if rst else None, nohook=True)
            else:
                s = vg.Seq(m, 's', clk, r if rst else None)
            for o in p:
                if o[0] == 'second':      # a second Seq merged into the first
                    s2 = vg.Seq(m, 's2', clk, r if rst else None)
                    for q in o[1]:
                        apply_api(s2, q, env)
                    s.update(s2)
                elif o[0] == 'reset':
                    s.add_reset(env[o[1]])
                else:
                    apply_api(s, o, env)
            if form == 'nohook':
                s.make_always()
            return m
        return f

    def ref(p):
        rf = Ref()
        extra = set()
        tail = []

        def flat(p):
            for o in p:
                if o[0] == 'second':
                    # the merged program is a chain of its own, after the statements seen so far
                    sub = Ref()
                    for q in o[1]:
                        sub.add(*q)
                    rf.acts.extend(sub.acts)
                elif o[0] == 'reset':
                    extra.add(o[1])
                else:
                    rf.add(*o)
        flat(p)
        return '\n'.join(ref_head('ref') + ref_actions(rf.acts, REGS, norst=not rst, written=extra) + ['endmodule'])

    def sc(c):
        for n, p in enumerate(progs):
            g = c.hw(c.verilog('d%d' % n, gen(p)), 'dut', prefix='s%d.' % n, initzero=not rst)
            f = c.hw(c.built('r%d' % n, lambda: ref(p)), 'ref', prefix='s%d.' % n, initzero=not rst)
            compare(c, [g, f], cycles, obs_of(REGS), 'p%d' % n, reset if rst else None, skip, warm=2 if rst else 0)
    return sc


inc = lambda r: ('+', r, 1)
P = {}
P['basic'] = [
    [op('call', [], [('r0', 'x'), ('r1', inc('r1'))])],
    [op('If', ['a'], [('r0', 'x')])],
    [op('If', ['a', 'b'], [('r0', 'x'), ('f0', 'd')])],
    [op('IfIf', ['a', 'b', ('<', 'x', 'y')], [('r0', 'x')])],
    [op('IfTuple', ['a', 'b'], [('r0', 'x')])],
    [op('kwcond', ['a'], [('r0', 'x')]), op('kwcond', ['b', ('==', 'x', 3)], [('r1', 'y')])],
    [op('If', ['x'], [('r0', inc('r0'))]), op('If', [('<', 'z', 'r2')], [('r2', 'z')])],
    [op('call', [], [('r0', 'x')]), op('If', ['a'], [('r0', 'y')]), op('If', ['b'], [('r0', 7)])],
    [op('If', ['a'], [('r0', 'y')]), op('call', [], [('r0', 'x')])],
    [op('If', ['a'], [('r0', 'y')], add=True), op('call', [], [('nr', 'x')], add=True)],
]
P['else'] = [
    [op('If', ['a'], [('r0', 'x')]), op('Else', [], [('r0', 'y')])],
    [op('If', ['a', 'b'], [('r0', 'x')]), op('Else', [], [('r0', 'y'), ('r1', 'x')])],
    [op('IfIf', ['a', 'b'], [('r0', 'x')]), op('Else', [], [('r1', 'y')])],
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b'], [('r0', 'y')])],
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b'], [('r0', 'y')]), op('Else', [], [('r0', 9), ('f0', 'd')])],
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b'], [('r0', 'y')]), op('Elif', ['d'], [('r0', 3)])],
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b'], [('r1', 'y')]), op('Elif', [('<', 'x', 'y')], [('r2', 3)]), op('Else', [], [('r3', 1)])],
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b', 'd'], [('r0', 'y')]), op('Else', [], [('r0', 1)])],
    [op('If', ['a'], [('r0', 'x')]), op('Else', [], [('r0', 'y')]), op('If', ['b'], [('r1', 'x')]), op('Else', [], [('r1', 'y')])],
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b'], [('r0', 'y')]), op('If', ['d'], [('r1', 'x')]), op('Elif', ['a'], [('r1', 'y')]), op('Else', [], [('f1', 1)])],
    [op('If', ['a'], [('r0', 'x')]), op('Else', [], [('r0', 'y')]), op('call', [], [('r1', inc('r1'))])],
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b'], [('r0', 'y')]), op('call', [], [('r0', 2)])],
    [op('If', ['x'], [('r0', 'x')]), op('Elif', ['y'], [('r0', 'y')]), op('Else', [], [('r0', 1)])],
]
P['then'] = [
    [op('If', ['a'], [('r0', 'x')]), op('Then', [], [('r1', 'y')])],
    [op('If', ['a', 'b'], [('r0', 'x')]), op('Then', [], [('r1', 'y')]), op('Then', [], [('f0', 'd')])],
    [op('If', ['a'], [('r0', 'x')]), op('Then', [], [('r1', 'y')]), op('Else', [], [('f0', 'd')])],
    [op('If', ['a'], [('r0', 'x')]), op('Elif', ['b'], [('r0', 'y')]), op('Then', [], [('f1', 'd')])],
    [op('If', ['a'], [('r0', 'x')]), op('Else', [], [('r0', 'y')]), op('Then', [], [('f1', 'd')])],
    [op('If', ['a'], [('r0', 'x')]), op('Then', [], [('r0', 'y')]), op('If', ['b'], [('r0', 1)])],
]
P['targets'] = [
    [op('If', ['a'], [(('bit', 'r3', 2), 'b'), (('slice', 'r3', 7, 4), 'x')])],
    [op('If', ['a'], [(('bit', 'r1', 0), 'b'), (('bit', 'r1', 2), 'd')]), op('Else', [], [(('slice', 'r1', 2, 1), ('slice', 'x', 1, 0))])],
    [op('call', [], [(('cat', V('r0'), V('r1')), ('Cat', 'x', 'y'))])],
    [op('If', ['b'], [(('cat', V('f0'), ('slice', 'r3', 2, 0)), 'x')])],
    [op('If', ['a'], [(('cat', V('r2'), V('f0')), ('Cat', 'x', 'b'))])],
    [op('If', ['a'], [(('word', 'mem', ('slice', 'x', 1, 0)), 'y')]), op('If', ['b'], [('nr', ('idx', 'mem', ('slice', 'y', 1, 0))), ('f0', 'd')])],
    [op('If', ['a'], [(('word', 'mem', 3), 'y'), ('f0', 'd')]), op('Elif', ['b'], [(('word', 'mem', 1), ('idx', 'mem', 3))])],
    [op('If', ['a'], [(('bit', 'r2', 3), 'b'), (('slice', 'r2', 2, 0), ('slice', 'x', 2, 0))])],
    [op('call', [], [(('slice', 'r3', 3, 0), 'x'), (('slice', 'r3', 7, 4), 'y')])],
]
P['update'] = [
    [op('If', ['a'], [('r0', 'x')]), ('second', [op('If', ['b'], [('r0', 'y')]), op('Else', [], [('r1', 'y')])])],
    [op('call', [], [('r0', 'x')]), ('second', [op('If', ['b'], [('r0', 'y'), ('f0', 'd')])]), op('If', ['d'], [('r0', 4)])],
    [op('If', ['a'], [('r0', 'x')]), ('reset', 'r1'), ('reset', 'r2')],
]
for _k, _v in P.items():
    for _f in ('seq', 'tmp', 'nohook'):
        R.add('%s_%s' % (_k, _f), seq_scn(_v, 3, True, _f), bounds='3 cycles from any state, reset pulses anywhere')
    R.add('%s_norst' % _k, seq_scn(_v, 3, False), bounds='3 cycles from zero state, no reset')
    R.add('%s_long' % _k, seq_scn(_v, 8, True), tier='thorough', bounds='8 cycles from any state, reset pulses anywhere')


# reset values of registers written in parts; array words; constants given as Int
def rst_build(kind):
    def f():
        import veriloggen as vg
        m = vg.Module('dut')
        clk, rst = m.Input('CLK'), m.Input('RST')
        a, i = m.Input('a', 8), m.Input('i', 3)
        iv = vg.Int(0xa5, width=8) if kind.startswith('int') else 0xa5
        r = m.OutputReg('r', 8, initval=iv)
        w = m.Reg('w', 8, 4, initval=iv)
        seq = vg.Seq(m, 'seq', clk, rst)
        e = m.Input('e')
        if kind.endswith('bits'):
            for n in range(8):
                seq.If(e)(r[n](a[n]))
        elif kind.endswith('var'):
            seq.If(e)(r[i](a[0]))
        elif kind.endswith('slices'):
            seq.If(e)(r[0:4](a[0:4]) if False else vg.Slice(r, 3, 0)(a), vg.Slice(r, 7, 4)(a))
        elif kind.endswith('whole'):
            seq.If(e)(r(a))
        elif kind.endswith('cat'):
            q = m.OutputReg('q', 4, initval=9)
            seq.If(e)(vg.Cat(r, q)(a))
        elif kind.endswith('words'):
            for n in range(4):
                seq.If(e)(w[n](a))
            m.Assign(m.Output('ro', 32)(vg.Cat(w[3], w[2], w[1], w[0])))
            seq.If(e)(r(a))
        seq.make_always()
        return m
    return f


def rst_scn(kind):
    def sc(c):
        h = c.hw(c.verilog('d', rst_build(kind)), 'dut')
        for n, w in (('a', 8), ('i', 3), ('e', 1)):
            h.set(n, c.fresh(n, w))
        for s in range(2):
            h.set('RST', 1)
            h.step()
            c.check('the register holds its initial value after a reset', h.get('r').eq(0xa5))
            if kind.endswith('words'):
                c.check('every word holds its initial value after a reset', h.get('ro').eq(0xa5a5a5a5))
            if kind.endswith('cat'):
                c.check('both parts hold their initial value after a reset', h.get('q').eq(9))
            h.set('RST', 0)
            for k in range(2):
                for n, w in (('a', 8), ('i', 3), ('e', 1)):
                    h.set(n, c.fresh('%s%d%d' % (n, s, k), w))
                h.step()
    return sc


for _k in ('whole', 'bits', 'slices', 'cat', 'words'):
    for _p in ('', 'int_'):
        R.add('rstval_%s%s' % (_p, _k), rst_scn(_p + _k), bounds='any register state, two resets with arbitrary activity between')
R.add('kf_rstval_var', rst_scn('var'), bounds='any register state')

"""Alternative encodings of the same logic are equivalent."""
import copy
from vlib.harness import Registry
from . import c01, c03, c08, c09, c10
from .seqlib import op, apply_api, declare, compare, obs_of, REGS, V, leaves
from .c10 import build_fsm, st, goto, nxt, init

R = Registry('C11', 'translation_validation', ['fsm/fsm.py', 'seq/seq.py', 'seq/subst_visitor.py', 'core/rename_visitor.py'],
             assumptions=['two-state logic; reset for two cycles first, then reset pulses anywhere'],
             explanation='The same state-machine or sequence description is generated in every encoding the library offers (case, if-chain, '
                         'separate submodule, merged/nohook, explicit make_* call) and the generated designs are compared with each other cycle by cycle on symbolic inputs.')


def whole(prog):
    """only whole, resettable registers are written (the as_module restriction)"""
    for o in prog:
        if o[0] in ('st', 'par'):
            o = o[1]
        if o[0] == 'second':
            if not whole(o[1]):
                return False
            continue
        if o[0] in ('reset', 'goto', 'inc', 'set') or len(o) < 4:
            continue
        if not isinstance(o[3], list):
            continue
        for l, r in o[3]:
            if l[0] != 'v' or REGS[l[1]][2] is None:
                return False
    return True


def fsm_dut(prog, form):
    def f():
        import veriloggen as vg
        m = vg.Module('dut')
        clk, rst = m.Input('CLK'), m.Input('RST')
        env = {}
        declare(m, env)
        build_fsm(m, clk, rst, env, prog, form)
        if form == 'as_module':
            drive_rest(m, clk, rst, env, prog)
        return m
    return f


def drive_rest(m, clk, rst, env, prog):
    pass


def fsm_forms(progs, forms, cycles=6):
    def sc(c):
        for n, p in enumerate(progs):
            hs = [c.hw(c.verilog('d%d_%s' % (n, f), fsm_dut(p, f)), 'dut', prefix='s%d.' % n) for f in forms]
            compare(c, hs, cycles, obs_of(REGS) + ['fsm'], 'p%d' % n)
    return sc


def seq_dut(prog, form, rst=True):
    def f():
        import veriloggen as vg
        m = vg.Module('dut')
        clk, r = m.Input('CLK'), m.Input('RST')
        env = {}
        declare(m, env)
        r = r if rst else None
        s = vg.Seq(m, 's', clk, r, nohook=form in ('nohook', 'merged', 'make_module'), as_module=form == 'as_module')
        for o in prog:
            apply_api(s, o, env)
        if form == 'nohook':
            s.make_always()
        elif form == 'make_module':
            s.make_module()
        elif form == 'merged':
            s2 = vg.Seq(m, 's2', clk, r)
            s2.update(s)
        return m
    return f


def seq_forms(progs, forms, cycles=5, rst=True):
    def sc(c):
        for n, p in enumerate(progs):
            hs = [c.hw(c.verilog('d%d_%s' % (n, f), seq_dut(p, f, rst)), 'dut', prefix='s%d.' % n, initzero=not rst) for f in forms]
            compare(c, hs, cycles, obs_of(REGS), 'p%d' % n, 'any' if rst else None, warm=2 if rst else 0)
    return sc


FA = [p for k in ('trans', 'actions', 'delay', 'keep', 'delayelse', 'gotochain') for p in c10.PR[k]]
for i, ch in enumerate(c01.chunks(FA, 16)):
    R.add('fsm_case_if_%d' % i, fsm_forms(ch, ['fsm', 'nohook_case', 'nohook_if']), bounds='6 cycles, reset pulses anywhere')
FW = [p for p in FA if whole(p)]
for i, ch in enumerate(c01.chunks(FW, 16)):
    R.add('fsm_module_%d' % i, fsm_forms(ch, ['fsm', 'as_module']), bounds='6 cycles, reset pulses anywhere')
for i, ch in enumerate(c01.chunks([p for p in c10._rp[:20]], 10)):
    R.add('fsm_random_%d' % i, fsm_forms(ch, ['nohook_if', 'fsm', 'as_module']), bounds='6 cycles')
for i, ch in enumerate(c01.chunks([p for p in c10._rp[20:]], 10)):
    R.add('fsm_random_more_%d' % i, fsm_forms(ch, ['nohook_if', 'fsm', 'as_module'], 10), tier='thorough', bounds='10 cycles', timeout=900)

SA = [p for d in (c08.P, c09.P) for v in d.values() for p in v if not any(o[0] in ('second', 'reset') for o in p)]
SW = [p for p in SA if whole(p)]
for i, ch in enumerate(c01.chunks(SW, 20)):
    R.add('seq_module_%d' % i, seq_forms(ch, ['seq', 'as_module', 'make_module']), bounds='5 cycles, reset pulses anywhere')
for i, ch in enumerate(c01.chunks(SA, 20)):
    R.add('seq_forms_%d' % i, seq_forms(ch, ['seq', 'nohook', 'merged']), bounds='5 cycles, reset pulses anywhere')
for i, ch in enumerate(c01.chunks([p for p in SW if not any('delay' in o[2] or 'keep' in o[2] for o in p)], 20)):
    R.add('seq_module_norst_%d' % i, seq_forms(ch, ['seq', 'as_module'], 5, rst=False), bounds='5 cycles from zero state, no reset')


# ---- sources of every kind: arrays (also 2-dimensional), parameters, signed ports, statements other than if
def feat(kind, form, shape):
    """shape: which feature; kind 'seq'/'fsm'; form inline or module"""
    def f():
        import veriloggen as vg
        m = vg.Module('dut')
        W = m.Parameter('WD', 4)
        L = m.Localparam('LP', 5)
        D = m.Localparam('WL', W + 2) if shape == 'derived' else None
        SP = m.Parameter('SP', -3, width=4, signed=True) if shape == 'sparam' else None
        clk, rst = m.Input('CLK'), m.Input('RST')
        a, b = m.Input('a'), m.Input('b')
        x = m.Input('x', W)
        y = m.Input('y', 4)
        z = m.Input('z', W, signed=True)
        o = m.OutputReg('o', W if shape != 'derived' else D, initval=1)
        q = m.OutputReg('q', 8, signed=True, initval=-2)
        k = m.OutputReg('k', initval=0)
        mem = m.Reg('mem', W, dims=4)
        w = m.Wire('w', 4)
        w.assign(x ^ y)
        wr = vg.Seq(m, 'wr', clk)
        wr.If(b)(mem[y[0:2]](x))
        if kind == 'seq':
            s = vg.Seq(m, 's', clk, rst, nohook=form == 'nohook', as_module=form == 'as_module')
        else:
            s = vg.FSM(m, 's', clk, rst, nohook=form == 'nohook', as_module=form == 'as_module')
        if shape == 'array':
            s.If(a)(o(mem[x[0:2]]), k(mem[1][2]))
        elif shape == 'param':
            s.If(a)(o(x + L), q(W * 3), k(x > L))
        elif shape == 'derived':
            s.If(a)(o(x + D))
        elif shape == 'sparam':
            s.If(a)(q(z + SP), k(z > SP))
        elif shape == 'signed':
            s.If(a)(q(z), k(z < -1), o(z >> 1))
        elif shape == 'wire':
            s.If(w > 3)(o(w), q(q - 1), k(w[0]))
        elif shape == 'ops':
            s.If(vg.Ands(a, vg.Unot(b)) if False else vg.Ands(a, vg.Not(b)))(o(vg.Mux(x > y, x, vg.Cat(y[0:2], x[2:4]))), q(vg.Repeat(b, 5)),
                                                                          k(vg.Uxor(x)))
        elif shape == 'case':
            s(vg.Case(x)(vg.When(0, 1)(o(y)), vg.When(L)(q(z)), vg.When()(k(b))))
        elif shape == 'casex':
            s(vg.Casex(x)(vg.When(vg.Int("4'b1xx0"))(o(y)), vg.When(vg.Int("4'b01xx"))(q(z)), vg.When()(k(b))))
        elif shape == 'ifelse':
            s(vg.If(a)(o(x)).Elif(b)(q(z), vg.If(x == 0)(k(0)).Else(k(1))).Else(o(o + 1)))
        elif shape == 'blk':
            s(o(x + 1, blk=True), q(z - 1, blk=True))
            s.If(a)(k(y[0]), o(y, blk=True))
        elif shape == 'index':
            s.If(a)(k(x[y[0:2]]), o(vg.Slice(x, 2, 1)))
        if kind == 'fsm':
            s.If(b).goto_next()
            s.If(a)(o(y))
            s.goto_init()
        if form == 'nohook':
            if kind == 'fsm':
                s.make_always(case=False)
            else:
                s.make_always()
        return m
    return f


def feat_scn(kind, shape, cycles=4):
    def sc(c):
        base = c.hw(c.verilog('d0', feat(kind, 'inline', shape)), 'dut', prefix='s.')
        for form in ('as_module', 'nohook'):
            h = c.hw(c.verilog('d_' + form, feat(kind, form, shape)), 'dut', prefix='s.')
            base2 = c.hw(c.verilog('d0', feat(kind, 'inline', shape)), 'dut', prefix='s.')
            hs = [base2, h]
            for g in hs:
                for nm in ('a', 'b', 'x', 'y', 'z'):
                    g.set(nm, 0)
                g.set('RST', 1)
            for _ in range(2):
                for g in hs:
                    g.step()
            for stp in range(cycles):
                ins = {nm: c.fresh('%s_%s%d' % (nm, form, stp), base.width(nm)) for nm in ('a', 'b', 'x', 'y', 'z')}
                r = c.fresh('RST_%s%d' % (form, stp), 1)
                for g in hs:
                    for nm, v in ins.items():
                        g.set(nm, v)
                    g.set('RST', r)
                    g.step()
                for o in ('o', 'q', 'k') + (('s',) if kind == 'fsm' else ()):
                    c.eqv('%s %s cycle %d' % (form, o, stp), hs[1].get(o), hs[0].get(o))
    return sc


SHAPES = ['array', 'param', 'derived', 'sparam', 'signed', 'wire', 'ops', 'case', 'casex', 'ifelse', 'index', 'blk']
for kd in ('seq', 'fsm'):
    for sh in SHAPES:
        R.add('%s_src_%s' % (kd, sh), feat_scn(kd, sh), bounds='4 cycles, any array contents, reset pulses anywhere')

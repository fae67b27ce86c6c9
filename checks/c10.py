"""State machines take exactly the declared transitions and actions."""
import random
from vlib.harness import Registry
from vlib import term as t
from . import c01, c03
from .seqlib import op, Ref, apply_api, declare, ref_head, ref_actions, compare, obs_of, REGS, V

R = Registry('C10', 'model_checking', ['fsm/fsm.py', 'seq/seq.py', 'seq/reset_visitor.py'],
             assumptions=['two-state logic; reset for two cycles first, then reset pulses anywhere'],
             explanation='State machines described as state/action/transition programs are built through the FSM API and compared with an '
                         'independently printed guarded-assignment model (state register, history registers for delayed actions); every input '
                         'and reset value symbolic in every cycle.')

N = 4


def build_fsm(m, clk, rst, env, prog, form, name='fsm', **kw):
    import veriloggen as vg
    if form == 'tmp':
        f = vg.TmpFSM(m, clk, rst, prefix=name)
    else:
        f = vg.FSM(m, name, clk, rst, nohook=form in ('nohook_case', 'nohook_if'), as_module=form == 'as_module', **kw)
    B = lambda c: c01.build(c, env)
    for o in prog:
        k = o[0]
        if k == 'st':
            tgt = f
            if len(o) > 2 and o[2] is not None:
                tgt = f.When(o[2][1]) if o[2][0] == 'when' else f.State(o[2][1])
            apply_api(tgt, o[1], env)
        elif k == 'par':
            apply_api(f.seq if o[2] == 'seq' else f.Always, o[1], env)
        elif k == 'goto':
            _, form2, kind, conds, dst = o[:5]
            els = o[5] if len(o) > 5 else None
            s = f
            cond = None
            if kind == 'If':
                s = s.If(*[B(c) for c in conds])
            elif kind == 'Elif':
                s = s.Elif(*[B(c) for c in conds])
            elif kind == 'Else':
                s = s.Else
            elif kind == 'Then':
                s = s.Then()
            elif kind == 'kw':
                cond = B(conds[0])
            if form2 == 'goto':
                if els is not None:
                    s.goto(dst, cond, els)
                else:
                    s.goto(dst, cond) if cond is not None else s.goto(dst)
            elif form2 == 'next':
                s.goto_next(cond) if cond is not None else s.goto_next()
            elif form2 == 'init':
                s.goto_init(cond) if cond is not None else s.goto_init()
            elif form2 == 'from':
                s.goto_from(o[6], dst, cond, els)
            elif form2 == 'when':
                s.When(o[6]).goto(dst)
            elif form2 == 'whennext':
                s.When(o[6]).goto_next()
        elif k == 'inc':
            f.inc()
        elif k == 'set':
            f.set_index(o[1])
        elif k == 'raw':
            # direct access to the statement list of a state
            env_s = [c03.st_obj(s, env) for s in o[2]]
            for s in env_s:
                f[o[1]].append(s) if False else f._add_statement([s], index=o[1])
    if form == 'nohook_case':
        f.make_always()
    elif form == 'nohook_if':
        f.make_always(case=False)
    return f


def ref_fsm(prog, name='ref', sname='fsm', extra=''):
    rf = Ref()
    par = Ref()
    cur = 0
    jumps = []      # (src, guard, dst)
    for o in prog:
        k = o[0]
        if k == 'st':
            st = cur if len(o) < 3 or o[2] is None else o[2][1]
            rf.add(*o[1], state=st)
        elif k == 'par':
            par.add(*o[1])
        elif k == 'goto':
            _, form2, kind, conds, dst = o[:5]
            els = o[5] if len(o) > 5 else None
            src = o[6] if form2 in ('from', 'when', 'whennext') else cur
            if kind in ('If', 'Elif', 'Else', 'Then'):
                g = rf.guard(kind, conds)
            elif kind == 'kw':
                g = conds[0]
            else:
                g = None
            if form2 in ('next', 'whennext'):
                dst = src + 1
            elif form2 == 'init':
                dst = 0
            jumps.append((src, g, dst))
            if els is not None:
                jumps.append((src, ('Ulnot', g), els))
            if form2 in ('next', 'whennext'):
                cur += 1
                rf.arms, rf.last = [], None
        elif k == 'inc':
            cur += 1
            rf.arms, rf.last = [], None
        elif k == 'set':
            cur = o[1]
            rf.arms, rf.last = [], None
    L = ref_head(name)
    L.append('reg [31:0] %s;' % sname)
    body = []
    for s, g, d in jumps:
        c = '%s == %d' % (sname, s) + ('' if g is None else ' && (|(%s))' % c03.rhs_ref(g))
        body.append('if(%s) %s <= %d;' % (c, sname, d))
    acts = par.acts + rf.acts
    L += ref_actions(acts, REGS, reset_extra=['%s <= 0;' % sname], state_sig=sname, body_extra=body)
    L.append(extra)
    L.append('endmodule')
    return '\n'.join(L)


def fsm_scn(progs, cycles=6, form='fsm', reset='any'):
    def gen(p):
        def f():
            import veriloggen as vg
            m = vg.Module('dut')
            clk, rst = m.Input('CLK'), m.Input('RST')
            env = {}
            declare(m, env)
            build_fsm(m, clk, rst, env, p, form)
            return m
        return f

    def sc(c):
        for n, p in enumerate(progs):
            g = c.hw(c.verilog('d%d' % n, gen(p)), 'dut', prefix='s%d.' % n)
            sn = 'fsm' if form != 'tmp' else 'fsm_0'
            f = c.hw(c.built('r%d' % n, lambda: ref_fsm(p, sname=sn)), 'ref', prefix='s%d.' % n)
            compare(c, [g, f], cycles, obs_of(REGS) + [sn], 'p%d' % n, reset)
    return sc


def st(*a, **k):
    how = k.pop('how', None)
    return ('st', op(*a, **k), how)


def goto(dst, kind=None, conds=(), els=None, form='goto', src=None):
    return ('goto', form, kind, list(conds), dst, els, src)


nxt = lambda kind=None, conds=(): ('goto', 'next', kind, list(conds), None)
init = lambda kind=None, conds=(): ('goto', 'init', kind, list(conds), None)
I1 = ('r1', ('+', 'r1', 1))
PR = {}
PR['trans'] = [
    [st('call', [], [('r0', 'x')]), nxt(), st('call', [], [('r0', 'y')]), nxt(), init()],
    [st('If', ['a'], [('r0', 'x')]), nxt('Then'), st('call', [], [I1]), init('If', ['b'])],
    [nxt('If', ['a']), nxt('If', ['b', 'd']), st('call', [], [I1]), init()],
    [goto(2, 'If', ['a']), goto(1, 'Else'), ('inc',), st('call', [], [('r0', 'x')]), goto(3), ('inc',), st('call', [], [('r0', 'y')]), goto(3),
     ('inc',), init('If', [('<', 'x', 'y')])],
    [goto(1, 'If', ['a']), goto(2, 'Elif', ['b']), goto(3, 'Else'), ('inc',), init(), ('inc',), init('If', ['a']), ('inc',), goto(1)],
    [goto(1, 'kw', ['a'], 2), ('inc',), goto(0, 'kw', ['b']), ('inc',), goto(1, 'kw', ['d'], 0)],
    [goto(1), goto(2, 'If', ['a']), goto(3, 'If', ['b']), ('inc',), init(), ('inc',), init(), ('inc',), init()],
    [goto(1, None, (), None, 'from', 0), goto(2, 'kw', ['a'], 0, 'from', 1), goto(0, 'kw', ['b'], None, 'from', 2), st('call', [], [I1])],
    [goto(1, 'If', ['b'], None, 'from', 0), goto(0, 'If', ['a'], None, 'from', 1)],
    [('set', 3), st('call', [], [('r0', 'x')]), goto(0), ('set', 0), goto(3, 'If', ['a']), ('set', 1), goto(0)],
    [st('call', [], [I1]), goto(0, 'If', ['a']), nxt(), init()],
    [nxt('kw', ['a']), init('kw', ['b'])],
    [goto(2, 'If', ['a'], None, 'when', 0), goto(1, 'If', ['b'], None, 'when', 2), goto(0, None, (), None, 'when', 1)],
    [('goto', 'whennext', None, [], None, None, 0), st('call', [], [I1]), init()],
]
PR['actions'] = [
    [st('If', ['a'], [('r0', 'x')]), st('Else', [], [('r0', 'y')]), nxt(), st('If', ['a'], [('r0', 'x')]), st('Elif', ['b'], [('r1', 'y')]),
     st('Else', [], [('f0', 'd')]), init()],
    [st('If', ['a', 'b'], [('r0', 'x')]), st('If', ['d'], [('r0', 'y'), ('f1', 'a')]), nxt(), st('IfIf', ['a', 'b'], [('r2', 'z')]), init('If', ['d'])],
    [st('If', ['a'], [('r0', 'x')]), st('Then', [], [('r1', 'y')]), nxt('Then'), st('kwcond', ['b'], [('r2', 'z')]), init()],
    [st('call', [], [('r0', 'x')], how=('when', 1)), nxt(), st('If', ['a'], [('r1', 'y')], how=('when', 0)), init()],
    [st('call', [], [('r0', 'x')], how=('state', 1)), nxt(), st('If', ['a'], [('r1', 'y')], how=('state', 0)), st('call', [], [('f0', 'd')]), init()],
    [('par', op('If', ['a'], [('r3', ('+', 'r3', 1))]), 'seq'), st('call', [], [('r0', 'x')]), nxt(), ('par', op('call', [], [('r1', 'y')]), 'Always'), init()],
    [('par', op('call', [], [('f0', 0)]), 'seq'), st('If', ['a'], [('f0', 1)]), nxt('Then'), st('call', [], [('f0', 'd')]), init()],
    [st('call', [], [(('word', 'mem', ('slice', 'x', 1, 0)), 'y')]), nxt('If', ['a']), st('call', [], [('nr', ('idx', 'mem', ('slice', 'x', 1, 0))), (('slice', 'r3', 6, 3), 'x')]), init()],
    [st('If', ['a'], [(('cat', V('f0'), V('r0')), ('Cat', 'b', 'x'))], add=True), nxt(), st('call', [], [(('bit', 'r1', 2), 'b')]), init()],
]
PR['delay'] = []
for _d in (1, 2, 3):
    for _kw in (False, True):
        PR['delay'] += [
            [st('call', [], [('r0', 'x')], delay=_d, kw=_kw), nxt('If', ['a']), st('call', [], [I1]), nxt('If', ['b']), init()],
            [st('If', ['a'], [('r0', 'x')], delay=_d, kw=_kw), nxt(), init()],
            [nxt('If', ['d']), st('If', ['a'], [('r0', 'x')], delay=_d, eager=True, kw=_kw), nxt('If', ['b']), init()],
            [nxt(), st('If', ['a'], [('r0', 'x')], delay=_d, lazy=True, kw=_kw), init('If', ['d'])],
            [st('call', [], [('r2', 'z'), ('f0', 'd')], delay=_d, eager=True, kw=_kw), nxt('If', ['a']), init('If', ['b'])],
        ]
    PR['delay'].append([nxt('If', ['a']), st('call', [], [('r0', 'x')], delay=_d, how=('when', 0)), init('If', ['b'])])
    PR['delay'].append([nxt('If', ['d']), st('If', ['a'], [('r0', 'x')], delay=_d, how=('when', 0)), init('If', ['b'])])
    PR['delay'].append([nxt('If', ['d']), st('If', ['a'], [('r0', 'x')], delay=_d, eager=True, how=('when', 0)), init('If', ['b'])])
    PR['delay'].append([nxt('If', ['d']), st('If', ['a'], [('r0', 'x')], delay=_d, lazy=True, how=('state', 0)), init('If', ['b'])])
PR['keep'] = []
for _n in (1, 2, 3):
    PR['keep'] += [
        [st('If', ['a'], [('r0', 'x'), I1], keep=_n), nxt('If', ['b']), nxt('If', ['d']), init()],
        [nxt('If', ['b']), st('call', [], [('r0', 'x')], keep=_n, delay=1), init('If', ['d'])],
        [st('If', ['a'], [('r0', 'x')], keep=_n, eager=True), nxt('If', ['b']), init('If', ['d'])],
        [st('If', ['a'], [('r0', 'x')], keep=_n, how=('when', 1)), nxt('If', ['b']), init('If', ['d'])],
    ]
PR['delayelse'] = [
    [st('If', ['a'], [('r0', 'x')], delay=1), st('Else', [], [('r1', 'y')]), nxt('If', ['b']), init('If', ['d'])],
    [st('If', ['a'], [('r0', 'x')]), st('Else', [], [('r1', 'y')], delay=2), nxt('If', ['b']), init('If', ['d'])],
    [st('If', ['a'], [('r0', 'x')], delay=1), st('Elif', ['b'], [('r1', 'y')]), st('Else', [], [('r2', 'z')]), nxt('If', ['d']), init()],
    [st('If', ['a'], [('r0', 'x')]), st('Elif', ['b'], [('r1', 'y')], delay=1), st('Else', [], [('r2', 'z')], delay=1, eager=True), nxt('If', ['d']), init()],
    [st('If', ['a'], [('r0', 'x')]), st('Elif', ['b'], [('r1', 'y')], delay=1), st('call', [], [('r2', 'z')]), nxt('If', ['d']), init()],
]
PR['gotochain'] = [
    [st('If', ['a'], [('r0', 'x')]), goto(1, 'Else'), st('call', [], [('r1', 'y')]), ('inc',), init('If', ['d'])],
    [st('If', ['a'], [('r0', 'x')]), goto(1, 'Else'), st('If', ['b'], [('r1', 'y')]), ('inc',), init('If', ['d'])],
    [st('If', ['a'], [('r0', 'x')]), goto(1, 'If', ['b']), st('Else', [], [('r1', 'y')]), ('inc',), init('If', ['d'])],
    [st('If', ['a'], [('r0', 'x')]), goto(1, 'Elif', ['b']), st('Else', [], [('r1', 'y')]), ('inc',), init('If', ['d'])],
    [st('If', ['a'], [('r0', 'x')]), goto(1, 'If', ['b']), st('Elif', ['d'], [('r1', 'y')]), goto(2, 'Else'), ('inc',), init('If', ['d']), ('inc',), init()],
    [goto(1, 'If', ['a']), st('Else', [], [('r0', 'x')]), ('inc',), st('If', ['b'], [('r0', 'y')]), init('Then')],
    [goto(1, 'If', ['a']), st('Elif', ['b'], [('r0', 'x')]), st('Else', [], [('r1', 'x')]), ('inc',), init('If', ['b'])],
    [st('If', ['a'], [('r0', 'x')]), goto(1, 'Elif', ['b']), st('call', [], [('r1', 'y')]), ('inc',), init('If', ['d'])],
    [st('If', ['a'], [('r0', 'x')]), goto(1, 'Then'), st('Else', [], [('r1', 'y')]), ('inc',), init('If', ['d'])],
    [st('If', ['a'], [('r0', 'x')]), st('Else', [], [('r1', 'y')]), goto(1, 'Then'), ('inc',), init('If', ['d'])],
    [st('If', ['a'], [('r0', 'x')]), st('Elif', ['b'], [('r1', 'y')]), goto(1, 'Then'), ('inc',), st('call', [], [('r2', 'z')]), init('If', ['d'])],
]
for _k, _v in PR.items():
    for _i, _c in enumerate(c01.chunks(_v, 12)):
        for _f in ('fsm', 'nohook_if', 'tmp'):
            if _f == 'tmp' and _k not in ('trans',):
                continue
            R.add('%s_%d_%s' % (_k, _i, _f), fsm_scn(_c, 6, _f), bounds='6 cycles from any register contents, reset pulses anywhere')
        R.add('%s_%d_long' % (_k, _i), fsm_scn(_c, 12, 'fsm'), tier='thorough', bounds='12 cycles', timeout=900)


def rprog(rnd):
    """random FSM program"""
    out = []
    ns = rnd.randint(2, 4)
    regs = ['r0', 'r1', 'r2', 'f0', 'f1']
    conds = ['a', 'b', 'd', ('<', 'x', 'y'), ('==', 'r0', 3), 'f0']
    for s in range(ns):
        used = False
        for _ in range(rnd.randint(1, 3)):
            kinds = ['call', 'If', 'If'] + (['Else', 'Elif'] if used else [])
            k = rnd.choice(kinds)
            cs = [rnd.choice(conds) for _ in range(rnd.randint(1, 2))] if k in ('If', 'Elif') else []
            stm = [(rnd.choice(regs), rnd.choice(['x', 'y', ('+', 'r1', 1), ('^', 'r0', 'x'), 7]))]
            out.append(st(k, cs, stm))
            used = k in ('If', 'Elif')
        if s == ns - 1:
            out.append(init(rnd.choice(['If', None]), [rnd.choice(conds)]))
        elif rnd.random() < 0.5:
            out.append(nxt('If', [rnd.choice(conds)]))
        else:
            out.append(goto(rnd.randrange(ns), 'If', [rnd.choice(conds)]))
            if rnd.random() < 0.6:
                out.append(goto(rnd.randrange(ns), 'Else'))
            else:
                out.append(goto(rnd.randrange(ns), 'Elif', [rnd.choice(conds)]))
            out.append(('inc',))
    # If without condition is not a chain start
    return [('goto', o[1], None, [], o[4]) + tuple(o[5:]) if o[0] == 'goto' and o[2] is None else o for o in out]


_rnd = random.Random(5)
_rp = [rprog(_rnd) for _ in range(60)]
for _i, _c in enumerate(c01.chunks(_rp[:24], 6)):
    R.add('random_%d' % _i, fsm_scn(_c, 5, 'fsm' if _i % 2 else 'nohook_case'), bounds='seeded state machines, 5 cycles')
for _i, _c in enumerate(c01.chunks(_rp[24:], 6)):
    R.add('random_more_%d' % _i, fsm_scn(_c, 8, 'fsm'), tier='thorough', bounds='seeded state machines, 8 cycles', timeout=900)

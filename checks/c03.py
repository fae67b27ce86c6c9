"""Emitted statements execute with their intended control flow."""
import random
from vlib.harness import Registry
from vlib import term as t
from . import c01

R = Registry('C03', 'translation_validation', ['core/vtypes.py', 'core/function.py', 'core/task.py', 'verilog/to_verilog.py'],
             assumptions=['two-state logic', 'statement references are printed with explicit begin/end around every branch'],
             explanation='Programs in a statement description language are built through the statement API and, independently, '
                         'printed as fully bracketed Verilog; both designs are executed symbolically from the same arbitrary '
                         'state with the same inputs and every register and memory word compared after each clock edge.')

INS = {'x': (4, False), 'y': (4, False), 'z': (4, True), 'sel': (2, False), 'p': (1, False), 'q': (1, False)}
REGS = {'r0': (4, False), 'r1': (8, False), 'r2': (4, True), 'f0': (1, False), 'f1': (1, False)}
W = {n: w for n, (w, s) in list(INS.items()) + list(REGS.items())}
W.update(mem=4, i=32, k=32)


# ------------------------------------------------------------- two printers
def lhs_obj(l, env):
    k = l[0]
    if k == 'v':
        return env[l[1]]
    if k == 'bit':
        return env[l[1]][c01.build(l[2], env)]
    if k == 'slc':
        return env[l[1]][l[3]:l[2] + 1]
    if k == 'slice':
        return env[l[1]].slice(l[2], l[3])
    if k == 'word':
        return env[l[1]][c01.build(l[2], env)]
    if k == 'wbit':
        return env[l[1]][c01.build(l[2], env)][c01.build(l[3], env)]
    if k == 'cat':
        import veriloggen as vg
        return vg.Cat(*[lhs_obj(x, env) for x in l[1:]])
    raise KeyError(k)


def lhs_ref(l):
    k = l[0]
    F = lambda x: c01.ref(x, W) if not isinstance(x, int) else str(x)
    if k == 'v':
        return l[1]
    if k in ('bit', 'word'):
        return '%s[%s]' % (l[1], F(l[2]))
    if k in ('slc', 'slice'):
        return '%s[%d:%d]' % (l[1], l[2], l[3])
    if k == 'wbit':
        return '%s[%s][%s]' % (l[1], F(l[2]), F(l[3]))
    if k == 'cat':
        return '{%s}' % ', '.join(lhs_ref(x) for x in l[1:])
    raise KeyError(k)


def rhs_obj(r, env):
    if isinstance(r, tuple) and r[0] == 'call':
        return env[r[1]].call(*[rhs_obj(x, env) for x in r[2:]])
    return c01.build(r, env)


def rhs_ref(r):
    if isinstance(r, tuple) and r[0] == 'call':
        return '%s(%s)' % (r[1], ', '.join(rhs_ref(x) for x in r[2:]))
    return c01.ref(r, W)


def st_obj(s, env):
    import veriloggen as vg
    k = s[0]
    S = lambda xs: [st_obj(x, env) for x in xs]
    if k == 'nb':
        o = lhs_obj(s[1], env)
        return o(rhs_obj(s[2], env))
    if k == 'nbw':
        return lhs_obj(s[1], env).write(rhs_obj(s[2], env))
    if k == 'blk':
        return lhs_obj(s[1], env)(rhs_obj(s[2], env), blk=True)
    if k == 'blkw':
        return lhs_obj(s[1], env).write(rhs_obj(s[2], env), blk=True)
    if k == 'subst':
        return vg.Subst(lhs_obj(s[1], env), rhs_obj(s[2], env))
    if k in ('inc', 'dec', 'add', 'sub'):
        o = env[s[1]]
        return getattr(o, k)() if k in ('inc', 'dec') else getattr(o, k)(rhs_obj(s[2], env))
    if k == 'if':
        style, arms, els = s[1], s[2], s[3]
        cs = [c01.build(c, env) for c, b in arms]
        bs = [S(b) for c, b in arms]
        e = S(els) if els is not None else None
        if style == 'elif':
            n = vg.If(cs[0])(*bs[0])
            for c, b in zip(cs[1:], bs[1:]):
                n = n.Elif(c)(*b)
            if e is not None:
                n = n.Else(*e)
            return n
        if style == 'twocall' and len(arms) == 1:
            n = vg.If(cs[0])(*bs[0])
            return n(*e) if e is not None else n
        if style == 'set' and len(arms) == 1:
            n = vg.If(cs[0])
            n.set_true_statement(*bs[0])
            if e is not None:
                n.set_false_statement(*e)
            return n
        if style == 'pattern' and len(arms) + (e is not None) > 1:
            ps = [(c, b if len(b) > 1 else b[0]) for c, b in zip(cs, bs)]
            if e is not None:
                ps.append((None, e))
            return vg.PatternIf(*ps)
        if style in ('pattern', 'patternlist'):
            ps = [(c, tuple(b)) for c, b in zip(cs, bs)]
            if e is not None:
                ps.append((None, tuple(e)))
            return vg.PatternIf(ps)
        # nested Else(If)
        n = None
        for c, b in reversed(list(zip(cs, bs))):
            m = vg.If(c)(*b)
            if n is not None:
                m = m.Else(n)
            elif e is not None:
                m = m.Else(*e)
            n = m
        return n
    if k == 'case':
        kind, style, comp, arms = s[1:]
        cls = {'case': vg.Case, 'casex': vg.Casex}[kind]
        ws = []
        for conds, b in arms:
            w = vg.When() if conds is None and style != 'add' else vg.When(None) if conds is None else vg.When(
                *[c01.build(c, env) if not isinstance(c, str) or c in env else c01_str(c) for c in conds])
            if style == 'add':
                for x in S(b):
                    w.add(x)
            else:
                w = w(*S(b))
            ws.append(w)
        cc = cls(c01.build(comp, env))
        if style == 'add':
            for w in ws:
                cc.add(w)
            return cc
        return cc(*ws)
    if k == 'for':
        v, i0, cond, step, body = s[1:]
        f = vg.For(env[v](i0), c01.build(cond, env), env[v](c01.build(step, env)))
        return f(*S(body))
    if k == 'foradd':
        v, i0, cond, step, body = s[1:]
        f = vg.For(env[v](i0), c01.build(cond, env), env[v].inc())
        for x in S(body):
            f.add(x)
        return f
    if k == 'while':
        return vg.While(c01.build(s[1], env))(*S(s[2]))
    if k == 'task':
        return env[s[1]].call(*[rhs_obj(x, env) for x in s[2:]])
    if k == 'block':
        return S(s[1])
    if k == 'tuple':
        return tuple(S(s[1]))
    raise KeyError(k)


def c01_str(c):
    import veriloggen as vg
    return vg.Int(c)


def st_ref(s, ind='  '):
    k = s[0]
    B = lambda xs: 'begin\n' + ''.join(ind + st_ref(x, ind + '  ') for x in xs) + ind + 'end\n'
    if k in ('nb', 'nbw', 'subst'):
        return '%s <= %s;\n' % (lhs_ref(s[1]), rhs_ref(s[2]))
    if k in ('blk', 'blkw'):
        return '%s = %s;\n' % (lhs_ref(s[1]), rhs_ref(s[2]))
    if k in ('inc', 'dec'):
        return '%s <= %s %s 1;\n' % (s[1], s[1], '+' if k == 'inc' else '-')
    if k in ('add', 'sub'):
        return '%s <= %s %s %s;\n' % (s[1], s[1], '+' if k == 'add' else '-', rhs_ref(s[2]))
    if k == 'if':
        arms, els = s[2], s[3]
        o = ''
        for i, (c, b) in enumerate(arms):
            o += 'if(%s) ' % rhs_ref(c) + B(b)
            if i + 1 < len(arms) or els is not None:
                o += 'else '
        if els is not None:
            o += B(els)
        return o
    if k == 'case':
        kind, style, comp, arms = s[1:]
        o = '%s(%s)\n' % (kind, rhs_ref(comp))
        for conds, b in arms:
            o += 'default: ' if conds is None else ', '.join(c if isinstance(c, str) else rhs_ref(c) for c in conds) + ': '
            o += B(b)
        return o + 'endcase\n'
    if k in ('for', 'foradd'):
        v, i0, cond, step, body = s[1:]
        return 'for(%s = %d; %s; %s = %s) ' % (v, i0, rhs_ref(cond), v, rhs_ref(step)) + B(body)
    if k == 'while':
        return 'while(%s) ' % rhs_ref(s[1]) + B(s[2])
    if k == 'task':
        return '%s(%s);\n' % (s[1], ', '.join(rhs_ref(x) for x in s[2:]))
    if k in ('block', 'tuple'):
        return B(s[1])
    raise KeyError(k)


FT_REF = '''
function [3:0] fmax; input [3:0] a; input [3:0] b; begin
  if(a > b) begin fmax = a; end else begin fmax = b; end end endfunction
function [7:0] fcat; input [3:0] a; input [1:0] c; reg [3:0] tmp; integer j; begin
  tmp = a; for(j = 0; j < 2; j = j + 1) begin tmp = (tmp ^ (tmp << 1)); end
  fcat = {tmp, a}; case(c) 0: begin fcat = 8'd7; end 1, 2: begin fcat = (fcat + 1); end endcase end endfunction
function signed_lt; input signed [3:0] a; input signed [3:0] b; begin signed_lt = (a < b); end endfunction
task tset; input [3:0] v; begin t0 = (v + 3); if(v[0]) begin t1 = v; end end endtask
task tcnt; reg [3:0] tmp; begin tmp = t0; t0 = (tmp + t1); end endtask
'''


def make_ft(m, vg, env):
    f = m.Function('fmax', 4)
    a, b = f.Input('a', 4), f.Input('b', 4)
    f.Body(vg.If(a > b)(f(a)).Else(f(b)))
    env['fmax'] = f
    f = m.Function('fcat', 8)
    a, cc = f.Input('a', 4), f.Input('c', 2)
    tmp, j = f.Reg('tmp', 4), f.Integer('j')
    f.Body(tmp(a), vg.For(j(0), j < 2, j(j + 1))(tmp(tmp ^ (tmp << 1))), f(vg.Cat(tmp, a)),
           vg.Case(cc)(vg.When(0)(f(vg.Int(7, width=8))), vg.When(1, 2)(f(f.read() + 1) if False else f.write(vg.EmbeddedNumeric('fcat') + 1))))
    env['fcat'] = f
    f = m.Function('signed_lt')
    a, b = f.Input('a', 4, signed=True), f.Input('b', 4, signed=True)
    f.Body(f(a < b))
    env['signed_lt'] = f
    tk = m.Task('tset')
    v = tk.Input('v', 4)
    tk.Body(env['t0'](v + 3), vg.If(v[0])(env['t1'](v)))
    env['tset'] = tk
    tk = m.Task('tcnt')
    tmp = tk.Reg('tmp', 4)
    tk.Body(tmp(env['t0']), env['t0'](tmp + env['t1']))
    env['tcnt'] = tk


def prog_scn(progs, steps=2, kind='seq', ft=False):
    """progs: list of statement lists; each list becomes one always block of its own module"""
    def gen(p):
        def f():
            import veriloggen as vg
            m = vg.Module('dut')
            clk = m.Input('CLK')
            env = {n: m.Input(n, w, signed=s) for n, (w, s) in INS.items()}
            for n, (w, s) in REGS.items():
                env[n] = m.Reg(n, w, signed=s)
            env['mem'] = m.Reg('mem', 4, dims=4)
            env['i'] = m.Integer('i')
            env['k'] = m.Integer('k')
            env['t0'] = m.Reg('t0', 4)
            env['t1'] = m.Reg('t1', 4)
            if ft:
                make_ft(m, vg, env)
            sts = [st_obj(s, env) for s in p]
            if kind == 'seq':
                m.Always(vg.Posedge(clk))(*sts)
            elif kind == 'neg':
                m.Always(vg.Negedge(clk))(*sts)
            elif kind == 'comb':
                m.Always()(*sts)
            elif kind == 'star':
                m.Always(vg.SensitiveAll())(*sts)
            elif kind == 'level':
                m.Always(*[env[n] for n in INS])(*sts)
            elif kind == 'set':
                m.Always(vg.Posedge(clk)).set_statement(*sts)
            return m
        return f

    def reftext(p):
        L = ['module ref(input CLK, ' + ', '.join('input %s[%d:0] %s' % ('signed ' if s else '', w - 1, n)
                                                 for n, (w, s) in INS.items()) + ');']
        for n, (w, s) in REGS.items():
            L.append('reg %s[%d:0] %s;' % ('signed ' if s else '', w - 1, n))
        L.append('reg [3:0] mem [0:3]; integer i; integer k; reg [3:0] t0; reg [3:0] t1;')
        if ft:
            L.append(FT_REF)
        ev = {'seq': 'posedge CLK', 'set': 'posedge CLK', 'neg': 'negedge CLK'}.get(kind, '*')
        L.append('always @(%s) begin' % ev)
        L += [st_ref(s) for s in p]
        L.append('end\nendmodule')
        return '\n'.join(L)

    def sc(c):
        for n, p in enumerate(progs):
            one(c, n, p)

    def one(c, n, p):
        clk = 'CLK'
        g = c.hw(c.verilog('d%d' % n, gen(p)), 'dut', clk=clk, prefix='s%d.' % n)
        f = c.hw(c.built('ref%d' % n, lambda: reftext(p)), 'ref', clk=clk, prefix='s%d.' % n)
        comb = kind in ('comb', 'star', 'level')
        if kind == 'neg':
            for h in (g, f):
                h.set('CLK', 1) if False else None
        obs = [('v', r) for r in REGS] + [('v', 't0'), ('v', 't1')] + [('m', j) for j in range(4)]
        for st in range(1 if comb else steps):
            for nm, (w, s) in INS.items():
                v = c.fresh('%s_%d_%d' % (nm, n, st), w)
                g.set(nm, v)
                f.set(nm, v)
            if not comb:
                g.step()
                f.step()
            for kd, r in obs:
                a, b = (g.get(r), f.get(r)) if kd == 'v' else (g.get('mem', r), f.get('mem', r))
                c.eqv('prog%d %s%s step %d' % (n, 'mem' if kd == 'm' else '', r, st), a, b, info='program %r' % (p,))
    return sc


V = lambda n: ('v', n)
nb = lambda l, r: ('nb', V(l) if isinstance(l, str) else l, r)
blk = lambda l, r: ('blk', V(l) if isinstance(l, str) else l, r)

# ----------------------------------------------------------- if/elif/else
ifs = []
for st in ('elif', 'nest', 'pattern', 'patternlist'):
    for na in (1, 2, 3, 4):
        for els in (None, 1, 2):
            conds = ['p', ('==', 'x', 'y'), ('<', 'z', 'r2'), 'sel'][:na]
            arms = [(cn, [nb('r0', ('+', 'x', i))] + ([nb('r1', ('+', 'r1', 'y'))] if i % 2 else [])) for i, cn in enumerate(conds)]
            e = None if els is None else [nb('r0', 'y')] if els == 1 else [nb('r2', 'z'), nb('f0', 'q')]
            ifs.append([nb('r0', 9), ('if', st, arms, e), nb('f1', ('Not', 'f1'))])
for st in ('twocall', 'set'):
    for e in (None, [nb('r0', 'y')], [nb('r0', 'y'), nb('r1', 'x')]):
        ifs.append([('if', st, [('p', [nb('r0', 'x'), nb('f0', 1)])], e)])
# nested ifs: dangling else in every position, single-statement bodies
inner = lambda e: ('if', 'elif', [('q', [nb('r0', 'x')])], e)
for e1 in (None, [nb('r0', 1)]):
    for e2 in (None, [nb('r0', 2)], [inner(None)], [inner([nb('r0', 3)])], [inner(None), nb('r1', 5)],
               [('block', [inner(None)])], [('if', 'elif', [('f0', [inner(None)])], [nb('r0', 4)])]):
        ifs.append([('if', 'elif', [('p', [inner(e1)])], e2)])
        ifs.append([('if', 'elif', [('p', [inner(e1)]), ('f1', [inner(e1)])], e2)])
ifs.append([('if', 'elif', [('p', [('if', 'elif', [('q', [('if', 'elif', [('f0', [nb('r0', 1)])], None)])], [nb('r0', 2)])])], None)])
ifs.append([('if', 'elif', [('p', [])], [nb('r0', 'x')])])
ifs.append([('if', 'elif', [('p', [nb('r0', 'x')]), ('q', []), ('f0', [nb('r0', 'y')])], None)])
for i, ch in enumerate(c01.chunks(ifs, 28)):
    R.add('if_%d' % i, prog_scn(ch), bounds='if/elif/else forms, two clock steps from any state')

# ------------------------------------------------------------------- case
cases = []
for style in ('call', 'add'):
    for comp in ('sel', 'x', ('+', 'x', 'y')):
        cases.append([('case', 'case', style, comp, [([0], [nb('r0', 'x')]), ([1, 2], [nb('r0', 'y'), nb('f0', 1)]),
                                                     (None, [nb('r0', 0)])])])
        cases.append([nb('r1', 3), ('case', 'case', style, comp, [([3], [nb('r0', 'x')]), ([2], [nb('r1', 'y')])])])
        cases.append([('case', 'case', style, comp, [([1], [nb('r0', 'x')]), ([1, 0], [nb('r0', 'y')]), ([3], [nb('r0', 7)])])])
    cases.append([('case', 'case', style, 1, [([('==', 'x', 3)], [nb('r0', 1)]), (['p'], [nb('r0', 2)]),
                                              ([('<', 'x', 'y'), 'q'], [nb('r0', 3)]), (None, [nb('r0', 4)])])])
    cases.append([('case', 'casex', style, 'x', [(["4'b1xxx"], [nb('r0', 1)]), (["4'b01xx", "4'b001x"], [nb('r0', 2)]),
                                                 (["4'bxx01"], [nb('r0', 3)]), (None, [nb('r0', 4)])])])
    cases.append([('case', 'case', style, 'z', [([-1], [nb('r0', 1)]), ([-8], [nb('r0', 2)]), ([7], [nb('r0', 3)])])])
cases.append([('case', 'case', 'call', 'sel', [([0], [('case', 'case', 'call', 'p', [([0], [nb('r0', 1)]), (None, [nb('r0', 2)])])]),
                                               ([1], [('if', 'elif', [('q', [nb('r0', 3)])], None)]), ([2], []),
                                               (None, [('case', 'case', 'call', 'q', [([1], [nb('r1', 9)])]), nb('f0', 'p')])])])
cases.append([('if', 'elif', [('p', [('case', 'case', 'call', 'sel', [([0], [nb('r0', 1)])])])],
               [('case', 'case', 'call', 'sel', [([1], [nb('r0', 2)])])])])
R.add('case', prog_scn(cases), bounds='case/casex forms, two clock steps from any state')

# ------------------------------------------------- assignments and targets
asg = [
    [('nbw', V('r0'), 'x'), ('subst', V('r1'), 'y'), ('inc', 'r0'), ('dec', 'r1')],
    [('inc', 'r0'), ('add', 'r1', 'x')], [('dec', 'r0'), ('sub', 'r1', ('+', 'x', 1))], [('add', 'r2', 'z'), ('sub', 'r0', 3)],
    [nb(('bit', 'r0', 2), 'p'), nb(('bit', 'r0', 0), 'q')], [nb(('bit', 'r1', 'x'), 'p')], [nb(('bit', 'r0', 'sel'), ('Not', ('idx', 'r0', 'sel')))],
    [nb(('slc', 'r1', 5, 2), 'x')], [nb(('slice', 'r1', 7, 4), 'x'), nb(('slice', 'r1', 3, 0), 'y')], [nb(('slc', 'r1', 6, 0), ('+', 'x', 'y'))],
    [nb(('slc', 'r1', 4, 4), 'p'), nb(('slice', 'r0', 3, 3), 'q')],
    [nb(('cat', V('f0'), V('r0')), ('+', 'x', 'y'))], [nb(('cat', V('r0'), ('slice', 'r1', 7, 4), ('bit', 'r2', 1)), ('Cat', 'x', 'y', 'p'))],
    [nb(('cat', ('slice', 'r0', 1, 0), ('slice', 'r0', 3, 2)), 'x')],
    [nb(('word', 'mem', 'sel'), 'x'), nb('r0', ('idx', 'mem', 'sel'))], [nb(('word', 'mem', 2), ('+', ('idx', 'mem', 1), 1)), nb(('word', 'mem', 'sel'), 'y')],
    [nb(('wbit', 'mem', 'sel', 1), 'p')], [nb(('wbit', 'mem', 1, 'sel'), 'q')],
    [blk('r0', 'x'), blk('r0', ('+', 'r0', 1)), nb('r1', 'r0')], [blk('r0', 'r2'), blk('r2', 'r0')], [nb('r0', 'r2'), nb('r2', 'r0')],
    [('blkw', V('r1'), ('Cat', 'x', 'y')), nb('r0', ('slice', 'r1', 5, 2)), blk(('bit', 'r1', 0), 'p'), nb('f0', ('idx', 'r1', 0))],
    [blk(('word', 'mem', 'sel'), 'x'), nb('r0', ('idx', 'mem', 0))], [blk(('slc', 'r1', 3, 1), 'x'), blk(('cat', V('f0'), V('f1')), ('slice', 'r1', 2, 1))],
    [nb('r2', ('>>', 'z', 1)), nb('r1', 'z')], [nb('r2', ('sra', 'z', 1)), nb('r1', ('sra', 'z', 'p'))], [nb('r0', 'x'), nb('r0', 'y')],
    [('tuple', [nb('r0', 'x'), ('block', [nb('r1', 'y')])]), nb('f0', 'p')],
]
R.add('assign_targets', prog_scn(asg), bounds='assignment targets and kinds, two clock steps from any state')

# ------------------------------------------------------------------ loops
lp = []
for k in ('for', 'foradd'):
    for n in (0, 1, 3, 5):
        lp.append([(k, 'i', 0, ('<', 'i', n), ('+', 'i', 1), [nb(('bit', 'r1', 'i'), ('idx', 'x', ('&', 'i', 3)))])])
    lp.append([blk('r0', 0), (k, 'i', 0, ('<', 'i', 4), ('+', 'i', 1), [blk('r0', ('+', 'r0', ('idx', 'mem', 'i')))])])
    lp.append([blk('r1', 0), (k, 'i', 1, ('<', 'i', 4), ('+', 'i', 1), [('for' if k == 'for' else 'foradd', 'k', 0, ('<', 'k', 'i'), ('+', 'k', 1),
                                                                        [blk('r1', ('+', ('<<', 'r1', 1), ('idx', 'x', 'k')))])])])
lp += [[blk('r0', 'x'), ('for', 'i', 6, ('>', 'i', 0), ('-', 'i', 2), [blk('r0', ('+', ('*', 'r0', 3), 1))])],
       [blk('r0', 0), blk('i', 0), ('while', ('<', 'i', 3), [blk('r0', ('^', 'r0', ('idx', 'mem', 'i'))), blk('i', ('+', 'i', 1))])],
       [blk('i', 0), ('while', ('Land', ('<', 'i', 4), 'p'), [('if', 'elif', [(('idx', 'x', 'i'), [blk(('bit', 'r0', 'i'), 'q')])], None), blk('i', ('+', 'i', 1))])],
       [('for', 'i', 0, ('<', 'i', 4), ('+', 'i', 1), [('if', 'elif', [(('==', 'sel', 'i'), [nb(('word', 'mem', 'i'), 'x')])], [nb(('word', 'mem', 'i'), 'y')])])],
       [('for', 'i', 0, ('<', 'i', 4), ('+', 'i', 1), [('case', 'case', 'call', 'sel', [([0], [nb(('word', 'mem', 'i'), 'x')]), ([1], [nb(('wbit', 'mem', 'i', 0), 'p')])])])],
       [('if', 'elif', [('p', [('for', 'i', 0, ('<', 'i', 2), ('+', 'i', 1), [nb(('word', 'mem', 'i'), 'x')])])],
         [('for', 'i', 2, ('<', 'i', 4), ('+', 'i', 1), [nb(('word', 'mem', 'i'), 'y')])])]]
R.add('loops', prog_scn(lp), bounds='for/while loops up to 6 iterations, two clock steps')

# ------------------------------------------------- functions and tasks
ft = [
    [nb('r0', ('call', 'fmax', 'x', 'y')), nb('r1', ('call', 'fcat', 'x', 'sel'))],
    [nb('r0', ('call', 'fmax', ('call', 'fmax', 'x', 'y'), 'r0'))], [nb('f0', ('call', 'signed_lt', 'z', 'r2')), nb('f1', ('call', 'signed_lt', 'x', 'y'))],
    [('if', 'elif', [('p', [nb('r1', ('call', 'fcat', ('+', 'x', 1), 0))])], [nb('r1', ('call', 'fcat', ('call', 'fmax', 'x', 3), 1))])],
    [('task', 'tset', 'x')], [('if', 'elif', [('p', [('task', 'tset', ('+', 'x', 'y'))])], [('task', 'tcnt')])], [('task', 'tset', 'x'), ('task', 'tcnt'), nb('r0', 't0')] if False else
    [('task', 'tset', 'x'), ('task', 'tcnt')],
]
R.add('function_task', prog_scn(ft, ft=True), bounds='functions and tasks with locals, loops, nested calls; two clock steps')

# -------------------------------------------------- combinational always
cb = [
    [blk('r0', 0), ('if', 'elif', [('p', [blk('r0', 'x')]), ('q', [blk('r0', 'y')])], None), blk('r1', ('+', 'r0', 1))],
    [blk('r1', 'x'), ('case', 'case', 'call', 'sel', [([0], [blk('r1', 'y')]), ([1], [blk(('slice', 'r1', 5, 4), 3)])]), blk('f0', ('Uxor', 'r1'))],
    [('if', 'elif', [('p', [blk('r0', 'x'), blk('f0', 'q')])], [blk('r0', 'y'), blk('f0', 0)]), ('if', 'elif', [('f0', [blk('r1', 'r0')])], [blk('r1', ('inv', 'r0'))])],
    [blk('r0', 'x'), ('for', 'i', 0, ('<', 'i', 3), ('+', 'i', 1), [blk(('bit', 'r0', 'i'), ('^', ('idx', 'x', 'i'), ('idx', 'y', 'i')))])],
]
for _k in ('comb', 'star', 'level'):
    R.add('always_%s' % _k, prog_scn(cb, kind=_k), bounds='combinational always, all inputs')
R.add('always_set_statement', prog_scn(ifs[:6] + cases[:4], kind='set'), bounds='two clock steps')

# ------------------------------------------------------- random programs
def rexpr(rnd, d=2):
    e = c01.rtree(rnd, d)
    m = {'a': 'x', 'b': 'y', 's': 'z', 'u': 'r2', 'n': 'sel', 'e': 'r1', 'p': 'p', 'q': 'q'}

    def go(z):
        if isinstance(z, str):
            return m.get(z, z)
        if isinstance(z, tuple):
            return (z[0],) + tuple(go(y) for y in z[1:])
        return z
    e = go(e)
    if isinstance(e, int):
        return e
    return e


def rcond(rnd):
    e = rexpr(rnd, 1)
    return 'p' if isinstance(e, int) else e


def rstmts(rnd, d, blocking):
    out = []
    for _ in range(rnd.randint(1, 3)):
        k = rnd.random()
        if d == 0 or k < 0.35:
            kind = 'blk' if blocking else 'nb'
            l = rnd.choice([V('r0'), V('r1'), V('r2'), V('f0'), V('f1'), ('bit', 'r1', 'x'), ('slc', 'r1', 5, 2), ('slice', 'r0', 2, 1),
                            ('word', 'mem', 'sel'), ('wbit', 'mem', 'sel', 3), ('cat', V('f0'), ('slice', 'r0', 3, 1)), ('bit', 'r0', 1)])
            out.append((kind, l, rexpr(rnd)))
        elif k < 0.7:
            n = rnd.randint(1, 3)
            arms = [(rcond(rnd), rstmts(rnd, d - 1, blocking)) for _ in range(n)]
            els = rstmts(rnd, d - 1, blocking) if rnd.random() < 0.6 else None
            out.append(('if', rnd.choice(['elif', 'elif', 'nest', 'pattern']), arms, els))
        elif k < 0.9:
            n = rnd.randint(1, 3)
            arms = [([rnd.randrange(4) for _ in range(rnd.randint(1, 2))], rstmts(rnd, d - 1, blocking)) for _ in range(n)]
            if rnd.random() < 0.5:
                arms.append((None, rstmts(rnd, d - 1, blocking)))
            out.append(('case', 'case', rnd.choice(['call', 'add']), rnd.choice(['sel', 'x', 'r0']), arms))
        else:
            v = 'i' if d > 1 else 'k'
            out.append(('for', v, 0, ('<', v, 3), ('+', v, 1), [('blk' if blocking else 'nb', ('bit', 'r1', v), rexpr(rnd, 1))]
                        + [s for s in rstmts(rnd, d - 1, blocking) if s[0] != 'for']))
    return out


_rnd = random.Random(77)
rp = [rstmts(_rnd, 3 if i % 2 else 2, i % 3 == 0) for i in range(120)]
for _i, _c in enumerate(c01.chunks(rp[:48], 8)):
    R.add('random_%d' % _i, prog_scn(_c, 1), bounds='seeded statement trees of depth 3, one step from any state')
for _i, _c in enumerate(c01.chunks(rp[48:], 8)):
    R.add('random_more_%d' % _i, prog_scn(_c, 1), tier='thorough', bounds='seeded statement trees of depth 3, one step from any state')

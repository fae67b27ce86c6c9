"""Emitted expressions compute what the Python expression says."""
import random
from vlib.harness import Registry
from vlib import term as t

R = Registry('C01', 'translation_validation', ['core/vtypes.py', 'verilog/to_verilog.py'],
             assumptions=['two-state logic', 'the reference for an expression is the fully parenthesised Verilog expression '
                          'of the same operators in the same tree order'],
             explanation='Every output of the generated module equals the same output of an independently printed, fully '
                         'parenthesised module for all operand values; programs: every operator alone, every ordered pair of operators '
                         'nested in each operand position, every operator with Python ints on either side, and a seeded library of '
                         'depth-4 trees.')

# operand name -> (width, signed, dims)
OPS = {'a': (4, False), 'b': (4, False), 'e': (6, False), 's': (4, True), 'u': (4, True), 'n': (2, False), 'p': (1, False),
       'q': (1, False)}

PYBIN = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '&': lambda x, y: x & y,
         '|': lambda x, y: x | y, '^': lambda x, y: x ^ y, '<<': lambda x, y: x << y, '>>': lambda x, y: x >> y,
         '<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
         '==': lambda x, y: x == y, '!=': lambda x, y: x != y, '/': lambda x, y: x / y, '//': lambda x, y: x // y,
         '%': lambda x, y: x % y, '**': lambda x, y: x ** y}
VBIN = {'//': '/'}
CLS = {'Plus': '+', 'Minus': '-', 'Times': '*', 'Divide': '/', 'Mod': '%', 'Power': '**', 'Add': '+', 'Sub': '-', 'Mul': '*',
       'Div': '/', 'Sll': '<<', 'Srl': '>>', 'Sra': '>>>', 'LessThan': '<', 'GreaterThan': '>', 'LessEq': '<=',
       'GreaterEq': '>=', 'Eq': '==', 'NotEq': '!=', 'Eql': '===', 'NotEql': '!==', 'And': '&', 'Or': '|', 'Xor': '^',
       'Xnor': '~^', 'Land': '&&', 'Lor': '||'}
UN = {'Uplus': '+', 'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&', 'Uor': '|', 'Unor': '~|',
      'Uxor': '^', 'Uxnor': '~^'}
PYUN = {'neg': ('-', lambda x: -x), 'pos': ('+', lambda x: +x), 'inv': ('~', lambda x: ~x)}
HELP1 = ('Not', 'Abs', 'abs', 'Sign', 'Complement2', 'Signed')


def build(r, env):
    import veriloggen as vg
    from veriloggen.core import vtypes as vt
    if isinstance(r, str):
        return env[r]
    if isinstance(r, int):
        return r
    k = r[0]
    B = lambda x: build(x, env)
    if k == 'int':
        return vt.Int(r[1], **dict(r[2]))
    if k in PYBIN and len(r) == 3:
        return PYBIN[k](B(r[1]), B(r[2]))
    if k in CLS and len(r) == 3:
        return getattr(vt, k)(B(r[1]), B(r[2]))
    if k in UN:
        return getattr(vt, k)(B(r[1]))
    if k in PYUN:
        return PYUN[k][1](B(r[1]))
    if k == 'abs':
        return abs(B(r[1]))
    if k in ('Not', 'Abs', 'Sign', 'Complement2', 'Signed'):
        return getattr(vt, k)(B(r[1]))
    if k == 'sra':
        return B(r[1]).sra(B(r[2]))
    if k == 'rep':
        return B(r[1]).repeat(r[2])
    if k == 'Repeat':
        return vt.Repeat(B(r[1]), r[2])
    if k == 'Cat':
        return vt.Cat(*[B(x) for x in r[1:]])
    if k in ('Ands', 'Ors', 'AndList', 'OrList'):
        return getattr(vt, k)(*[B(x) for x in r[1:]])
    if k in ('Mux', 'Cond'):
        return getattr(vt, k)(*[B(x) for x in r[1:]])
    if k == 'PatternMux':
        ps = [(None if c is None else B(c), B(v)) for c, v in r[1]]
        return vt.PatternMux(*ps) if r[2] else vt.PatternMux(ps)
    if k == 'idx':
        return B(r[1])[B(r[2])]
    if k == 'slc':
        return B(r[1])[slice(*r[2])]
    if k == 'slice':
        return B(r[1]).slice(r[2], r[3])
    if k == 'Slice':
        return vt.Slice(B(r[1]), r[2], r[3])
    if k == 'Pointer':
        return vt.Pointer(B(r[1]), B(r[2]))
    if k == 'iter':
        x = B(r[1])
        return vt.Cat(*[y for y in x])
    raise KeyError(k)


def ref(r, W):
    """independent fully parenthesised Verilog; W: widths of the operands"""
    F = lambda x: ref(x, W)
    if isinstance(r, str):
        return r
    if isinstance(r, bool):
        return "1'd%d" % r
    if isinstance(r, int):
        return '(%d)' % r if r >= 0 else '(-%d)' % -r
    k = r[0]
    if k == 'int':
        kw = dict(r[2])
        w = kw.get('width')
        s = 's' if kw.get('signed') or r[1] < 0 else ''
        v = r[1]
        if w is None and not s and not kw.get('base'):
            return F(v)
        if w is None:
            return "('%sd%d)" % (s, v) if v >= 0 else "(-'%sd%d)" % (s, -v)
        return "(%d'%sd%d)" % (w, s, v) if v >= 0 else "(-%d'%sd%d)" % (w, s, -v)
    if k in PYBIN and len(r) == 3:
        return '(%s %s %s)' % (F(r[1]), VBIN.get(k, k), F(r[2]))
    if k in CLS and len(r) == 3:
        return '(%s %s %s)' % (F(r[1]), CLS[k], F(r[2]))
    if k in UN:
        return '(%s(%s))' % (UN[k], F(r[1]))
    if k in PYUN:
        return '(%s(%s))' % (PYUN[k][0], F(r[1]))
    if k == 'Not':
        return '(!(%s))' % F(r[1])
    if k in ('Abs', 'abs'):
        x = F(r[1])
        return "((%s < 'sd0)? (~(%s)) + 1 : %s)" % (x, x, x)
    if k == 'Sign':
        return "(%s < 'sd0)" % F(r[1])
    if k == 'Complement2':
        return '((~(%s)) + 1)' % F(r[1])
    if k == 'Signed':
        return '($signed(%s))' % F(r[1])
    if k == 'sra':
        return '(%s >>> %s)' % (F(r[1]), F(r[2]))
    if k in ('rep', 'Repeat'):
        return '{%d{%s}}' % (r[2], F(r[1]))
    if k == 'Cat':
        return '{%s}' % ', '.join(F(x) for x in r[1:])
    if k in ('Ands', 'AndList', 'Ors', 'OrList'):
        op = ' && ' if k[0] == 'A' else ' || '
        e = F(r[1])
        for x in r[2:]:
            e = '(%s%s%s)' % (e, op, F(x))
        return e
    if k in ('Mux', 'Cond'):
        if k == 'Mux' and isinstance(r[1], int):
            return F(r[2] if r[1] else r[3])
        return '((%s)? (%s) : (%s))' % (F(r[1]), F(r[2]), F(r[3]))
    if k == 'PatternMux':
        e = F(r[1][-1][1])
        for c, v in reversed(r[1][:-1]):
            e = '((%s)? (%s) : (%s))' % (F(c), F(v), e)
        return e
    if k in ('idx', 'Pointer'):
        i = r[2]
        if isinstance(i, int) and i < 0:
            i += W[r[1]] if isinstance(r[1], str) else W[r[1][1]]
        return '%s[%s]' % (F(r[1]), F(i) if not isinstance(i, int) else i)
    if k == 'slc':
        bits = list(range(W[r[1]]))[slice(*r[2])]
        return '{%s}' % ', '.join('%s[%d]' % (r[1], b) for b in reversed(bits))
    if k in ('slice', 'Slice'):
        return '%s[%d:%d]' % (r[1], r[2], r[3])
    if k == 'iter':
        return '{%s}' % ', '.join('%s[%d]' % (r[1], b) for b in range(W[r[1]]))
    raise KeyError(k)


def selects_fix(r):
    return r


def expr_scn(recipes, ow=9, osign=False, arrays=False):
    def gen():
        import veriloggen as vg
        m = vg.Module('dut')
        env = {n: m.Input(n, w, signed=s) for n, (w, s) in OPS.items()}
        if arrays:
            env['mem'] = m.Reg('mem', 4, dims=4)
            env['smem'] = m.Reg('smem', 4, dims=4, signed=True)
            env['mm'] = m.Reg('mm', 4, dims=(2, 4))
            clk = m.Input('CLK')
            m.Always(vg.Posedge(clk))(env['mem'][env['n']](env['a']), env['smem'][env['n']](env['a']),
                                      env['mm'][env['p']][env['n']](env['a']))
        for i, r in enumerate(recipes):
            o = m.Output('o%d' % i, ow, signed=osign)
            o.assign(build(r, env))
        return m

    def reftext():
        W = {n: w for n, (w, s) in OPS.items()}
        W.update(mem=4, smem=4, mm=4)
        L = ['module ref(']
        ps = ['input %s[%d:0] %s' % ('signed ' if s else '', w - 1, n) for n, (w, s) in OPS.items()]
        if arrays:
            ps.append('input CLK')
        ps += ['output %s[%d:0] o%d' % ('signed ' if osign else '', ow - 1, i) for i in range(len(recipes))]
        L.append(',\n'.join(ps) + ');')
        if arrays:
            L.append('reg [3:0] mem [0:3]; reg signed [3:0] smem [0:3]; reg [3:0] mm [0:1][0:3];')
            L.append('always @(posedge CLK) begin mem[n] <= a; smem[n] <= a; mm[p][n] <= a; end')
        for i, r in enumerate(recipes):
            L.append('assign o%d = %s;' % (i, ref(r, W)))
        L.append('endmodule')
        return '\n'.join(L)

    def sc(c):
        g = c.hw(c.verilog('d', gen), 'dut', clk='CLK' if arrays else None, initzero=arrays)
        f = c.hw(c.built('ref', reftext), 'ref', clk='CLK' if arrays else None, initzero=arrays)
        for st in range(9 if arrays else 1):
            for n, (w, s) in OPS.items():
                if arrays and st < 8 and n in ('n', 'p'):
                    v = t.const((st >> 1) if n == 'n' else st & 1, w)
                else:
                    v = c.fresh(n, w)
                g.set(n, v)
                f.set(n, v)
            if arrays and st < 8:
                g.step()
                f.step()
                continue
            for i, r in enumerate(recipes):
                c.eqv('o%d' % i, g.get('o%d' % i), f.get('o%d' % i), info='%r  must be  %s' % (
                    r, ref(r, {**{n: w for n, (w, s) in OPS.items()}, 'mem': 4, 'smem': 4, 'mm': 4})))
    return sc


def chunks(xs, n):
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


# ---- every operator alone, signed and unsigned, mixed, and with ints
single = []
for _o in PYBIN:
    for _x, _y in (('a', 'b'), ('s', 'u'), ('a', 's'), ('s', 'b'), ('e', 'a'), ('a', 'e')):
        if _o in ('/', '//', '%') and _x != 'a' and _y != 'b':
            continue
        if _o == '**':
            continue
        single.append((_o, _x, _y))
    if _o != '**':
        for _i in (3, 1):
            single.append((_o, 'a', _i))
            single.append((_o, _i, 'a'))
            single.append((_o, 's', _i))
            single.append((_o, _i, 's'))
    if _o not in ('**', '<<', '>>', '/', '//', '%'):
        single.append((_o, -2, 's'))
        single.append((_o, 's', -2))
single += [('**', 2, 'n'), ('**', 'a', 2), ('**', 'n', 'n'), ('**', 3, 'p')]
for _o in CLS:
    if _o == 'Power':
        single.append((_o, 'n', 2))
        continue
    for _x, _y in (('a', 'b'), ('s', 'u'), ('s', 'n'), ('a', 3), (3, 'a')):
        single.append((_o, _x, _y))
for _o in UN:
    for _x in ('a', 's', 'e', 'p', ('+', 'a', 'b'), ('Cat', 'a', 'p')):
        single.append((_o, _x))
for _o in PYUN:
    for _x in ('a', 's', 'e', ('+', 'a', 'b'), ('&', 'a', 's')):
        single.append((_o, _x))
for _o in HELP1:
    for _x in ('a', 's', ('-', 's', 'u'), ('+', 'a', 'b')):
        single.append((_o, _x))
R.add('single_ops', expr_scn(single), bounds='every operator, 4..6 bit operands, 9-bit result')
R.add('single_ops_signed_dest', expr_scn(single, 9, True), bounds='every operator, signed 9-bit result')
R.add('single_ops_narrow', expr_scn(single, 2), bounds='every operator, 2-bit destination')

# ---- constants as operands of every operator
KS = [('int', -3, ()), ('int', 3, (('signed', True),)), ('int', -5, (('signed', True),)), ('int', -2, (('width', 4),)),
      ('int', 6, (('width', 3),)), ('int', -3, (('width', 5), ('signed', True))), ('int', 5, (('width', 6), ('base', 16)))]
konst = []
for _k in KS:
    for _o in list(UN) + list(PYUN) + ['Not', 'Sign', 'Signed']:
        konst.append((_o, _k))
        konst.append(('+', 's', (_o, _k)))
        konst.append((_o, ('Uminus', _k)))
    for _o in PYBIN:
        if _o in ('**', '//'):
            continue
        konst.append((_o, 's', _k) if _o not in ('<<', '>>', '/', '%') else (_o, _k, 'n'))
        if _o not in ('<<', '>>', '/', '%'):
            konst.append((_o, _k, 'u'))
        konst.append((_o, ('Uminus', _k), 'n'))
    for _o in CLS:
        if _o in ('Power', 'Divide', 'Div', 'Mod', 'Sll', 'Srl', 'Sra', 'Xnor'):
            continue
        konst.append((_o, _k, 's'))
    konst += [('Mux', 'p', _k, 's'), ('Mux', ('==', 's', _k), 'a', ('Uminus', _k)), ('Cond', 'p', ('-', 's', _k), _k)]
for _o in UN:
    konst += [(_o, -3), ('+', 'a', (_o, -3)), ('&', (_o, -1), 's')]
R.add('constants', expr_scn(konst), bounds='every operator with signed, unsigned, sized, negative constants')
R.add('constants_signed_dest', expr_scn(konst, 9, True), bounds='every operator with constants, signed destination')

# ---- all ordered pairs of operators, nested left and right
BASE = ['+', '-', '*', '&', '|', '^', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', 'Eql', 'NotEql', 'Xnor', 'Land', 'Lor', 'sra',
        '/', '%']
CHEAP = [o for o in BASE if o not in ('/', '%')]


def pairs(a, b, cc):
    out = []
    for o1 in BASE:
        for o2 in BASE:
            if o1 in '/%' and o2 in '/%' and o1 != o2:
                pass
            out.append((o1, (o2, a, b), cc))
            if o1 in ('<<', '>>', 'sra') and o2 in ('/', '%', '*'):
                out.append((o1, a, (o2, b, 'n')))
            else:
                out.append((o1, a, (o2, b, cc)))
    return out


for _i, _c in enumerate(chunks(pairs('a', 'b', 'n'), 250)):
    R.add('pairs_unsigned_%d' % _i, expr_scn(_c, 7), bounds='every ordered operator pair in both operand positions, unsigned')
for _i, _c in enumerate(chunks(pairs('s', 'u', 's'), 250)):
    R.add('pairs_signed_%d' % _i, expr_scn(_c, 7), bounds='every ordered operator pair in both operand positions, signed')
for _i, _c in enumerate(chunks(pairs('s', 'a', 'p'), 250)):
    R.add('pairs_mixed_%d' % _i, expr_scn(_c, 8), tier='thorough', bounds='operator pairs, mixed signedness')

# ---- unary of binary, binary of unary, cond nested
mixed = []
for _u in list(UN) + list(PYUN) + list(HELP1):
    for _o in CHEAP:
        mixed.append((_u, (_o, 's', 'u')))
        mixed.append((_o, (_u, 'a'), 'b'))
        mixed.append((_o, 's', (_u, 'u')))
for _u in list(UN) + list(PYUN) + ['Not', 'Signed']:
    for _v in list(UN) + list(PYUN) + ['Not', 'Signed']:
        mixed.append((_u, (_v, 'a')))
for _i, _c in enumerate(chunks(mixed, 400)):
    R.add('unary_mix_%d' % _i, expr_scn(_c, 7), bounds='every unary/binary operator pair and unary/unary pair')
cond = []
for _o in CHEAP:
    cond += [('Mux', (_o, 'a', 'b'), 's', 'u'), ('Mux', 'p', (_o, 'a', 'b'), 'e'), ('Mux', 'p', 'e', (_o, 'a', 'b')),
             (_o, ('Mux', 'p', 'a', 'b'), 'e'), (_o, 'e', ('Mux', 'p', 's', 'u')), ('Cond', ('Not', 'a'), (_o, 's', 'u'), 's')]
cond += [('Mux', 'p', ('Mux', 'q', 'a', 'b'), 'e'), ('Mux', 'p', 'a', ('Mux', 'q', 'b', 'e')), ('Mux', ('Mux', 'p', 'q', 'a'), 'b', 'e'),
         ('Mux', 'p', 5, 'a'), ('Mux', 'p', 'a', -1), ('Mux', 1, 'a', 'b'), ('Mux', 0, 'a', 'b'), ('Mux', True, 'a', 'b'),
         ('Mux', 'a', 's', 'b'), ('Mux', 's', 's', 'u'), ('+', ('Mux', 'p', 's', 'u'), 's'), ('>>', ('Mux', 'p', 's', 'b'), 1),
         ('Uminus', ('Mux', 'p', 'a', 's')), ('Uand', ('Mux', 'p', 'a', 'b')), ('Cat', ('Mux', 'p', 'a', 'b'), 'q')]
for _k in (True, False):
    cond += [('PatternMux', ((('p'), 'a'), (('q'), 'b'), (None, 'e')), _k),
             ('PatternMux', (((('==', 'a', 3)), 's'), ((('<', 'a', 'b')), 'u'), (('q'), 'e'), (None, 7)), _k),
             ('PatternMux', ((('p'), ('+', 'a', 'b')), (None, ('-', 'a', 'b'))), _k)]
for _n in range(1, 5):
    _xs = ['p', ('<', 'a', 'b'), ('|', 'p', 'q'), 'e'][:_n]
    for _k in ('Ands', 'Ors', 'AndList', 'OrList'):
        cond.append((_k,) + tuple(_xs))
        cond.append((_k,) + tuple(reversed(_xs)))
        cond.append(('Not', (_k,) + tuple(_xs)))
        cond.append(('Lor' if _k[0] == 'A' else 'Land', (_k,) + tuple(_xs), 'q'))
R.add('conditional', expr_scn(cond, 8), bounds='conditional, pattern multiplexer and n-ary logic forms')
R.add('conditional_signed', expr_scn(cond, 8, True), bounds='conditional forms, signed destination')

# ---- bit selects, slices, concatenation, replication
sel = []
for _v, _w in (('a', 4), ('s', 4), ('e', 6)):
    for _i in list(range(-_w, _w)):
        sel.append(('idx', _v, _i))
    for _lo in [None] + list(range(-_w, _w)):
        for _hi in [None] + list(range(-_w + 1, _w + 1)):
            if len(list(range(_w))[slice(_lo, _hi)]):
                sel.append(('slc', _v, (_lo, _hi, None)))
                if _v == 'e':
                    for _s in (1, 2, 3):
                        sel.append(('slc', _v, (_lo, _hi, _s)))
    for _hi in range(_w):
        for _lo in range(_hi + 1):
            sel.append(('slice', _v, _hi, _lo))
            sel.append(('Slice', _v, _hi, _lo))
    sel.append(('idx', _v, 'n'))
    sel.append(('idx', _v, ('^', 'n', 'p')))
    sel.append(('Pointer', _v, ('>>', 'n', 1)))
    sel.append(('iter', _v))
for _o in ('+', '-', '<', '>>', '&', '=='):
    sel += [(_o, ('slice', 's', 3, 1), 's'), (_o, ('idx', 's', 3), 's'), (_o, ('Cat', 's', 'u'), 's'), (_o, ('rep', 's', 2), 's'),
            (_o, 's', ('slice', 'e', 4, 2)), (_o, ('Signed', ('slice', 'e', 4, 2)), 's'), (_o, ('Signed', ('Cat', 'a', 'p')), 's')]
sel += [('Cat', 'a'), ('Cat', 'a', 'b'), ('Cat', 'p', 'e', 'q'), ('Cat', ('Cat', 'a', 'p'), ('Cat', 'q', 'n')), ('Cat', 's', 'u'),
        ('Cat', ('idx', 'a', 0), ('slice', 'b', 2, 1)), ('rep', 'a', 1), ('rep', 'p', 4), ('rep', 'a', 2), ('Repeat', 'n', 3),
        ('rep', ('Cat', 'p', 'n'), 2), ('Cat', ('rep', 'p', 3), 'a'), ('Repeat', ('Cat', 'p', 'q'), 3), ('rep', ('idx', 's', -1), 5),
        ('Cat', ('rep', ('idx', 's', -1), 4), 's'), ('Cat', ('int', 1, (('width', 2),)), 'a'),
        ('Cat', ('int', -1, (('width', 2),)), 'a'), ('Cat', ('int', -1, (('width', 3), ('signed', True))), 'p'),
        ('Cat', ('Not', 'a'), ('<', 'a', 'b'), ('&', 'a', 'b')), ('rep', ('<', 'a', 'b'), 3), ('rep', ('&', 'a', 'b'), 2),
        ('Cat', ('Unot', 'p'), ('Uxor', 'a'), 'q')]
for _i, _c in enumerate(chunks(sel, 400)):
    R.add('selects_%d' % _i, expr_scn(_c, 12), bounds='every constant index and slice (Python semantics), dynamic bit selects, '
          'concatenation, replication')

arr = [('idx', 'mem', 'n'), ('idx', 'mem', 2), ('idx', ('idx', 'mem', 'n'), 1), ('idx', ('idx', 'mem', 1), 'n'),
       ('idx', ('idx', 'mem', 'n'), -1), ('idx', ('idx', 'mem', 'n'), -4), ('+', ('idx', 'mem', 'n'), ('idx', 'mem', 0)),
       ('<', ('idx', 'smem', 'n'), ('idx', 'smem', 1)), ('Cat', ('idx', 'mem', 'n'), ('idx', 'smem', 'n')),
       ('idx', ('idx', 'mm', 'p'), 'n'), ('idx', ('idx', 'mm', 1), 2), ('+', ('idx', ('idx', 'mm', 'p'), 3), 's'),
       ('idx', 'mem', ('+', 'n', 'p')), ('Uminus', ('idx', 'smem', 'n')), ('>>', ('idx', 'smem', 'n'), 'p'),
       ('sra', ('idx', 'smem', 'n'), 'p')]
R.add('arrays', expr_scn(arr, 9, arrays=True), bounds='array word and bit selects, one and two dimensions, all contents')

# ---- seeded random trees
def rtree(rnd, d):
    if d == 0 or rnd.random() < 0.12:
        return rnd.choice(['a', 'b', 's', 'u', 'n', 'p', 'q', 'e', 'a', 's', 2, 1, 5])
    k = rnd.random()
    if k < 0.62:
        o = rnd.choice(CHEAP)
        x, y = rtree(rnd, d - 1), rtree(rnd, d - 1)
        if isinstance(x, int) and isinstance(y, int):
            y = 's'
        if o in ('<<',) and not isinstance(y, (str, int)):
            y = 'n'
        if o == '*' :
            x = rnd.choice(['a', 's', 'n'])
        if not isinstance(x, int) or o in PYBIN:
            return (o, x, y) if not (o == 'sra' and isinstance(x, int)) else ('>>', x, y)
        return (o, 's', y)
    if k < 0.8:
        x = rtree(rnd, d - 1)
        if isinstance(x, int):
            x = 'b'
        return (rnd.choice(list(UN) + list(PYUN) + ['Not', 'Signed', 'Abs']), x)
    if k < 0.92:
        x = rtree(rnd, d - 1)
        if isinstance(x, int):
            x = 'p'
        return ('Mux', x, rtree(rnd, d - 1), rtree(rnd, d - 1))
    x = [rtree(rnd, d - 1) for _ in range(2)]
    x = ['a' if _has_int(y) else y for y in x]
    return ('Cat',) + tuple(x)


def _has_int(y):
    # unsized constants are illegal inside concatenations
    if isinstance(y, int):
        return True
    if isinstance(y, str):
        return False
    if y[0] in ('Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor', 'Ulnot', 'Not', '<', '<=', '>', '>=', '==', '!=', 'Eql', 'NotEql',
                'Land', 'Lor', 'Cat'):
        return False
    if y[0] == 'Abs':
        return True
    return any(_has_int(z) for z in y[1:])


_rnd = random.Random(1234)
trees = [rtree(_rnd, 4) for _ in range(900)]
trees = [x for x in trees if isinstance(x, tuple)]
for _i, _c in enumerate(chunks(trees[:400], 100)):
    R.add('trees_%d' % _i, expr_scn(_c, 8), bounds='seeded depth-4 expression trees')
for _i, _c in enumerate(chunks(trees[400:], 100)):
    R.add('trees_more_%d' % _i, expr_scn(_c, 8, True), tier='thorough', bounds='seeded depth-4 expression trees, signed result')

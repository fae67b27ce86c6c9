"""Synthesised thread code computes what the Python function computes."""
from vlib.harness import Registry
from vlib import term as t
from vlib.symint import SymInt
from checks.thlib import Prog, scenario, Fmt

R = Registry('C12', 'model_checking', ['thread/compiler.py', 'thread/operator.py', 'thread/scope.py', 'thread/thread.py', 'fsm/fsm.py', 'seq/seq.py',
                                       'optimizer/optimizer.py', 'core/vtypes.py', 'verilog/to_verilog.py'],
             assumptions=['operands of comparisons, right shifts, // and % fit the register width; operands of // and % are not negative',
                          'function arguments keep their value while the thread runs', 'boolean operators are used for their truth value'],
             explanation='Library of Python functions: the state machine veriloggen.thread generates from the source is executed symbolically to its '
                         'end state on symbolic arguments, CPython runs the same function on exact symbolic integers, and final register values '
                         'and printed lines (print with values, tuples, format strings) are compared on every path.')


def nonneg(*names_hi):
    def pre(c, *vals):
        for v, hi in zip(vals, names_hi):
            if hi is None:
                continue
            c.assume(v.v.sge(0))
            c.assume(v.v.sle(hi))
    return pre


def add(name, body, pre=None, tier='quick', steps=120, **kw):
    src = 'def prog(%s):\n' % ', '.join(kw.get('ins', ('a', 'b'))) + '\n'.join('    ' + l for l in body.strip('\n').split('\n')) + '\n' + kw.pop('more', '')
    p = Prog(src, **kw)
    R.add(name, scenario(p, maxsteps=steps, pre=pre), tier=tier, bounds='all %s argument values, program "%s"' % (
        '/'.join('%d-bit' % p.iwid(n)[0] for n in p.ins), name))


# every binary operator in every operand form
OPS = [('add', '+'), ('sub', '-'), ('mul', '*'), ('and', '&'), ('or', '|'), ('xor', '^')]
for n, o in OPS:
    add('op_' + n, 'o0.value = a %s b\nx = a\nx %s= b\nx %s= 3\no1.value = x' % (o, o, o))
    add('op_%s_const' % n, 'o0.value = a %s 5\no1.value = 5 %s b' % (o, o))
    add('op_%s_constneg' % n, 'o0.value = a %s -3\no1.value = -7 %s b' % (o, o))
    add('op_%s_w32' % n, 'o0.value = a %s b\no1.value = (a %s 1000) %s b' % (o, o, o), W=32 if n != 'mul' else 12)
for n, o in (('div', '//'), ('mod', '%')):
    add('op_' + n, 'o0.value = a %s b\no1.value = a %s 3' % (o, o), pre=nonneg(60, 60), W=7)
    add('op_%s_const' % n, 'x = a\nx %s= 4\no0.value = x\no1.value = 100 %s b' % (o, o), pre=nonneg(127, 127))
    add('op_%s_fold' % n, 'o0.value = a + 17 %s 5\no1.value = b + (40 %s 7) * 2' % (o, o))
for n, o in (('sll', '<<'), ('sra', '>>')):
    add('op_' + n, 'o0.value = a %s b\nx = a\nx %s= 2\no1.value = x' % (o, o), iw={'b': (3, False)})
    add('op_%s_const' % n, 'o0.value = a %s 1\no1.value = a %s 7' % (o, o))
    add('op_%s_lconst' % n, 'o0.value = 37 %s b\no1.value = (-37) %s b' % (o, o), iw={'b': (4, False)}, W=16)
add('op_pow', 'o0.value = a ** 2\no1.value = 3 ** 4 + b')
add('op_unary', 'o0.value = -a\no1.value = ~b + (+a)')
add('op_unary2', 'o0.value = -(-a) - -b\no1.value = ~(~a ^ b)')
CMP = [('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')]
for n, o in CMP:
    add('cmp_' + n, 'o0.value = a %s b\nif a %s b:\n    o1.value = 1\nelse:\n    o1.value = 2' % (o, o))
    add('cmp_%s_const' % n, 'o0.value = a %s 3\no1.value = -2 %s b' % (o, o))
add('chain2', 'o0.value = 1 if a < b < 10 else 0\no1.value = 1 if 0 <= a <= b else 0')
add('chain3', 'if a < b <= 3 != a:\n    o0.value = a\nelse:\n    o0.value = b\n')
add('chain_eq', 'if a == b == 3:\n    o0.value = 9\nif -4 < a > b >= -8:\n    o1.value = 7')
add('bool_and', 'if a > 1 and b > 2:\n    o0.value = 1\nif a > 1 and b > 2 and a != b:\n    o1.value = 1')
add('bool_or', 'if a > 1 or b > 2:\n    o0.value = 1\nif a == 1 or b == 2 or a == b:\n    o1.value = 1')
add('bool_mix', 'o0.value = (a > 1 and b > 2) or not (a == b)\no1.value = not a')
add('bool_truth', 'if a and b:\n    o0.value = 1\nif not a or not b:\n    o1.value = 1')
add('bool_const', 'if True and a:\n    o0.value = 1\nif False or b:\n    o1.value = 1\n')
add('not_', 'x = not (a < b)\nif not x:\n    o0.value = 3\no1.value = not not a')
add('ifexp', 'o0.value = a if a > b else b\no1.value = 1 if a else (2 if b else 3)')
add('ifexp2', 'x = (a if a > 0 else -a) + (b if b > 0 else -b)\no0.value = x\nx += 1 if x == 3 else 2\no1.value = x')
add('ifexp_arg', 'o0.value = (a if a else b) * 2 - 1\no1.value = ((a > b) if a else (b > 3))')
# statements
add('if1', 'x = 1\nif a:\n    x = 2\no0.value = x')
add('if_else', 'x = 1\nif a > b:\n    x = a - b\nelse:\n    x = b - a\no0.value = x')
add('if_elif', 'x = 0\nif a > 10:\n    x = 1\nelif a > 5:\n    x = 2\nelif b:\n    x = 3\nelse:\n    x = 4\no0.value = x\no1.value = x + a')
add('if_elif_noelse', 'x = 9\nif a > 10:\n    x = 1\nelif a > 5:\n    x = 2\nelif b == 3:\n    x = 3\no0.value = x')
add('if_nested', 'x = 0\nif a > 0:\n    if b > 0:\n        x = 1\n    else:\n        x = 2\n    x += 10\nelse:\n    if b > 0:\n        x = 3\n    x += 20\no0.value = x')
add('if_nested3', 'x = 0\nif a > 0:\n    if b > 0:\n        if a > b:\n            x = 1\n        elif a == b:\n            x = 2\n    elif b == 0:\n        x = 5\no0.value = x\n'
    'if x:\n    o1.value = x * 2')
add('if_pass', 'x = 4\nif a:\n    pass\nelse:\n    x = 5\nif b:\n    x += 1\nelse:\n    pass\no0.value = x')
add('if_reassign', 'x = a\nif x > 3:\n    x = 2\nif x == 2:\n    x = b\nif x == b:\n    o0.value = 1\nelse:\n    o0.value = x')
add('if_const', 'x = a\nif 1:\n    x += 1\nif 0:\n    x += 2\nelse:\n    x += 4\no0.value = x\no1.value = 3 if 1 > 2 else b')
add('tuple_swap', 'x, y = a, b\nx, y = y, x\no0.value = x\no1.value = y')
add('tuple_rot', 'x = a\ny = b\nz = 7\nx, y, z = y + 1, z, x\no0.value = x - y\no1.value = z')
add('tuple_nest', 'x, (y, z) = a, (b, 3)\no0.value = x + z\no1.value = y')
add('multi_target', 'x = y = a + 1\nx += 1\no0.value = x\no1.value = y')
add('list_assign', '[x, y] = [b, a]\no0.value = x - y\no1.value = y')
add('aug_chain', 'x = a\nx += b\nx *= 3\nx -= a\nx <<= 1\nx |= 1\nx ^= b\nx &= 127\no0.value = x')
add('aug_out', 'o0.value = a\no0.value += b\no0.value -= 1\no1.value = 3\no1.value <<= 2\no1.value |= a')
add('out_read', 'o0.value = a\nx = o0.value + 1\no0.value = x\ny = o0.value\no1.value = y + o0.value')
add('selfref', 'x = a\nx = x + x\nx = x * x - x\no0.value = x')
add('expr_prec', 'o0.value = a + b * 3 - (a - b) * 2\no1.value = (a & 15) | (b ^ a) & ~b')
add('expr_prec2', 'o0.value = -(a + b) - (-a)\no1.value = a - (b - (a - (b - 1)))')
add('expr_sub_assoc', 'o0.value = a - b - 3 - a\no1.value = (a - (b + 3)) - (2 - b)')
add('expr_shift', 'o0.value = (a << 2) + 1\no1.value = (a + 1 << 1) - (b >> 1)', lim=9, W=9)
add('expr_fold', 'o0.value = a + 2 * 3 + 4\no1.value = (1 + 2) * b - (7 - 10)')
add('expr_fold_shift', 'o0.value = a + (3 << 2)\no1.value = b - (100 >> 3)')
add('expr_fold_cmp', 'o0.value = a + (3 < 4)\no1.value = b + (3 == 4)')
add('expr_fold_bits', 'o0.value = a + (12 & 10)\no1.value = b + ((12 | 3) ^ 5)')
add('fold_const_var', 'x = 5\ny = x + 3\no0.value = y * a\no1.value = 2 * 3 * a * 1 + 0')
add('cmp_in_arith', 'o0.value = (a > b) + (a == 3) * 2\no1.value = (a < b) | (b < 5)')
add('bit', 'o0.value = a[0] + a[7] * 2\no1.value = b[3]')
add('bit_slice', 'o0.value = a[0:3]\no1.value = a[2:6] + b[7:8]')
add('bit_slice2', 'o0.value = a[:4]\no1.value = a[5:] + b[-3:-1]')
add('bit_step', 'o0.value = a[0:8:2]\no1.value = b[1:6:3]')
add('bit_neg', 'o0.value = a[-1]\no1.value = b[-2]')
add('bit_var', 'x = a\ny = x[2]\no0.value = y\nif x[0]:\n    o1.value = 5')
add('bit_var_idx', 'x = a\no0.value = x[b]', iw={'b': (3, False)})
add('negconst', 'x = -5\no0.value = x + a\nif a > -5:\n    o1.value = -6')
add('bigconst', 'o0.value = a + 1000000007\no1.value = 0x12345678 ^ b', W=32)
add('hexconst', 'o0.value = (a & 0xf0) | (b & 0b1111)\no1.value = 0o17 + a')
add('true_false', 'x = True\ny = False\nz = None\no0.value = a + x\no1.value = y + b')
add('int_call', 'x = int(a)\no0.value = x + int(b + 1)')
add('print1', 'print("start")\nx = a\nprint("x is", x)\nx += 1\nprint(x, b)\no0.value = x')
add('print_if', 'if a > b:\n    print("gt", a, b)\nelse:\n    print("le", b)\no0.value = 1')
add('print_expr', 'print("sum", a + b, "and", a & b)\no0.value = 2', W=12)
add('print_tuple', 'print(("t", a, b))\no0.value = a')
add('print_concat', 'print("con" + "cat", a)\no0.value = a')
add('unsigned_in', 'o0.value = a + b\no1.value = a * 2', iw={'a': (8, False), 'b': (5, False)}, W=16)
add('narrow_in', 'x = a\ny = b\nif x > y:\n    o0.value = x\nelse:\n    o0.value = y\no1.value = x - y', iw={'a': (3, True), 'b': (5, True)}, W=8)
add('dw16', 'x = a * b\no0.value = x + 1\no1.value = a - b', W=16)
add('noargs', 'x = 3\nfor i in range(4):\n    x += i\no0.value = x', ins=(), W=32)
add('three', 'x = a\nif b > c:\n    x += b\nelse:\n    x += c\nif x > b:\n    x = x - b\no0.value = x\no1.value = b + c', ins=('a', 'b', 'c'))
add('docstring', '"doc"\nx = a\n"""another"""\no0.value = x + 1')
add('expr_stmt', 'x = a\nx + 1\no0.value = x')

add('return_top', 'o0.value = 1\nif a:\n    return\no0.value = 2\nif b:\n    o0.value = 3\n    return 7\no0.value = 4')
add('print_fmt', 'print("a=%d b=%d" % (a, b))\nprint("only %d" % a)\no0.value = a', iw={'a': 3, 'b': 2})
add('print_fmt2', 'print("v", "w=%d" % (a + 1), "z")\no0.value = a', iw={'a': 3}, ins=('a',))
add('print_fstr', 'print(f"{a} and {b} sum {a + b:d}")\no0.value = a', iw={'a': 3, 'b': 2})
add('print_noarg', 'print("hello")\nprint("two", "words")\no0.value = a')
# generated programs
from checks.thgen import Gen
for i in range(120):
    p = Prog(Gen(1000 + i).prog(6 if i % 3 else 9), W=8)
    R.add('gen%d' % i, scenario(p, maxsteps=120), tier='quick' if i < 40 else 'thorough', bounds='all 8-bit argument values, generated program %d' % i)

"""Thread loops iterate, break and continue as Python does."""
import itertools
from vlib.harness import Registry
from checks.thlib import Prog, scenario
from checks.thgen import Gen

R = Registry('C14', 'model_checking', ['thread/compiler.py', 'thread/scope.py', 'thread/thread.py', 'fsm/fsm.py', 'optimizer/optimizer.py'],
             assumptions=['loop bounds are not modified by the loop body (listed findings cover bounds, loop variables and iterated values that change in the body)',
                          'operands of comparisons fit the register width', 'trip counts up to 7'],
             explanation='Library and systematic enumeration of loop programs; the generated state machine and CPython on symbolic integers must agree on '
                         'final values and on the order-sensitive trace word of visited program points, on every path.')


def add(name, body, pre=None, tier='quick', steps=300, more='', **kw):
    kw.setdefault('iw', {'a': (2, False), 'b': (2, False)})
    src = 'def prog(%s):\n' % ', '.join(kw.get('ins', ('a', 'b'))) + '\n'.join('    ' + l for l in body.strip('\n').split('\n')) + '\n' + more
    p = Prog(src, **kw)
    R.add(name, scenario(p, maxsteps=steps, pre=pre), tier=tier, bounds='all argument values (%s), program "%s"' % (
        ', '.join('%s: %d bits' % (n, p.iwid(n)[0]) for n in p.ins), name))


S8 = {'a': (3, True), 'b': (3, True)}
SUM = 's = 0\nfor i in range(%s):\n    s = s * 3 + i\n    o1.value += 1\no0.value = s'
for n, rg in (('1', 'a'), ('1_const', '4'), ('1_zero', '0'), ('1_expr', 'a + 1'), ('1_expr2', 'a * 2'), ('2', 'a, b'), ('2_const', '1, 4'), ('2_var', 'a, a + 3'),
              ('2_neg', '-2, b'), ('3', 'a, 6, b + 1'), ('3_const', '0, 7, 3'), ('3_const2', '1, 8, 2'), ('3_var', '0, 5, a + 1'),
              ('3_down', '3, 0, -1'), ('3_down2', '7, -1, -3'), ('3_down_var', 'a, -1, -1'), ('3_down_exact', '4, 0, -2'), ('3_downup', 'a, b, -1'),
              ('out', 'o2.value'), ('empty', 'b, b')):
    add('range_' + n, ('o2.value = a\n' if n == 'out' else '') + 'o1.value = 0\n' + SUM % rg, W=16, outs=('o0', 'o1', 'o2'))
add('range_signed', 'o1.value = 0\n' + SUM % 'a, b', W=16, iw=S8)
add('range_signed3', 'o1.value = 0\n' + SUM % 'a, b, 2', W=16, iw=S8)
add('range_signed_down', 'o1.value = 0\n' + SUM % 'a, b, -2', W=16, iw=S8)
add('range_dyn_step', 'o1.value = 0\nc = a - 2\nif c == 0:\n    c = 1\n' + SUM % '1, c * 3, c', W=16, iw=S8, pre=None, ins=('a',))
add('range_w32', 'o1.value = 0\n' + SUM % 'a, b', W=32)
add('range_const_end', 'for i in range(3):\n    o0.value = o0.value * 2 + a\no1.value = 1')
add('while1', 's = 0\nn = a\nwhile n > 0:\n    s += n\n    n -= 1\no0.value = s')
add('while_const', 's = 0\nwhile True:\n    s += 1\n    if s > a:\n        break\no0.value = s')
add('while_const1', 's = 0\nwhile 1:\n    if s == a + b:\n        break\n    s += 1\no0.value = s')
add('while_false', 's = 5\nwhile False:\n    s += 1\no0.value = s + a')
add('while_and', 's = 0\nn = 0\nwhile n < a and s < 4:\n    n += 1\n    s += b\no0.value = s\no1.value = n')
add('while_out', 'o0.value = 0\nwhile o0.value < a:\n    o0.value += 1\no1.value = o0.value')
add('while_call', 'n = 0\nwhile f(n) < a + b:\n    n += 1\no0.value = n', more='\ndef f(x):\n    return x * 2\n', start='_th.add_function(f)\n_fsm = _th.start(*_args)\n')
add('while_call2', 'n = 0\nwhile f(n, a) and n < 5:\n    if n == b:\n        n += 2\n        continue\n    n += 1\no0.value = n',
    more='\ndef f(x, y):\n    if x > y:\n        return 0\n    return 1\n', start='_th.add_function(f)\n_fsm = _th.start(*_args)\n')
add('while_cond_var', 'n = 0\nd = 0\nwhile not d:\n    n += 1\n    if n > a:\n        d = 1\no0.value = n')
add('for_list', 's = 0\nfor v in (a, b, 5):\n    s = s * 4 + v\no0.value = s\no1.value = v', W=16)
add('for_list2', 'l = 0\nfor v in [3, a, 1, b]:\n    l = l * 4 + v\n    if v == 0:\n        break\no0.value = l', W=16)
add('for_list_const', 's = 0\nfor v in (4, 2, 9):\n    s = s * 3 + v + a\no0.value = s', W=16)
add('for_list_expr', 's = 0\nfor v in (a + b, a - b, a * 2):\n    s = s * 5 + v\no0.value = s', W=16)
add('for_list_signed', 's = 0\nx = a\ny = b\nfor v in (x >> 1, y - 1, x + y, -x):\n    s = s * 3 + v\no0.value = s', W=16, iw=S8)
add('for_list_signed_if', 's = 0\nx = a\ny = b\nfor v in (x >> 1, y):\n    if v < 0:\n        s += 1\n    s = s * 2\no0.value = s', W=16, iw=S8)
add('for_list_cont', 's = 0\nfor v in (a, b, 2, 3):\n    if v == 2:\n        continue\n    s = s * 4 + v\no0.value = s', W=16)
add('for_list_one', 's = 0\nfor v in (a,):\n    s = s * 4 + v\no0.value = s + b', W=16)
add('for_list_nest', 's = 0\nfor v in (a, 1):\n    for w in (b, 2, 3):\n        s = s * 3 + v * w\no0.value = s', W=16)
add('nested', 's = 0\nfor i in range(a):\n    for j in range(b):\n        s = s * 2 + i + j\no0.value = s', W=24)
add('nested_dep', 's = 0\nfor i in range(a):\n    for j in range(i, b + 1):\n        s = s * 2 + j - i\no0.value = s', W=24)
add('nested_while', 's = 0\ni = 0\nwhile i < a:\n    j = 0\n    while j < b:\n        s += 1\n        j += 1\n    i += 1\no0.value = s\no1.value = i')
add('nested3', 's = 0\nfor i in range(2):\n    for j in range(a):\n        for k in range(2):\n            s = s * 2 + k\n    s += b\no0.value = s', W=24, iw={'a': (2, False), 'b': (2, False)})
add('seq_loops', 's = 0\nfor i in range(a):\n    s += 1\nfor i in range(b):\n    s = s * 2\nwhile s > 3:\n    s -= 3\no0.value = s')
add('same_var', 's = 0\nfor i in range(a):\n    s += i\nfor i in range(2, 2 + b):\n    s = s * 2 + i\no0.value = s', W=16)
add('loop_in_if', 's = 0\nif a > b:\n    for i in range(a):\n        s += 2\nelse:\n    while s < b:\n        s += 1\no0.value = s')
add('early_return', 'for i in range(4):\n    if i == a:\n        return\n    o0.value = o0.value + 1\no0.value = 100')
add('break_else_path', 's = 0\nfor i in range(4):\n    if i == a:\n        s += 1\n    elif i == b:\n        break\n    else:\n        s += 10\no0.value = s')
add('cont_then_break', 's = 0\nfor i in range(5):\n    if i == a:\n        continue\n    if i > b:\n        break\n    s = s * 4 + i\no0.value = s', W=16)
add('break_dead_code', 's = 0\nfor i in range(3):\n    s += 1\n    if a:\n        s += 4\n        break\n        s += 100\n    s += 2\no0.value = s')
add('cont_dead_code', 's = 0\nfor i in range(3):\n    s += 1\n    if i == a:\n        s += 4\n        continue\n        s += 100\n    s += 2\no0.value = s')
add('break_top', 's = a\nwhile s < 10:\n    s += 3\n    break\no0.value = s')
add('cont_top', 's = a\nwhile s < 10:\n    s += 3\n    continue\no0.value = s')
add('print_loop', 'for i in range(a):\n    print("i", i)\n    if i == b:\n        print("hit")\no0.value = 1')
add('ret_in_loop_fn', 'o0.value = f(a, b)\no1.value = f(b, 2)', more='\ndef f(p, q):\n    for i in range(4):\n        if i * q >= p:\n            return i\n    return 9\n',
    start='_th.add_function(f)\n_fsm = _th.start(*_args)\n')
add('fn_in_loop', 's = 0\nfor i in range(3):\n    s += f(i, a)\no0.value = s\no1.value = b', more='\ndef f(p, q):\n    r = 0\n    while r < q:\n        if r == p:\n            break\n        r += 1\n    return r\n',
    start='_th.add_function(f)\n_fsm = _th.start(*_args)\n')
add('else_for', 's = 0\nfor i in range(3):\n    if i == a:\n        break\n    s += 1\nelse:\n    s += 10\no0.value = s + b')
add('else_while', 's = 0\nwhile s < b:\n    s += 1\n    if s == a:\n        break\nelse:\n    s += 10\no0.value = s')
add('else_list', 's = 0\nfor v in (a, 2, b):\n    if v == 3:\n        continue\n    s += 1\n    if v == 1:\n        break\nelse:\n    s += 10\no0.value = s')
add('else_nested', 's = 0\nfor i in range(3):\n    for j in range(2):\n        if i + j == a:\n            break\n        s += 1\n    else:\n        s += 10\n        if i == b:\n'
    '            break\n        continue\n    s += 30\nelse:\n    s += 100\no0.value = s', W=16)
# findings: values Python reads once and the state machine re-reads
add('kf_bound_changes', 'n = 3\ns = 0\nfor i in range(n):\n    if i == 0:\n        n = a\n    s += 1\no0.value = s')
add('kf_var_after', 's = 0\nfor i in range(3):\n    s += 1\no0.value = i + a')
add('kf_var_assigned', 's = 0\nfor i in range(4):\n    s += 1\n    i = a\n    if s > 6:\n        break\no0.value = s')
add('kf_list_changes', 'x = a\ns = 0\nfor v in (1, x):\n    s += v\n    x = b\no0.value = s')


# systematic: outer loop x jump x placement relative to an inner loop x inner loop with its own jump
def loop(kind, var, n, ind):
    p = '    ' * ind
    if kind == 'for':
        return ['%sfor %s in range(%s):' % (p, var, n)], []
    if kind == 'list':
        return ['%sfor %s in (0, 1, 2):' % (p, var)], []
    return ['%s%s = -1' % (p, var), '%swhile %s < %s - 1:' % (p, var, n), '%s    %s += 1' % (p, var)], []


def jump(j, cond, ind, deep):
    p = '    ' * ind
    if j is None:
        return []
    if deep:
        return ['%sif %s:' % (p, cond), '%s    t = t * 2 + 1' % p, '%s    if b != 3:' % p, '%s        %s' % (p, j), '%s    t += 5' % p]
    return ['%sif %s:' % (p, cond), '%s    %s' % (p, j)]


n = 0
for ok, ik in itertools.product(('for', 'while', 'list'), ('for', 'while', 'list')):
    for j1, j2, j3 in itertools.product((None, 'break', 'continue', 'return'), repeat=3):
        if (j1, j2, j3).count(None) > 1 and (ok, ik) != ('for', 'while'):
            continue
        n += 1
        deep = n % 3 == 0
        L = ['t = 1']
        L += loop(ok, 'i', '3', 0)[0]
        L += ['    t = t * 2 + i']
        L += jump(j1, 'i == a', 1, deep)
        L += loop(ik, 'j', '3', 1)[0]
        L += ['        t = t * 2 + j']
        L += jump(j2, 'j == b', 2, deep)
        L += ['        t += 1', '    t += 2']
        L += jump(j3, 'i + 1 == b', 1, False)
        L += ['    t += 3', '    o1.value = t', 'o0.value = t']
        add('jump_%s_%s_%s_%s_%s' % (ok, ik, j1, j2, j3), '\n'.join(L), W=32, tier='quick' if n % 2 or (ok, ik) == ('for', 'while') else 'thorough', steps=400)
for i in range(100):
    p = Prog(Gen(5000 + i, loops=True).prog(5 if i % 3 else 8), ins=('a', 'b', 'n'), W=12, iw={'a': (3, True), 'b': (3, True), 'n': (2, False)})
    R.add('gen%d' % i, scenario(p, maxsteps=600), tier='quick' if i < 25 else 'thorough', bounds='all argument values (3/3/2 bits), generated program %d' % i)

"""Thread function calls bind arguments, scopes and results as Python does."""
from vlib.harness import Registry
from checks.thlib import Prog, scenario
from checks.thgen import Gen

R = Registry('C13', 'model_checking', ['thread/compiler.py', 'thread/scope.py', 'thread/thread.py', 'fsm/fsm.py'],
             assumptions=['a function returns an integer on every path it is used on', 'no recursion (not synthesisable)', 'operands of comparisons fit the register width',
                          'arguments of and/or/conditional expressions have no side effects'],
             explanation='Library and generated programs with calls; the generated state machine and CPython on symbolic integers must agree on every path.')


def add(name, body, more, fns=('f',), pre=None, tier='quick', steps=300, implicit=False, **kw):
    kw.setdefault('iw', {})
    src = 'def prog(%s):\n' % ', '.join(kw.get('ins', ('a', 'b'))) + '\n'.join('    ' + l for l in body.strip('\n').split('\n')) + '\n\n' + more
    st = ''.join('_th.add_function(%s)\n' % f for f in fns) + '_fsm = _th.start(*_args)\n'
    if implicit:
        # functions found among the locals of the caller
        st = 'def _go(%s):\n    return _th.start(*_args)\n_fsm = _go(%s)\n' % (', '.join(fns), ', '.join(fns))
    kw.setdefault('start', st)
    p = Prog(src, **kw)
    R.add(name, scenario(p, maxsteps=steps, pre=pre), tier=tier, bounds='all argument values (%s), program "%s"' % (
        ', '.join('%s: %d bits' % (n, p.iwid(n)[0]) for n in p.ins), name))


F = 'def f(x, y):\n    return x - y * 2\n'
add('pos', 'o0.value = f(a, b)\no1.value = f(b, 3)', F)
add('kw', 'o0.value = f(y=a, x=b)\no1.value = f(b, y=a)', F)
add('kw_order', 'o0.value = f(y=a + 1, x=b - a)', F)
D = 'def f(x, y=5, z=-2):\n    return x * 4 + y * 2 - z\n'
add('default', 'o0.value = f(a)\no1.value = f(a, b)', D)
add('default2', 'o0.value = f(a, z=b)\no1.value = f(z=a, x=b)', D)
add('default3', 'o0.value = f(a, b, a)\no1.value = f(1, 2, z=3) + f(4, z=5)', D)
add('default_expr', 'o0.value = f(a)', 'def f(x, y=3 + 4, z=(2 * 5)):\n    return x + y - z\n')
add('default_again', 'o0.value = f(a) + f(b, 1) * f(b)', 'def f(x, y=2):\n    y += x\n    return y\n', lim=24, W=24)
add('vararg', 'o0.value = f(a, b, 3)\no1.value = f(b, 1, a)', 'def f(x, *r):\n    s = x\n    for v in r:\n        s = s * 2 + v\n    return s\n', W=16)
add('vararg_var', 'x = a + b\no0.value = f(1, x, b)\nx += 1\no1.value = f(x, 2, a)', 'def f(x, *r):\n    x += r[0] - r[1]\n    return x\n', W=16)
add('vararg_len', 'o0.value = f(a, b, 3) + f(a, 1, 2, b)', 'def f(x, *r):\n    return x + len(r)\n', W=16)
add('byvalue', 'x = a\no0.value = f(x)\no1.value = x', 'def f(x):\n    x += 3\n    x = x * 2\n    return x\n')
add('byvalue2', 'x = a\ny = f(x, x)\no0.value = y\no1.value = x - y', 'def f(p, q):\n    p += 1\n    q -= p\n    return p * 3 + q\n')
add('local_shadow', 's = 5\ny = f(a)\no0.value = s + y\no1.value = s', 'def f(x):\n    s = x * 3\n    s += 1\n    return s\n')
add('two_sites', 'x = f(a)\ny = f(b)\no0.value = x\no1.value = y - x', 'def f(x):\n    t = x + 1\n    return t * t\n')
add('two_in_expr', 'o0.value = f(a) - f(b)\no1.value = f(a) * f(1) + f(2)', 'def f(x):\n    t = x + 1\n    return t * 2\n')
add('nested_arg', 'o0.value = f(f(a, 1), f(b, f(2, a)))', F, W=16)
add('nested_call', 'o0.value = f(a)\no1.value = g(b)', 'def f(x):\n    y = g(x + 1)\n    x = x + g(y)\n    return x - y\n\ndef g(x):\n    y = x * 2\n    return y + 1\n', fns=('f', 'g'), W=16)
add('nested3', 'o0.value = f(a) + b', 'def f(x):\n    return g(x) + g(x + 1)\n\ndef g(x):\n    return h(x) * 2 + h(1)\n\ndef h(x):\n    if x > 3:\n        return x - 3\n    return -x\n', fns=('f', 'g', 'h'))
RET = 'def f(x, y):\n    if x > y:\n        return 1\n    elif x == y:\n        return 2\n    return 3\n'
add('early_if', 'o0.value = f(a, b)\no1.value = f(b, 2)', RET)
add('early_else', 'o0.value = f(a, b)', 'def f(x, y):\n    if x > y:\n        return x - y\n    else:\n        x += 1\n    x = x * 2\n    if x < 0:\n        return x\n    return y\n')
add('early_both', 'o0.value = f(a, b) + 1', 'def f(x, y):\n    if x > y:\n        return x\n    else:\n        return y\n')
add('early_deep', 'o0.value = f(a, b)\no1.value = 7', 'def f(x, y):\n    if x > 0:\n        if y > 0:\n            if x > y:\n                return 1\n            x = 4\n        else:\n            return 2\n        y = x\n    return x + y\n')
add('early_dead', 'o0.value = f(a)', 'def f(x):\n    if x:\n        return 5\n        x = 100\n    x += 2\n    return x\n    x = 3\n    return 9\n')
add('early_loop', 'o0.value = f(a, b)\no1.value = f(2, a)', 'def f(x, y):\n    for i in range(4):\n        if i == x:\n            return i * 2 + y\n    return -1\n', iw={'a': 3})
add('early_loop2', 'o0.value = f(a, b)', 'def f(x, y):\n    for i in range(3):\n        for j in range(3):\n            if i * 3 + j == x:\n                return i - j\n            if j == y:\n                break\n        y += 1\n    return 10\n', iw={'a': (3, False), 'b': (2, False)})
add('early_while', 'o0.value = f(a) + b', 'def f(x):\n    n = 0\n    while True:\n        n += 1\n        if n > x:\n            return n\n        if n == 3:\n            break\n    return 20\n', iw={'a': 4})
add('return_call', 'o0.value = f(a, b)', 'def f(x, y):\n    if x > y:\n        return g(x)\n    return g(y) - g(x)\n\ndef g(v):\n    if v == 0:\n        return 7\n    return v * 2\n', fns=('f', 'g'), W=12)
add('return_none', 'f(a)\no0.value = b', 'def f(x):\n    if x > 3:\n        return\n    x = 1\n')
add('no_return', 'x = f(a)\no0.value = b', 'def f(x):\n    o1.value = x + 1\n')
add('side_effects', 'o1.value = 1\nx = f(a) + f(b)\no0.value = x', 'def f(x):\n    o1.value = o1.value * 3 + x\n    return o1.value\n', W=16)
add('side_order', 'o1.value = 1\nx = g(f(a), f(b))\no0.value = x', 'def f(x):\n    o1.value = o1.value * 3 + x\n    return x + 1\n\ndef g(p, q):\n    o1.value = o1.value * 2 + p\n    return p - q\n', fns=('f', 'g'), W=16)
add('call_stmt', 'f(a)\nf(b)\no0.value = 3', 'def f(x):\n    o1.value += x\n')
add('call_in_if', 'if f(a):\n    o0.value = 1\nelif f(b):\n    o0.value = 2\nelse:\n    o0.value = 3', 'def f(x):\n    if x > 3:\n        return 1\n    return 0\n')
add('call_in_cmp', 'if f(a) > f(b) + 1:\n    o0.value = f(1)\nelse:\n    o0.value = f(2)', 'def f(x):\n    return x * 2 - 1\n')
add('call_in_ret_arith', 'o0.value = 1 + f(a) * 2 - f(b)', 'def f(x):\n    return x + 1\n', W=12)
add('call_in_aug', 'x = a\nx += f(x)\nx -= f(b)\no0.value = x', 'def f(x):\n    x = x * 2\n    return x + 1\n', W=12)
add('call_in_tuple', 'x, y = f(a), f(b)\nx, y = f(y), x\no0.value = x\no1.value = y', 'def f(x):\n    return x * 2 + 1\n', W=12)
add('call_in_ifexp', 'o0.value = f(a) if a > b else f(b)', 'def f(x):\n    return x * 2 + 1\n', W=12)
add('call_in_range', 's = 0\nfor i in range(f(a)):\n    s += i\no0.value = s + b', 'def f(x):\n    return x + 1\n', iw={'a': (2, False)})
add('call_in_loop', 's = 0\nfor i in range(3):\n    s = s * 2 + f(i, a)\no0.value = s + b', F, W=16, iw={'a': 3})
add('call_in_print', 'print("v", f(a), b)\no0.value = 1', 'def f(x):\n    return x + 1\n', W=12)
add('call_unary', 'o0.value = -f(a)\no1.value = ~f(b) + (not f(a))', 'def f(x):\n    return x + 1\n', W=12)
add('implicit', 'o0.value = f(a) + g(b)', 'def f(x):\n    return g(x) + 1\n\ndef g(x):\n    return x * 2\n', fns=('f', 'g'), implicit=True, W=12)
add('param_reassign', 'o0.value = f(a, b)', 'def f(x, y):\n    x, y = y, x\n    if x > y:\n        x = y\n    y = x + 1\n    return x * y\n', W=16, lim=16, iw={'a': 6, 'b': 6})
add('same_names', 'x = a\ny = b\ny = f(y, x)\no0.value = x\no1.value = y', 'def f(x, y):\n    t = x\n    x = y\n    y = t * 2\n    return x - y\n', W=12)
add('ret_var_alias', 'x = f(a)\ny = f(b)\nz = x\nx = f(3)\no0.value = z - y\no1.value = x', 'def f(v):\n    r = v + 2\n    return r\n')
add('ret_held', 'x = f(a) + 0\nf(b)\no0.value = x', 'def f(v):\n    return v + 2\n')
add('ret_const', 'o0.value = f(a)\no1.value = f(0) + b', 'def f(v):\n    if v:\n        return 3\n    return -4\n')
add('ret_cmp', 'o0.value = f(a, b)\nif f(b, 3):\n    o1.value = 5', 'def f(v, w):\n    return v > w\n')
add('ret_bool', 'o0.value = f(a, b)', 'def f(v, w):\n    if v > w and w > 0:\n        return True\n    return False\n')
add('many_args', 'o0.value = f(a, b, 1, a + b, -1)', 'def f(p, q, r, s, t):\n    return p + q * 2 + r * 4 + s * 8 + t * 16\n', W=16)
add('global_const', 'o0.value = a + K\no1.value = f(b)', 'K = 9\n\ndef f(x):\n    return x * K\n', W=12)
add('if_call_dead', 'o0.value = f(a)\n', 'def f(x):\n    if x > 2:\n        o1.value = 3\n        return 1\n    o1.value = 4\n    return 2\n')
add('loop_ret_skip', 's = 0\nwhile s < 6:\n    s += f(s, a)\no0.value = s + b', 'def f(p, q):\n    if p == q:\n        return 3\n    for i in range(2):\n        if p == i:\n            return 2\n    return 1\n', iw={'a': 3})

# methods
M = '''
class Acc(object):
    def __init__(self, k):
        self.k = k
        self.t = (3, 4)

    def scale(self, x, y=2):
        return x * self.k + y

    def twice(self, x):
        r = self.scale(x, 1)
        return self.scale(r)

    @property
    def base(self):
        return self.k + 1

acc = Acc(3)
acc2 = Acc(-1)
'''
add('method', 'o0.value = acc.scale(a)\no1.value = acc.scale(a, b)', M, fns=(), W=12)
add('method_kw', 'o0.value = acc.scale(y=a, x=b)\no1.value = acc2.scale(b) - acc.scale(1)', M, fns=(), W=12)
add('method_nested', 'o0.value = acc.twice(a)\no1.value = acc2.twice(b)', M, fns=(), W=16)
add('attr', 'o0.value = a + acc.k\no1.value = acc2.t[1] * b + acc.base', M, fns=(), W=12)
add('method_attr_arg', 'o0.value = f(acc, a)\no1.value = f(acc2, b)', M + '\ndef f(o, x):\n    return o.scale(x) + o.k\n', W=12)

HELP = '''
def f0(p, q=3):
    if p > q:
        return p - q
    return q

def f1(p, q=-1):
    s = p
    if p == q:
        s += 2
    elif p < q:
        return g0(s, q)
    s ^= q
    return s

def g0(p, q):
    x0 = p + q
    o1.value += 3
    return x0
'''
for i in range(120):
    src = Gen(9000 + i, calls=['f0', 'f1', 'g0']).prog(6 if i % 3 else 9) + HELP.replace('g0(p, q)', 'g0(p, q=7)')
    p = Prog(src, W=12, start='for _f in (f0, f1, g0):\n    _th.add_function(_f)\n_fsm = _th.start(*_args)\n', iw={'a': 8, 'b': 8})
    R.add('gen%d' % i, scenario(p, maxsteps=400), tier='quick' if i < 30 else 'thorough', bounds='all 8-bit argument values, generated program %d' % i)
for i in range(60):
    src = Gen(12000 + i, calls=['f0', 'f1', 'g0'], loops=True).prog(5) + HELP.replace('g0(p, q)', 'g0(p, q=7)')
    p = Prog(src, ins=('a', 'b', 'n'), W=12, start='for _f in (f0, f1, g0):\n    _th.add_function(_f)\n_fsm = _th.start(*_args)\n', iw={'a': 3, 'b': 3, 'n': (2, False)})
    R.add('genl%d' % i, scenario(p, maxsteps=600), tier='quick' if i < 12 else 'thorough', bounds='all argument values (3/3/2 bits), generated program %d' % i)

"""Threads start, run concurrently, join and return results correctly."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from checks.conc import conc

R = Registry('C15', 'model_checking', ['thread/thread.py', 'thread/pool.py', 'thread/compiler.py', 'thread/ttypes.py', 'fsm/fsm.py'],
             assumptions=['a thread is run again only after it was joined and reset (as the examples do)', 'one thread object is started by one parent at a time'],
             explanation='Parent and child threads with a fresh symbolic stall input per cycle: every schedule inside the bound is covered by one query; '
                         'results, number of executions and ordering are compared with sequential execution.')

I2 = {'s0': 1, 's1': 1}
A2 = {'a': (8, True), 'b': (8, True)}
TH = '\nth = vthread.Thread(m, "main", CLK, RST, main, datawidth=8)\nth.start(a, b)\n'
SUB = 'th_sub = vthread.Thread(m, "sub", CLK, RST, sub, datawidth=8%s)\n'
OUTS = {'o0': 8, 'o1': 8, 'o2': 8, 'd0': 8, 'd1': 8, 'cnt': 8, 'cnt1': 8, 'fin': 1}


def k(n):
    return const(n, 8)


def add(name, src, exp, inv=(), free=9, drain=24, ins=None, more='', tier='quick', sub=SUB % '', args=None, thsrc=TH, quiet=None, **kw):
    """exp: {output: fn(args)} after the drain"""
    outs = {o: w for o, w in OUTS.items() if o in src}
    fin = [('finished', lambda h, a, st: h.get('fin').eq(1))]
    for o, fn in exp.items():
        fin.append((o, lambda h, a, st, o=o, fn=fn: h.get(o).eq(fn(a['a'], a['b']))))
    iv = [(n, lambda h, a, st, fn=fn: fn(h, a['a'], a['b'])) for n, fn in inv]
    used = {n: w for n, w in (ins or I2).items() if n in src}
    R.add(name, conc(src + sub + more + thsrc, used, args or A2, outs, free=free, drain=drain, inv=iv, final=fin, quiet=quiet, **kw), tier=tier,
          bounds='all arguments, all stall patterns over %d free cycles' % free)


def done_only_after(reg, fn, flag='fin'):
    return ('no completion before the child finished', lambda h, a, b: t.implies(h.get(flag).eq(1), h.get(reg).eq(fn(a, b))))


BODY = '''
def sub(x, y):
    cnt.value += 1
    while s0:
        pass
    d0.value = x * 2 + y
    return x - y
def main(p, q):
%s
    fin.value = 1
'''


def body(s):
    return BODY % '\n'.join('    ' + l for l in s.strip('\n').split('\n'))


EX = {'o0': lambda a, b: a - b, 'o1': lambda a, b: a * 2 + b, 'cnt': lambda a, b: k(1)}
INV = [done_only_after('d0', lambda a, b: a * 2 + b), ('one execution at most', lambda h, a, b: h.get('cnt').ule(1))]
add('run_join_ret', body('th_sub.run(p, q)\nwhile s1:\n    pass\nth_sub.join()\no0.value = th_sub.ret()\no1.value = d0'), EX, INV)
add('run_join_ret_mod', body('th_sub.run(p, q)\nwhile s1:\n    pass\nth_sub.join()\no0.value = th_sub.ret()\no1.value = d0'), EX, INV,
    sub=SUB % ', fsm_as_module=True')
add('run_const', body('th_sub.run(5, q)\nth_sub.join()\no0.value = th_sub.ret()\no1.value = d0'),
    {'o0': lambda a, b: k(5) - b, 'o1': lambda a, b: k(10) + b, 'cnt': lambda a, b: k(1)})
add('run_args_later_changed', body('r = p\nth_sub.run(r, q)\nr = 77\nwhile s1:\n    pass\nth_sub.join()\no0.value = th_sub.ret()\no1.value = d0'), EX, INV)
add('run_kw', body('th_sub.run(y=q, x=p)\nth_sub.join()\no0.value = th_sub.ret()\no1.value = d0'), EX, INV)
add('run_kw_mixed', body('th_sub.run(p, y=q)\nth_sub.join()\no0.value = th_sub.ret()\no1.value = d0'), EX, INV)
DEF = body('th_sub.run(p)\nth_sub.join()\no0.value = th_sub.ret()\nth_sub.reset()\nth_sub.run(p, q)\nth_sub.join()\no1.value = th_sub.ret()\no2.value = d0')
add('run_default', DEF.replace('def sub(x, y)', 'def sub(x, y=3)'), {'o0': lambda a, b: a - 3, 'o1': lambda a, b: a - b, 'o2': lambda a, b: a * 2 + b,
                                                                  'cnt': lambda a, b: k(2)}, drain=34)
add('run_default_kw', DEF.replace('def sub(x, y)', 'def sub(x, y=3)').replace('p, q)\nth', 'p, y=q)\nth').replace('run(p, q)', 'run(p, y=q)'),
    {'o0': lambda a, b: a - 3, 'o1': lambda a, b: a - b, 'o2': lambda a, b: a * 2 + b, 'cnt': lambda a, b: k(2)}, drain=34)
RE = {'o0': lambda a, b: a - b, 'o1': lambda a, b: b - a, 'o2': lambda a, b: b * 2 + a, 'cnt': lambda a, b: k(2)}
add('rerun_sep', body('th_sub.run(p, q)\nth_sub.join()\no0.value = th_sub.ret()\nth_sub.reset()\nr = q\nth_sub.run(r, p)\nth_sub.join()\no1.value = th_sub.ret()\n'
                      'o2.value = d0'), RE, drain=34)
add('rerun_direct', body('th_sub.run(p, q)\nth_sub.join()\no0.value = th_sub.ret()\nth_sub.reset()\nth_sub.run(q, p)\nth_sub.join()\no1.value = th_sub.ret()\n'
                         'o2.value = d0'), RE, drain=34)
add('rerun_reset_after_join', body('th_sub.run(p, q)\nth_sub.join()\nth_sub.reset()\no0.value = th_sub.ret()\nth_sub.run(q, p)\nth_sub.join()\nth_sub.reset()\n'
                                   'o1.value = th_sub.ret()\no2.value = d0'), RE, drain=34)
add('rerun_loop', body('r = 0\nfor i in range(3):\n    th_sub.run(p, i)\n    th_sub.join()\n    r = r * 2 + th_sub.ret()\n    th_sub.reset()\no0.value = r\no1.value = d0'),
    {'o0': lambda a, b: (a * 2 + (a - 1)) * 2 + (a - 2), 'o1': lambda a, b: a * 2 + 2, 'cnt': lambda a, b: k(3)}, free=9, drain=60)
add('rerun_if', body('if p > q:\n    th_sub.run(p, q)\nelse:\n    th_sub.run(q, p)\nth_sub.join()\no0.value = th_sub.ret()\no1.value = d0'),
    {'o0': lambda a, b: ite(a.sgt(b), a - b, b - a), 'o1': lambda a, b: ite(a.sgt(b), a * 2 + b, b * 2 + a), 'cnt': lambda a, b: k(1)})
add('done_poll', body('th_sub.run(p, q)\nn = 0\nwhile not th_sub.done():\n    n += 1\no0.value = th_sub.ret()\no1.value = d0'), EX, INV, drain=26)
add('join_twice', body('th_sub.run(p, q)\nth_sub.join()\nth_sub.join()\no0.value = th_sub.ret()\no1.value = d0'), EX, INV)
add('ret_branches', body('th_sub.run(p, q)\nth_sub.join()\no0.value = th_sub.ret()\no1.value = d0').replace(
    'return x - y', 'if x > y:\n        return x\n    for i in range(2):\n        if i == y:\n            return 50\n    return y'),
    {'o0': lambda a, b: ite(a.sgt(b), a, ite(t.or_(b.eq(0), b.eq(1)), k(50), b)), 'o1': lambda a, b: a * 2 + b, 'cnt': lambda a, b: k(1)}, drain=34)
add('no_args', 'def sub():\n    cnt.value += 1\n    while s0:\n        pass\n    return 7\ndef main(p, q):\n    th_sub.run()\n    while s1:\n        pass\n    th_sub.join()\n'
    '    o0.value = th_sub.ret() + p\n    fin.value = 1\n', {'o0': lambda a, b: a + 7, 'cnt': lambda a, b: k(1)})
add('signal_ref', 'def sub(x):\n    cnt.value += 1\n    while s0:\n        pass\n    d0.value = x\n    return x + 1\ndef main(p, q):\n    th_sub.run(b)\n    th_sub.join()\n'
    '    o0.value = th_sub.ret()\n    fin.value = 1\n', {'o0': lambda a, b: b + 1, 'd0': lambda a, b: b, 'cnt': lambda a, b: k(1)})
TWO = '''
def sub(x, y):
    cnt.value += 1
    while s0:
        pass
    d0.value = x * 2 + y
    return x - y
def sub1(x):
    cnt1.value += 1
    z = x
    while s1:
        z = x + 1
    d1.value = z
    return x + x + 1
def main(p, q):
%s
    fin.value = 1
'''
SUB1 = 'th_sub1 = vthread.Thread(m, "sub1", CLK, RST, sub1, datawidth=8)\n'
EX2 = {'o0': lambda a, b: a - b, 'o1': lambda a, b: b * 2 + 1, 'o2': lambda a, b: a * 2 + b, 'cnt': lambda a, b: k(1), 'cnt1': lambda a, b: k(1)}
add('two_children', TWO % '    th_sub.run(p, q)\n    th_sub1.run(q)\n    th_sub.join()\n    th_sub1.join()\n    o0.value = th_sub.ret()\n    o1.value = th_sub1.ret()\n    o2.value = d0',
    EX2, [done_only_after('d0', lambda a, b: a * 2 + b), ('the children finish before', lambda h, a, b: t.implies(h.get('fin').eq(1), t.or_(h.get('d1').eq(b), h.get('d1').eq(b + 1))))],
    sub=SUB % '' + SUB1)
add('two_children_rev', TWO % '    th_sub.run(p, q)\n    th_sub1.run(q)\n    th_sub1.join()\n    o1.value = th_sub1.ret()\n    th_sub.join()\n    o0.value = th_sub.ret()\n    o2.value = d0',
    EX2, [done_only_after('d0', lambda a, b: a * 2 + b)], sub=SUB % '' + SUB1)
add('concurrent', TWO % '    th_sub.run(p, q)\n    th_sub1.run(q)\n    th_sub1.join()\n    o1.value = th_sub1.ret()\n    th_sub.join()\n    o0.value = th_sub.ret()\n    o2.value = d0',
    {'cnt1': lambda a, b: k(1), 'd1': lambda a, b: b}, sub=SUB % '' + SUB1, quiet={'s0': 0}, free=0)
add('chain', '''
def sub1(x):
    cnt1.value += 1
    while s1:
        pass
    return x + 3
def sub(x, y):
    cnt.value += 1
    th_sub1.run(x)
    while s0:
        pass
    d0.value = x * 2 + y
    th_sub1.join()
    return th_sub1.ret() - y
def main(p, q):
    th_sub.run(p, q)
    th_sub.join()
    o0.value = th_sub.ret()
    o1.value = d0
    fin.value = 1
''', {'o0': lambda a, b: a + 3 - b, 'o1': lambda a, b: a * 2 + b, 'cnt': lambda a, b: k(1), 'cnt1': lambda a, b: k(1)}, INV, sub=SUB % '' + SUB1)
add('chain_rerun', '''
def sub1(x):
    cnt1.value += 1
    while s1:
        pass
    return x + 3
def sub(x, y):
    cnt.value += 1
    th_sub1.run(x)
    while s0:
        pass
    th_sub1.join()
    r = th_sub1.ret()
    th_sub1.reset()
    return r - y
def main(p, q):
    th_sub.run(p, q)
    th_sub.join()
    o0.value = th_sub.ret()
    th_sub.reset()
    th_sub.run(q, p)
    th_sub.join()
    o1.value = th_sub.ret()
    fin.value = 1
''', {'o0': lambda a, b: a + 3 - b, 'o1': lambda a, b: b + 3 - a, 'cnt': lambda a, b: k(2), 'cnt1': lambda a, b: k(2)}, sub=SUB % '' + SUB1, free=8, drain=44)
# ---------------------------------------------------------------- pools
POOL = 'pool = vthread.ThreadPool(m, "pl", CLK, RST, sub, %d, datawidth=8)\n'
PSUB = '''
def sub(tid, x):
    while st[tid]:
        pass
    dv.value[tid] = 1
    return x + tid + 1
'''
PB = '''
dv = m.Reg("dv", 4, initval=0)
dvseq = vg.Seq(m, "dvs", CLK, RST)
'''


def power_on(c, h):
    """the start bits of a pool are only reset at a variable index (known finding), so they are taken to be clear initially"""
    for r in ('_pl_start', '_None_start', '_start'):
        try:
            v = h.get(r)
        except KeyError:
            continue
        c.assume(v.eq(0))


def padd(name, n, main, exp, inv=(), free=8, drain=40, tier='quick', sub=None, pool=None, **kw):
    kw.setdefault('before', power_on)
    src = (sub or '''
def sub(tid, x):
    while st[tid]:
        pass
    return x + tid + 1
''') + 'def main(p, q):\n' + '\n'.join('    ' + l for l in main.strip('\n').split('\n')) + '\n    fin.value = 1\n'
    add(name, src, exp, inv, free=free, drain=drain, ins={'st': n}, sub=pool or POOL % n, tier=tier, **kw)


def fin_needs(n):
    def f(h, a, b):
        return t.implies(h.get('fin').eq(1), t.and_(*[h.get('pl_%d' % i).ne(0) for i in range(n)]))
    return ('a member is still not started when the parent finished', f)


padd('pool2', 2, 'for tid in range(2):\n    pool.run(tid, tid, p)\nr = 0\nfor tid in range(2):\n    pool.join(tid)\n    r = r * 4 + pool.ret(tid)\no0.value = r',
     {'o0': lambda a, b: (a + 1) * 4 + a + 2})
padd('kf_pool_start', 2, 'for tid in range(2):\n    pool.run(tid, tid, p)\nr = 0\nfor tid in range(2):\n    pool.join(tid)\n    r = r * 4 + pool.ret(tid)\no0.value = r',
     {'o0': lambda a, b: (a + 1) * 4 + a + 2}, before=None)
padd('pool3_args', 3, 'for tid in range(3):\n    pool.run(tid, tid, p + tid)\nr = 0\nfor tid in range(3):\n    pool.join(tid)\n    r = r * 2 + pool.ret(tid)\no0.value = r',
     {'o0': lambda a, b: ((a + 1) * 2 + a + 3) * 2 + a + 5}, drain=60)
padd('pool_partial', 3, 'pool.run(1, 1, p)\npool.run(2, 2, q)\npool.join(1)\npool.join(2)\no0.value = pool.ret(1)\no1.value = pool.ret(2)',
     {'o0': lambda a, b: a + 2, 'o1': lambda a, b: b + 3}, [('member 0 never starts', lambda h, a, b: h.get('pl_0').eq(0))])
padd('pool_const', 2, 'pool.run(1, 1, p)\npool.run(0, 0, q)\npool.join(1)\no0.value = pool.ret(1)\npool.join(0)\no1.value = pool.ret(0)',
     {'o0': lambda a, b: a + 2, 'o1': lambda a, b: b + 1})
padd('pool_sel', 2, 'n = p & 1\npool.run(n, n, q)\npool.join(n)\no0.value = pool.ret(n)',
     {'o0': lambda a, b: b + 1 + (a & 1)}, [('the other member stays idle', lambda h, a, b: t.and_(t.implies((a & 1).eq(0), h.get('pl_1').eq(0)),
                                                                                             t.implies((a & 1).eq(1), h.get('pl_0').eq(0))))])
padd('pool_rerun', 2, 'r = 0\nfor i in range(2):\n    for tid in range(2):\n        pool.run(tid, tid, p + i)\n    for tid in range(2):\n        pool.join(tid)\n'
     '        r = r * 2 + pool.ret(tid)\n        pool.reset(tid)\no0.value = r',
     {'o0': lambda a, b: (((a + 1) * 2 + a + 2) * 2 + a + 2) * 2 + a + 3}, drain=90, free=6)
padd('pool_reset_direct', 2, 'pool.run(0, 0, p)\npool.join(0)\no0.value = pool.ret(0)\npool.reset(0)\npool.run(0, 0, q)\npool.join(0)\no1.value = pool.ret(0)',
     {'o0': lambda a, b: a + 1, 'o1': lambda a, b: b + 1}, drain=40)
padd('pool_done', 2, 'pool.run(0, 0, p)\npool.run(1, 1, q)\nwhile not pool.done(1):\n    pass\no0.value = pool.ret(1)\nwhile not pool.done(0):\n    pass\no1.value = pool.ret(0)',
     {'o0': lambda a, b: b + 2, 'o1': lambda a, b: a + 1})
padd('pool1', 1, 'pool.run(0, 0, p)\npool.join(0)\no0.value = pool.ret(0)', {'o0': lambda a, b: a + 1})
padd('pool_kw', 2, 'pool.run(1, x=p, n=1)\npool.join(1)\no0.value = pool.ret(1)', {'o0': lambda a, b: a + 2},
     sub='def sub(n, x):\n    while st[n]:\n        pass\n    return x + n + 1\n')
padd('pool_mod', 2, 'for tid in range(2):\n    pool.run(tid, tid, p)\nr = 0\nfor tid in range(2):\n    pool.join(tid)\n    r = r * 4 + pool.ret(tid)\no0.value = r',
     {'o0': lambda a, b: (a + 1) * 4 + a + 2}, pool='pool = vthread.ThreadPool(m, "pl", CLK, RST, sub, 2, datawidth=8, fsm_as_module=True)\n')
padd('to_pool', 2, 'for tid in range(2):\n    pool.run(tid, p, q)\nr = 0\nfor tid in range(2):\n    pool.join(tid)\n    r = r * 2 + pool.ret(tid)\no0.value = r',
     {'o0': lambda a, b: (a - b) * 2 + a + b}, sub='def f(x, y):\n    while st[0]:\n        pass\n    return x - y\ndef g(x, y):\n    while st[1]:\n        pass\n    return x + y\n',
     pool='th_f = vthread.Thread(m, "f", CLK, RST, f, datawidth=8)\nth_g = vthread.Thread(m, "g", CLK, RST, g, datawidth=8)\npool = vthread.to_thread_pool(th_f, th_g)\n')
padd('pool_join_order', 2, 'for tid in range(2):\n    pool.run(tid, tid, p)\npool.join(1)\nd0.value = 1\npool.join(0)\nd1.value = 1\no0.value = pool.ret(0) + pool.ret(1)',
     {'o0': lambda a, b: a + a + 3}, [('join(1) waits for member 1', lambda h, a, b: t.implies(h.get('d0').eq(1), h.get('e1').eq(1))),
                                      ('join(0) waits for member 0', lambda h, a, b: t.implies(h.get('d1').eq(1), h.get('e0').eq(1)))],
     sub='e0 = m.OutputReg("e0", initval=0)\ne1 = m.OutputReg("e1", initval=0)\ndef sub0(tid, x):\n    while st[0]:\n        pass\n    e0.value = 1\n    return x + 1\n'
     'def sub1(tid, x):\n    while st[1]:\n        pass\n    e1.value = 1\n    return x + 2\n',
     pool='pool = vthread.to_thread_pool([vthread.Thread(m, "t0", CLK, RST, sub0, datawidth=8), vthread.Thread(m, "t1", CLK, RST, sub1, datawidth=8)])\n')
# ---------------------------------------------- other ways to start threads
add('two_starts', 'def main(p, q):\n    while s0:\n        pass\n    o0.value = p + q\n    o1.value = o2\n    fin.value = 1\n'
    'def other(p):\n    while s1:\n        pass\n    o2.value = p * 3\n', {'o0': lambda a, b: a + b, 'o2': lambda a, b: b * 3}, sub='',
    more='tho = vthread.Thread(m, "other", CLK, RST, other, datawidth=8)\ntho.start(b)\n')
add('start_kw', 'def main(p, q):\n    while s0:\n        pass\n    o0.value = p - q\n    fin.value = 1\n', {'o0': lambda a, b: b - a}, sub='',
    thsrc='\nth = vthread.Thread(m, "main", CLK, RST, main, datawidth=8)\nth.start(q=a, p=b)\n')
add('extend', 'def main(p, q):\n    while s0:\n        pass\n    o0.value = p - q\ndef then(x):\n    while s1:\n        pass\n    o1.value = o0 + x\n    fin.value = 1\n',
    {'o0': lambda a, b: a - b, 'o1': lambda a, b: a}, sub='',
    thsrc='\nth = vthread.Thread(m, "main", CLK, RST, main, datawidth=8)\nf = th.start(a, b)\nth2 = vthread.Thread(m, "then", CLK, RST, then, datawidth=8)\nth2.extend(f, b)\n')
add('embed', '# fin o1\ndef work(x, y):\n    while s0:\n        pass\n    o0.value = x - y\n',
    {'o0': lambda a, b: a - b, 'o1': lambda a, b: a}, [('the state after the embedded thread is reached only when it is done', lambda h, a, b: t.implies(h.get('fin').eq(1), h.get('o0').eq(a - b)))],
    sub='', thsrc='\nf = vg.FSM(m, "f", CLK, RST)\nf(fin(0))\nf.goto_next()\nvthread.embed_thread(f, work, a, b)\nf(o1(o0 + b))\nf.goto_next()\nf(fin(1))\nf.make_always()\n',
    )
add('parallel', 'def main(p, q):\n    x = p\n    y = q\n    while s0:\n        pass\n    vthread.set_parallel()\n    x = y\n    y = x\n    o0.value = x\n    vthread.unset_parallel()\n'
    '    o1.value = x\n    o2.value = y\n    fin.value = 1\n', {'o0': lambda a, b: a, 'o1': lambda a, b: b, 'o2': lambda a, b: a}, sub='')
add('parallel_loop', 'def main(p, q):\n    x = p\n    y = q\n    for i in range(3):\n        vthread.set_parallel()\n        x = y\n        y = x + 1\n        vthread.unset_parallel()\n'
    '        while s0:\n            pass\n    o1.value = x\n    o2.value = y\n    fin.value = 1\n', {'o1': lambda a, b: b + 1, 'o2': lambda a, b: a + 2}, sub='', drain=40)
add('extend2', 'def main(p, q):\n    o0.value = p - q\ndef then(x, y=4):\n    while s1:\n        pass\n    o1.value = o0 + x + y\n    fin.value = 1\n',
    {'o0': lambda a, b: a - b, 'o1': lambda a, b: a + 4}, sub='',
    thsrc='\nth = vthread.Thread(m, "main", CLK, RST, main, datawidth=8)\nf = th.start(a, b)\nth2 = vthread.Thread(m, "then", CLK, RST, then, datawidth=8)\nth2.extend(f, b)\n')

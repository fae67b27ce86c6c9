"""C31: stream runs are repeatable and complete when joined."""
from vlib import term as t
from vlib.term import const, ite
from vlib.harness import Registry
from checks.tstrm import tstrm
from checks.c30 import body, stream, K, lin, COMP

R = Registry('C31', 'model_checking', ['thread/stream.py', 'stream/stream.py', 'stream/stypes.py', 'thread/ram.py', 'thread/fifo.py', 'types/ram.py', 'types/fifo.py', 'thread/compiler.py', 'seq/seq.py', 'fsm/fsm.py'],
             assumptions=['memories of 16 words, FIFOs of 4 to 16, all contents symbolic; runs of 2 to 5 elements, 2 to 4 consecutive runs',
                          'stall and FIFO patterns: every pattern over a window of 8 cycles placed at different phases of the run'],
             explanation='A thread runs a stream several times (joined, overlapped, re-parameterised, terminated early, fed by FIFOs, with substreams and in-stream '
                         'memory accesses); when it is done, and later, memories, FIFO outputs and registers are compared with the same runs executed one after another.')
RUN = 's.run()\ns.join()\n'
R1 = {'rc': (8, 4)}
R2 = {'ra': (8, 4), 'rc': (8, 4)}
R3 = {'ra': (8, 4), 'rb': (8, 4), 'rc': (8, 4)}
R4 = {'ra': (8, 4), 'rb': (8, 4), 'rc': (8, 4), 'rd': (8, 4)}
OO = {'oa': 4, 'oc': 4}
W6 = [range(4, 10), range(8, 14), range(12, 18)]
W8 = [range(4, 12), range(10, 18), range(16, 24)]


def add(name, src, rams, ref, args=None, tier='quick', **kw):
    st = kw.pop('stalls', ())
    R.add(name, tstrm(src, rams, ref, args, **kw), tier=tier, bounds='all memory contents and arguments')
    for i, w in enumerate(st):
        R.add('%s_st%d' % (name, i), tstrm(src, rams, ref, args, stall=w, **dict(dict(cycles=70), **dict(kw, autosplit=False))), tier=tier,
              bounds='all stall patterns over cycles %d-%d' % (w[0], w[-1]), timeout=600)


def rd(M, r, o, n, st=1):
    return [M[r].rd(K(o) + K(i * st)) for i in range(n)]


def wr(M, r, o, vals, st=1):
    for i, v in enumerate(vals):
        M[r].wr(K(o) + K(i * st), v)


def acc(l, x=None):
    r = []
    for v in l:
        x = v if x is None else x + v
        r.append(x)
    return r


CP = "a = s.source('a')\nb = a + 1\ns.sink(b, 'c')\n"
CPP = "a = s.source('a')\np = s.parameter('p')\nb = a + p\ns.sink(b, 'c')\n"
RED = "a = s.source('a')\nn = s.parameter('n')\nx, v = s.ReduceAddValid(a, n)\ns.sink(x, 'c', when=v, when_name='v')\n"
ACC = "a = s.source('a')\nx = s.ReduceAdd(a)\ns.sink(x, 'c')\n"
CNT = "a = s.source('a')\ni = s.Counter()\ns.sink(a + i, 'c')\n"


def cfg(oa, oc, n, m=None, p=None, pn=None):
    return ("s.set_source('a', ra, %s, %s)\n" % (oa, n) + ("s.set_parameter('%s', %s)\n" % (pn, p) if pn else '') + "s.set_sink('c', rc, %s, %s)\n" % (oc, m or n))


def seqref(*runs):
    def ref(M, a):
        for f in runs:
            f(M, a)
    return ref


def g(a, x):
    return a[x] if isinstance(x, str) else x


def cpr(oa, oc, n, p=1):
    return lambda M, a: wr(M, 'rc', g(a, oc), [x + g(a, p) for x in rd(M, 'ra', g(a, oa), n)])


def accr(oa, oc, n):
    return lambda M, a: wr(M, 'rc', g(a, oc), acc(rd(M, 'ra', g(a, oa), n)))


def redr(oa, oc, n, k):
    return lambda M, a: wr(M, 'rc', g(a, oc), [acc(rd(M, 'ra', K(g(a, oa)) + K(k * j), k))[-1] for j in range(n // k)])


def cntr(oa, oc, n):
    return lambda M, a: wr(M, 'rc', g(a, oc), [x + i for i, x in enumerate(rd(M, 'ra', g(a, oa), n))])


JOINS = {'join': 's.run()\ns.join()\n',
         'done': 's.run()\nwhile not s.done():\n    pass\n',
         'sj_join': 's.run()\ns.source_join()\ns.join()\n',
         'sj_kj': 's.run()\ns.source_join()\ns.sink_join()\ns.join()\n',
         'sd_kd': 's.run()\nwhile not s.source_done():\n    pass\nwhile not s.sink_done():\n    pass\ns.join()\n'}
# joins: a word written to the source right after the join is not seen by the run, the sink is complete when it is read
for nm, j in JOINS.items():
    add('j_' + nm, stream() + CP + body(cfg('oa', 'oc', 3) + j + "x = rc.read(oc + 2)\no.value = x\nrc.write(oc + 2, 77)\n"), R2,
        lambda M, a: [cpr('oa', 'oc', 3)(M, a), dict(o=M['rc'].rd(K(a['oc']) + K(2))), M['rc'].wr(K(a['oc']) + K(2), const(77, 8))][1], OO, outs={'o': 8})
add('source_join_free', stream() + CP + body(cfg('oa', 'oc', 3) + "s.run()\ns.source_join()\nfor i in range(3):\n    ra.write(oa + i, 0)\ns.join()\n"), R2,
    seqref(cpr('oa', 'oc', 3), lambda M, a: wr(M, 'ra', a['oa'], [const(0, 8)] * 3)), OO)
# consecutive runs
TL = {'cp': 4, 'cnt': 4, 'acc': 3}
NL = {'cp': 4, 'cnt': 4, 'acc': 2}
BODIES = {'cp': (CP, cpr), 'acc': (ACC, accr), 'cnt': (CNT, cntr)}
for nm, (b, r) in BODIES.items():
    for jn in ('join', 'sd_kd'):
        add('twice_%s_%s' % (nm, jn), stream() + b + body(cfg('oa', 'oc', 2) + JOINS[jn] + cfg('oc', 2, TL[nm]) + JOINS[jn].replace('join()\n', 'join()\n')), R2,
            seqref(r('oa', 'oc', 2), lambda M, a, r=r, nm=nm: r('oc', 2, TL[nm])(M, a)), OO)
    add('same_%s' % nm, stream() + b + body(cfg('oa', 'oc', 3) + "s.run()\ns.join()\nra.write(oa, 9)\ns.run()\ns.join()\n"), R2,
        seqref(r('oa', 'oc', 3), lambda M, a: M['ra'].wr(K(a['oa']), const(9, 8)), r('oa', 'oc', 3)), OO)
    add('loop_%s' % nm, stream() + b + body("for i in range(3):\n    s.set_source('a', ra, oa + i, 2)\n    s.set_sink('c', rc, oc + i * 2, 2)\n    s.run()\n    s.join()\n"), R2,
        lambda M, a, r=r: [r(K(a['oa']) + K(i), K(a['oc']) + K(2 * i), 2)(M, a) for i in range(3)], OO)
    add('loop_sj_%s' % nm, stream() + b + body("for i in range(3):\n    s.set_source('a', ra, oa + i, 3)\n    s.set_sink('c', rc, oc + i * 3, 3)\n    s.run()\n    s.source_join()\ns.join()\n"), R2,
        lambda M, a, r=r: [r(K(a['oa']) + K(i), K(a['oc']) + K(3 * i), 3)(M, a) for i in range(3)], OO)
    add('loop_sjr_%s' % nm, stream() + b + body("for i in range(%d):\n    s.set_source('a', ra, oa + i, 3)\n    s.set_sink('c', rc, oc + i * 3, 3)\n    s.source_join_and_run()\ns.join()\n" % NL[nm]), R2,
        lambda M, a, r=r, n=NL[nm]: [r(K(a['oa']) + K(i), K(a['oc']) + K(3 * i), 3)(M, a) for i in range(n)], OO)
    for n in (1, 2, 5):
        add('sjr_%d_%s' % (n, nm), stream() + b + body("s.set_source('a', ra, 3, %d)\ns.set_sink('c', rc, 2, %d)\ns.source_join_and_run()\ns.set_source('a', ra, 8, 2)\ns.set_sink('c', rc, 9, 2)\ns.source_join_and_run()\ns.join()\n" % (n, n)), R2,
            seqref(r(3, 2, n), r(8, 9, 2)), stalls=W8 if n == 2 else ())
    add('stall2_%s' % nm, stream() + b + body(cfg(3, 2, 2) + RUN + cfg(8, 9, 2) + RUN), R2, seqref(r(3, 2, 2), r(8, 9, 2)), stalls=[range(8, 16), range(14, 22), range(20, 28), range(26, 34)])
    add('len1_%s' % nm, stream() + b + body("for i in range(3):\n    s.set_source('a', ra, oa + i, 1)\n    s.set_sink('c', rc, oc + i * 3, 1)\n    s.run()\n    s.source_join()\ns.join()\n"), R2,
        lambda M, a, r=r: [r(K(a['oa']) + K(i), K(a['oc']) + K(3 * i), 1)(M, a) for i in range(3)], OO)
add('pipe_2threads', stream() + CP + "def other():\n    for i in range(4):\n        ra.write(i, i + 1)\nth2 = vthread.Thread(m, 'th2', CLK, RST, other)\n" +
    body("th2.run()\nth2.join()\n" + cfg(0, 'oc', 4) + "s.run()\nth2.run()\nth2.join()\ns.join()\n").replace('th.start()', 'th.start()'), dict(R2, ra=(8, 4, dict(numports=2))),
    lambda M, a: [wr(M, 'ra', 0, [const(i + 1, 8) for i in range(4)]), wr(M, 'rc', a['oc'], [const(i + 2, 8) for i in range(4)])], {'oc': 4})
# parameters
add('param_sym', stream() + CPP + body(cfg('oa', 'oc', 3, p='pv', pn='p') + RUN + cfg(1, 'oa', 2, p='pv + 1', pn='p') + RUN), R2,
    seqref(cpr('oa', 'oc', 3, 'pv'), lambda M, a: cpr(1, 'oa', 2, a['pv'] + 1)(M, a)), dict(OO, pv=8))
add('param_keep', stream() + CPP + body(cfg('oa', 'oc', 3, p='pv', pn='p') + RUN + cfg(1, 'oa', 2) + RUN), R2,
    seqref(cpr('oa', 'oc', 3, 'pv'), lambda M, a: cpr(1, 'oa', 2, a['pv'])(M, a)), dict(OO, pv=8))
add('param_join_then_change', stream() + CPP + body("for i in range(3):\n    s.set_source('a', ra, oa + i, 2)\n    s.set_parameter('p', pv + i)\n    s.set_sink('c', rc, oc + i * 2, 2)\n    s.run()\n    s.source_join()\ns.join()\n"), R2,
    lambda M, a: [cpr(K(a['oa']) + K(i), K(a['oc']) + K(2 * i), 2, a['pv'] + i)(M, a) for i in range(3)], dict(OO, pv=8))
add('param_run_keep', stream() + CPP + body("q = pv\n" + cfg(3, 2, 3, p='q', pn='p') + "s.run()\nq += 1\ns.join()\n"), R2, cpr(3, 2, 3, 'pv'), {'pv': 8}, stalls=W6)
add('args_change', stream() + CP + body("x = oa\ny = oc\nz = 3\ns.set_source('a', ra, x, z)\nx += 1\ns.set_sink('c', rc, y, z)\ny += 1\nz = 1\ns.run()\nx = 0\ny = 0\nz = 0\ns.join()\n"), R2, cpr('oa', 'oc', 3), OO)
add('args_change_pat', stream() + CP + body("x = oa\ny = oc\nz = 2\nw = 1\ns.set_source_pattern('a', ra, x, ((z, w), (2, 4)))\nx += 1\ns.set_sink_pattern('c', rc, y, ((z, w), (2, 3)))\ny += 1\nz = 1\nw = 0\ns.run()\nx = 0\ny = 0\nz = 0\nw = 5\ns.join()\n"), R2,
    lambda M, a: [M['rc'].wr(K(a['oc']) + K(d), v + 1) for d, v in zip((0, 1, 3, 4), [M['ra'].rd(K(a['oa']) + K(d)) for d in (0, 1, 4, 5)])], OO)
# reductions over several groups and runs
add('red', stream() + RED + body(cfg('oa', 'oc', 4, 2, 2, 'n') + RUN + cfg('oc', 1, 3, 1, 3, 'n') + RUN), R2, seqref(redr('oa', 'oc', 4, 2), lambda M, a: redr('oc', 1, 3, 3)(M, a)), OO)
add('red_partial', stream() + RED + body(cfg('oa', 'oc', 3, 1, 2, 'n') + RUN + cfg('oc', 1, 2, 1, 2, 'n') + RUN), R2, seqref(redr('oa', 'oc', 2, 2), lambda M, a: redr('oc', 1, 2, 2)(M, a)), OO)
add('red_sjr', stream() + RED + body(cfg(3, 2, 3, 1, 3, 'n') + "s.source_join_and_run()\n" + cfg(8, 9, 3, 1, 3, 'n') + "s.source_join_and_run()\ns.join()\n"), R2, seqref(redr(3, 2, 3, 3), redr(8, 9, 3, 3)), stalls=W6)
for nm, f in (('Sub', lambda x, y: x - y), ('And', lambda x, y: x & y), ('Or', lambda x, y: x | y), ('Xor', lambda x, y: x ^ y)):
    pass
add('redmax', stream() + "a = s.source('a', signed=False)\nx, v = s.ReduceMaxValid(a, 3, signed=False)\ns.sink(x, 'c', when=v, when_name='v')\n" + body(cfg('oa', 'oc', 3, 1) + RUN + cfg('oc', 1, 3, 1) + RUN), R2,
    lambda M, a: [wr(M, 'rc', o2, [umax(rd(M, 'ra', o1, 3))]) for o1, o2 in ((a['oa'], a['oc']), (a['oc'], 1))], OO)


def umax(l):
    x = l[0]
    for y in l[1:]:
        x = ite(y.ugt(x), y, x)
    return x


add('redmul', stream() + "a = s.source('a')\nx, v = s.ReduceMulValid(a, 2, initval=1)\ns.sink(x, 'c', when=v, when_name='v')\n" + body(cfg(3, 2, 4, 2) + RUN + cfg(8, 9, 2, 1) + RUN), R2,
    lambda M, a: [wr(M, 'rc', o2, [x * y for x, y in zip(l[::2], l[1::2])]) for o2, l in ((2, rd(M, 'ra', 3, 4)), (9, rd(M, 'ra', 8, 2)))], cycles=220, autosplit=False)
add('counters', stream() + "a = s.source('a')\ni, iv = s.CounterValid(size=2)\nj = s.Counter(size=2, enable=iv)\ns.sink(a + i + j * 4, 'c')\n" + body(cfg('oa', 'oc', 5) + RUN + cfg('oc', 2, 3) + RUN), R2,
    lambda M, a: [wr(M, 'rc', o2, [x + k % 2 + (k // 2 % 2 if False else ((k // 2) % 2)) * 4 for k, x in enumerate(rd(M, 'ra', o1, n))]) for o1, o2, n in ((a['oa'], a['oc'], 5), (a['oc'], 2, 3))], OO)
add('counter_init', stream() + "a = s.source('a')\np = s.parameter('p')\ni = s.Counter(initval=p, step=2)\ns.sink(a + i, 'c')\n" + body(cfg('oa', 'oc', 3, p='pv', pn='p') + RUN + cfg('oc', 2, 2, p='pv + 1', pn='p') + RUN), R2,
    lambda M, a: [wr(M, 'rc', o2, [x + q + 2 * k for k, x in enumerate(rd(M, 'ra', o1, n))]) for o1, o2, n, q in ((a['oa'], a['oc'], 3, a['pv']), (a['oc'], 2, 2, a['pv'] + 1))], dict(OO, pv=8),
    pre=lambda a: [a['pv'].eq(0)])
# source / sink kinds alternate between runs
add('empty_then_ram', stream() + CP + body("s.set_source_empty('a', pv)\ns.set_sink('c', rc, oc, 1)\n" + RUN + cfg('oa', 5, 2) + RUN), R2,
    lambda M, a: [wr(M, 'rc', a['oc'], [a['pv'] + 1]), cpr('oa', 5, 2)(M, a)], dict(OO, pv=8))
add('ram_then_empty', stream() + "a = s.source('a')\nb = s.source('b')\ns.sink(a + b, 'c')\n" + body("s.set_source('a', ra, oa, 2)\ns.set_source('b', rb, 0, 2)\ns.set_sink('c', rc, oc, 2)\n" + RUN +
    "s.set_source('a', ra, oa, 3)\ns.set_source_empty('b', pv)\ns.set_sink('c', rc, 9, 3)\n" + RUN), R3,
    lambda M, a: [wr(M, 'rc', a['oc'], [x + y for x, y in zip(rd(M, 'ra', a['oa'], 2), rd(M, 'rb', 0, 2))]), wr(M, 'rc', 9, [x + a['pv'] for x in rd(M, 'ra', a['oa'], 3)])], dict(OO, pv=8))
add('mixed_modes', stream() + CP + body("s.set_source_pattern('a', ra, oa, ((2, 1), (2, 4)))\ns.set_sink('c', rc, oc, 4)\n" + RUN + "s.set_source('a', ra, 2, 4, 2)\ns.set_sink_pattern('c', rc, 1, ((2, 4), (2, 1)))\n" + RUN +
    "s.set_source_multidim('a', ra, 0, (2, 2), order=(0, 1))\ns.set_sink('c', rc, 9, 4)\n" + RUN), R2,
    lambda M, a: [wr(M, 'rc', a['oc'], [M['ra'].rd(K(a['oa']) + K(d)) + 1 for d in (0, 1, 4, 5)]),
                  [M['rc'].wr(K(1 + d), v + 1) for d, v in zip((0, 4, 1, 5), rd(M, 'ra', 2, 4, 2))], wr(M, 'rc', 9, [M['ra'].rd(K(d)) + 1 for d in (0, 2, 1, 3)])], OO)
add('two_rams', stream() + CP + body("s.set_source('a', ra, oa, 2)\ns.set_sink('c', rc, oc, 2)\n" + RUN + "s.set_source('a', rc, oc, 3)\ns.set_sink('c', ra, oa, 3)\n" + RUN), R2,
    lambda M, a: [cpr('oa', 'oc', 2)(M, a), wr(M, 'ra', a['oa'], [x + 1 for x in rd(M, 'rc', a['oc'], 3)])], OO)
add('same_ram', stream() + CP + body("s.set_source('a', ra, oa, 3, port=0)\ns.set_sink('c', ra, oa + 4, 3, port=1)\n" + RUN), {'ra': (8, 4, dict(numports=2))},
    lambda M, a: wr(M, 'ra', K(a['oa']) + K(4), [x + 1 for x in rd(M, 'ra', a['oa'], 3)]), {'oa': 4})
add('two_streams', stream() + CP + "s2 = vthread.Stream(m, 's2', CLK, RST, datawidth=8, addrwidth=8)\nx = s2.source('x')\ns2.sink(x - 1, 'y')\n" +
    body("s.set_source('a', ra, oa, 3)\ns.set_sink('c', rc, oc, 3)\ns.run()\ns2.set_source('x', rb, oa, 2)\ns2.set_sink('y', rd, oc, 2)\ns2.run()\ns2.join()\ns.join()\n"), R4,
    lambda M, a: [cpr('oa', 'oc', 3)(M, a), wr(M, 'rd', a['oc'], [x - 1 for x in rd(M, 'rb', a['oa'], 2)])], OO)
add('chain', stream() + CP + "s2 = vthread.Stream(m, 's2', CLK, RST, datawidth=8, addrwidth=8)\nx = s2.source('x')\ns2.sink(x - 3, 'y')\n" +
    body("s.set_source('a', ra, oa, 3)\ns.set_sink('c', rc, oc, 3)\ns.run()\ns.join()\ns2.set_source('x', rc, oc, 3)\ns2.set_sink('y', ra, oa, 3)\ns2.run()\ns2.join()\n"), R2,
    lambda M, a: [cpr('oa', 'oc', 3)(M, a), wr(M, 'ra', a['oa'], [x - 3 for x in rd(M, 'rc', a['oc'], 3)])], OO)
# substreams
SUB = "k = vthread.Stream(m, 'k', CLK, RST, datawidth=8, addrwidth=8)\nx = k.source('x')\ny = k.source('y')\nz = x - y + 1\nk.sink(z, 'z')\n"
for nm, meth in (('sub', 'substream'), ('subm', 'substream_multicycle')):
    PAR = SUB + stream() + "a = s.source('a')\nb = s.source('b')\nu = s.%s(k)\nu.to_source('x', a + 1)\nu.to_source('y', b)\nc = u.from_sink('z')\ns.sink(c + a, 'c')\n" % meth
    r = lambda M, o1, o2, o3, n: wr(M, 'rc', o3, [x + 1 - y + 1 + x for x, y in zip(rd(M, 'ra', o1, n), rd(M, 'rb', o2, n))])
    add(nm, PAR + body("s.set_source('a', ra, oa, 3)\ns.set_source('b', rb, 2, 3)\ns.set_sink('c', rc, oc, 3)\n" + RUN + "s.set_source('a', ra, 1, 2)\ns.set_source('b', rb, oa, 2)\ns.set_sink('c', rc, 9, 2)\n" + RUN), R3,
        lambda M, a, r=r: [r(M, a['oa'], 2, a['oc'], 3), r(M, 1, a['oa'], 9, 2)], OO, cycles=300)
    add(nm + '_stall', PAR + body("s.set_source('a', ra, 3, 3)\ns.set_source('b', rb, 2, 3)\ns.set_sink('c', rc, 5, 3)\n" + RUN), R3, lambda M, a, r=r: r(M, 3, 2, 5, 3), stalls=W6, cycles=90)
    add(nm + '_own', PAR + body("k.set_source('x', ra, oa, 2)\nk.set_source('y', rb, 4, 2)\nk.set_sink('z', rc, oc, 2)\nk.run()\nk.join()\ns.set_source('a', ra, oa, 3)\ns.set_source('b', rb, 2, 3)\ns.set_sink('c', rc, 1, 3)\n" + RUN +
        "k.set_source('x', rb, oa, 2)\nk.set_source('y', ra, 4, 2)\nk.set_sink('z', rc, oc + 5, 2)\nk.run()\nk.join()\n"), R3,
        lambda M, a, r=r: [wr(M, 'rc', a['oc'], [x - y + 1 for x, y in zip(rd(M, 'ra', a['oa'], 2), rd(M, 'rb', 4, 2))]), r(M, a['oa'], 2, 1, 3),
                           wr(M, 'rc', K(a['oc']) + K(5), [x - y + 1 for x, y in zip(rd(M, 'rb', a['oa'], 2), rd(M, 'ra', 4, 2))])], OO, cycles=300)
    for d in (1, 2, 3, 4, 6):
        DEEP = "k = vthread.Stream(m, 'k', CLK, RST, datawidth=8, addrwidth=8)\nx = k.source('x')\n" + "x = x ^ 1\n" * d + "k.sink(x, 'z')\n"
        add('%s_deep%d' % (nm, d), DEEP + stream() + "a = s.source('a')\nu = s.%s(k)\nu.to_source('x', a + 1)\nc = u.from_sink('z')\ns.sink(c + a, 'c')\n" % meth + body(cfg('oa', 'oc', 3) + RUN + cfg(1, 9, 2) + RUN), R2,
            lambda M, a, d=d: [wr(M, 'rc', o2, [((x + 1) ^ (d & 1)) + x for x in rd(M, 'ra', o1, n)]) for o1, o2, n in ((a['oa'], a['oc'], 3), (1, 9, 2))], OO, cycles=300)
    RK = "k = vthread.Stream(m, 'k', CLK, RST, datawidth=8, addrwidth=8)\nx = k.source('x')\nn = k.parameter('n')\nz, v = k.ReduceAddValid(x, n)\nk.sink(z, 'z')\nk.sink(v, 'v')\n"
    add(nm + '_red', RK + stream() + "a = s.source('a')\nn = s.parameter('n')\nu = s.%s(k)\nu.to_source('x', a + 1)\nu.to_parameter('n', n)\nz = u.from_sink('z')\nv = u.from_sink('v')\ns.sink(z, 'c', when=v, when_name='cv')\n" % meth +
        body(cfg('oa', 'oc', 4, 2, 2, 'n') + RUN + cfg(2, 9, 3, 1, 3, 'n') + RUN), R2,
        lambda M, a: [wr(M, 'rc', a['oc'], [x + y + 2 for x, y in zip(l[::2], l[1::2])]) for l in [rd(M, 'ra', a['oa'], 4)]] + [wr(M, 'rc', 9, [acc(rd(M, 'ra', 2, 3))[-1] + 3])], OO, cycles=300)
NEST = SUB + ("k2 = vthread.Stream(m, 'k2', CLK, RST, datawidth=8, addrwidth=8)\np = k2.source('p')\nu2 = k2.substream(k)\nu2.to_source('x', p)\nu2.to_source('y', p + p)\nk2.sink(u2.from_sink('z') + 3, 'q')\n" + stream() +
              "a = s.source('a')\nu = s.substream(k2)\nu.to_source('p', a + 1)\ns.sink(u.from_sink('q') + a, 'c')\n")
add('sub_nested', NEST + body(cfg('oa', 'oc', 3) + RUN + cfg(1, 9, 2) + RUN), R2,
    lambda M, a: [wr(M, 'rc', o2, [(x + 1) - ((x + 1) + (x + 1)) + 1 + 3 + x for x in rd(M, 'ra', o1, n)]) for o1, o2, n in ((a['oa'], a['oc'], 3), (1, 9, 2))], OO)
NRED = ("k = vthread.Stream(m, 'k', CLK, RST, datawidth=8, addrwidth=8)\nx = k.source('x')\nz = k.ReduceAdd(x)\nk.sink(z, 'z')\n"
        "k2 = vthread.Stream(m, 'k2', CLK, RST, datawidth=8, addrwidth=8)\np = k2.source('p')\nu2 = k2.substream(k)\nu2.to_source('x', p + 1)\nk2.sink(k2.ReduceAdd(u2.from_sink('z')), 'q')\n" + stream() +
        "a = s.source('a')\nu = s.substream(k2)\nu.to_source('p', a)\ns.sink(s.ReduceAdd(u.from_sink('q')) + a, 'c')\n")
add('sub_nested_red', NRED + body(cfg('oa', 'oc', 3) + RUN + cfg(1, 9, 2) + RUN), R2,
    lambda M, a: [wr(M, 'rc', o2, [x + y for x, y in zip(l, acc(acc(acc([x + 1 for x in l]))))]) for o1, o2, n in ((a['oa'], a['oc'], 3), (1, 9, 2)) for l in [rd(M, 'ra', o1, n)]], OO)
add('sub_nested_red_sj', NRED + body("for i in range(3):\n    s.set_source('a', ra, oa + i, 3)\n    s.set_sink('c', rc, oc + i * 3, 3)\n    s.run()\n    s.source_join()\ns.join()\n"), R2,
    lambda M, a: [wr(M, 'rc', K(a['oc']) + K(3 * i), [x + y for x, y in zip(l, acc(acc(acc([x + 1 for x in l]))))]) for i in range(3) for l in [rd(M, 'ra', K(a['oa']) + K(i), 3)]], OO)
add('sub_two', SUB + stream() + "a = s.source('a')\nu = s.substream(k)\nu.to_source('x', a)\nu.to_source('y', a + 4)\nc = u.from_sink('z')\nk3 = vthread.Stream(m, 'k3', CLK, RST, datawidth=8, addrwidth=8)\nx3 = k3.source('x')\nk3.sink(x3 ^ 5, 'z')\n"
    "w = s.substream(k3)\nw.to_source('x', c)\ns.sink(w.from_sink('z') + a, 'c')\n" + body(cfg('oa', 'oc', 3) + RUN), R2,
    lambda M, a: wr(M, 'rc', a['oc'], [((x - (x + 4) + 1) ^ 5) + x for x in rd(M, 'ra', a['oa'], 3)]), OO)
# in-stream memory accesses
RR = "a = s.source('a')\nr = s.read_RAM('x', a)\ns.sink(r + a, 'c')\n"
rrr = lambda M, o1, o2, n, r='rb': wr(M, 'rc', o2, [M[r].rd(x) + x for x in rd(M, 'ra', o1, n)])
add('read_ram', stream() + RR + body(cfg('oa', 'oc', 2) + "s.set_read_RAM('x', rb)\n" + RUN + cfg(1, 9, 2) + "s.set_read_RAM('x', rd)\n" + RUN), R4, lambda M, a: [rrr(M, a['oa'], a['oc'], 2), rrr(M, 1, 9, 2, 'rd')], OO, autosplit=False, cycles=60)
add('read_ram_keep', stream() + RR + body(cfg(3, 2, 2) + "s.set_read_RAM('x', rb)\n" + RUN + cfg(1, 9, 2) + RUN), R3, lambda M, a: [rrr(M, 3, 2, 2), rrr(M, 1, 9, 2)], autosplit=False, cycles=60)
add('read_ram_stall', stream() + RR + body(cfg(3, 2, 2) + "s.set_read_RAM('x', rb)\n" + RUN), R3, lambda M, a: rrr(M, 3, 2, 2), autosplit=False, cycles=60)
add('read_ram_when', stream() + "a = s.source('a')\nr = s.read_RAM('x', a, when=a[0] == 1)\ns.sink(s.Mux(a[0] == 1, r, 0) + a, 'c')\n" + body(cfg(3, 2, 3) + "s.set_read_RAM('x', rb)\n" + RUN), R3,
    lambda M, a: wr(M, 'rc', 2, [ite(t.extract(x, 0, 0).eq(1), M['rb'].rd(x), const(0, 8)) + x for x in rd(M, 'ra', 3, 3)]), autosplit=False, cycles=60)
add('read_ram_cnt', stream() + "a = s.source('a')\ni = s.Counter()\nr = s.read_RAM('x', i + 3)\ns.sink(r + a, 'c')\n" + body(cfg('oa', 'oc', 3) + "s.set_read_RAM('x', rb)\n" + RUN), R3,
    lambda M, a: wr(M, 'rc', a['oc'], [M['rb'].rd(K(3 + i)) + x for i, x in enumerate(rd(M, 'ra', a['oa'], 3))]), OO)
add('read_ram_cnt_st', stream() + "a = s.source('a')\ni = s.Counter()\nr = s.read_RAM('x', i + 3)\ns.sink(r + a, 'c')\n" + body(cfg(3, 2, 3) + "s.set_read_RAM('x', rb)\n" + RUN), R3,
    lambda M, a: wr(M, 'rc', 2, [M['rb'].rd(K(3 + i)) + x for i, x in enumerate(rd(M, 'ra', 3, 3))]), stalls=W8)
WR = "a = s.source('a')\ni = s.Counter()\ns.write_RAM('x', i + 4, a + 1%s)\n"
add('write_ram', stream() + WR % '' + body("s.set_source('a', ra, oa, 3)\ns.set_write_RAM('x', rc)\n" + RUN), R2, lambda M, a: wr(M, 'rc', 4, [x + 1 for x in rd(M, 'ra', a['oa'], 3)]), {'oa': 4})
add('write_ram_st', stream() + WR % '' + body("s.set_source('a', ra, 3, 3)\ns.set_write_RAM('x', rc)\n" + RUN), R2, lambda M, a: wr(M, 'rc', 4, [x + 1 for x in rd(M, 'ra', 3, 3)]), stalls=W8)
add('write_ram_addr', stream() + "a = s.source('a')\nb = s.source('b')\ns.write_RAM('x', a, b)\n" + body("s.set_source('a', ra, 1, 3)\ns.set_source('b', rb, 3, 3)\ns.set_write_RAM('x', rc)\n" + RUN), R3,
    lambda M, a: [M['rc'].wr(x, y) for x, y in zip(rd(M, 'ra', 1, 3), rd(M, 'rb', 3, 3))])
add('write_ram_when', stream() + WR % ', when=a > 4' + body("s.set_source('a', ra, oa, 3)\ns.set_write_RAM('x', rc)\n" + RUN), R2,
    lambda M, a: [M['rc'].wr(K(4 + i), x + 1, x.sgt(4)) for i, x in enumerate(rd(M, 'ra', a['oa'], 3))], {'oa': 4})
add('write_ram_twice', stream() + WR % '' + body("s.set_source('a', ra, oa, 3)\ns.set_write_RAM('x', rc)\n" + RUN + "s.set_source('a', ra, 1, 2)\ns.set_write_RAM('x', rb)\n" + RUN), R3,
    lambda M, a: [wr(M, 'rc', 4, [x + 1 for x in rd(M, 'ra', a['oa'], 3)]), wr(M, 'rb', 4, [x + 1 for x in rd(M, 'ra', 1, 2)])], {'oa': 4})


def rmw(M, adrs, f):
    for x in adrs:
        M['rc'].wr(x, f(M['rc'].rd(x)))


RC2 = {'ra': (4, 4), 'rc': (4, 4, dict(numports=2))}
for n in (1, 2, 3, 4):
    add('rmw_%d' % n, stream(dw=4) + "a = s.source('a', signed=False)\ns.read_modify_write_RAM('x', (a,), a, s.Add, (1,))\n" + body("s.set_source('a', ra, 3, %d)\ns.set_read_modify_write_RAM('x', rc, read_ports=(0,), write_port=1)\n" % n + RUN), RC2,
        lambda M, a, n=n: rmw(M, [x for x in rd(M, 'ra', 3, n)], lambda v: v + 1), autosplit=False, cycles=40)
add('rmw_twice', stream(dw=4) + "a = s.source('a', signed=False)\ns.read_modify_write_RAM('x', (a,), a, s.Add, (1,))\n" + body("s.set_source('a', ra, 3, 2)\ns.set_read_modify_write_RAM('x', rc, read_ports=(0,), write_port=1)\n" + RUN + "s.set_source('a', ra, 5, 2)\n" + RUN), RC2,
    lambda M, a: rmw(M, [x for x in rd(M, 'ra', 3, 4)], lambda v: v + 1), autosplit=False, cycles=60)
add('rmw_default', stream(dw=4) + "a = s.source('a', signed=False)\ns.read_modify_write_RAM('x', (a,), a, s.Add, (1,))\n" + body("s.set_source('a', ra, 3, 2)\ns.set_read_modify_write_RAM('x', rc)\n" + RUN), RC2,
    lambda M, a: rmw(M, [x for x in rd(M, 'ra', 3, 2)], lambda v: v + 1), autosplit=False, cycles=40)
add('rmw_when', stream(dw=4) + "a = s.source('a', signed=False)\nb = s.source('b')\ns.read_modify_write_RAM('x', (a,), a, s.Add, (b,), when=b != 3)\n" +
    body("s.set_source('a', ra, 3, 3)\ns.set_source('b', rb, 4, 3)\ns.set_read_modify_write_RAM('x', rc, read_ports=(0,), write_port=1)\n" + RUN), dict(RC2, rb=(4, 4)),
    lambda M, a: [M['rc'].wr(x, M['rc'].rd(x) + y, y.ne(3)) for x, y in zip(rd(M, 'ra', 3, 3), rd(M, 'rb', 4, 3))], autosplit=False, cycles=40)
add('rmw_st', stream(dw=4) + "a = s.source('a', signed=False)\ns.read_modify_write_RAM('x', (a,), a, s.Add, (1,))\n" + body("s.set_source('a', ra, 3, 2)\ns.set_read_modify_write_RAM('x', rc, read_ports=(0,), write_port=1)\n" + RUN), RC2,
    lambda M, a: rmw(M, [x for x in rd(M, 'ra', 3, 2)], lambda v: v + 1), autosplit=False, cycles=40, stalls=[range(6, 12), range(10, 16)])
# FIFOs
FEED = ("q = vg.Seq(m, 'feed', CLK, RST)\nicnt = m.Reg('icnt', 4, initval=0)\ndat = (d0, d1, d2, d3)\nsel = d3\nfor i in (2, 1, 0):\n    sel = vg.Mux(icnt == i, dat[i], sel)\n"
        "ack, rdy = fa.enq_rtl(sel, cond=vg.Ands(g, icnt < %d))\nq.If(g, icnt < %d, rdy)(icnt.inc())\n")
DRAIN = ("q2 = vg.Seq(m, 'drain', CLK, RST)\nod, ov, ordy = fc.deq_rtl(cond=h)\n"
         "for i, o in enumerate((o0, o1, o2, o3)):\n    q2.If(ov, oc == i)(o(od))\nq2.If(ov)(oc.inc())\n")
D4 = {'d%d' % i: 8 for i in range(4)}
O4 = dict({'o%d' % i: 8 for i in range(4)}, oc=4)
LATE = ('o0', 'o1', 'o2', 'o3', 'oc')
FA, FC = {'fa': (8, 2)}, {'fc': (8, 2)}
GW = [range(4, 12), range(9, 17), range(14, 22)]


def outs(vals):
    d = {'o%d' % i: (vals[i] if i < len(vals) else const(0, 8)) for i in range(4)}
    d['oc'] = const(len(vals), 4)
    return d


def gated(name, src, rams, ref, args, gates, wins, **kw):
    kw = dict(dict(cycles=60, autosplit=False), **kw)
    add(name, src, rams, ref, args, gates={x: () for x in gates}, **kw)
    for i, w in enumerate(wins):
        add('%s_g%d' % (name, i), src, rams, ref, args, gates={x: w for x in gates}, **kw)


SF = FEED % (3, 3) + stream() + CP + body("s.set_source_fifo('a', fa, 3)\ns.set_sink('c', rc, 2, 3)\n" + RUN)
gated('src_fifo', SF, R1, lambda M, a: wr(M, 'rc', 2, [a['d%d' % i] + 1 for i in range(3)]), D4, 'g', GW, fifos=FA)
SF2 = FEED % (3, 3) + stream() + "a = s.source('a')\nb = s.source('b')\ns.sink(a + b, 'c')\n" + body("s.set_source_fifo('a', fa, 3)\ns.set_source('b', rb, 5, 3)\ns.set_sink('c', rc, 2, 3)\n" + RUN)
gated('src_fifo_ram', SF2, {'rb': (8, 4), 'rc': (8, 4)}, lambda M, a: wr(M, 'rc', 2, [a['d%d' % i] + x for i, x in enumerate(rd(M, 'rb', 5, 3))]), D4, 'g', GW, fifos=FA)
SF3 = FEED % (4, 4) + stream() + CP + body("s.set_source_fifo('a', fa, 2)\ns.set_sink('c', rc, 2, 2)\n" + RUN + "s.set_source_fifo('a', fa, 1)\ns.set_sink('c', rc, 9, 1)\n" + RUN)
gated('src_fifo_twice', SF3, R1, lambda M, a: [wr(M, 'rc', 2, [a['d%d' % i] + 1 for i in range(2)]), wr(M, 'rc', 9, [a['d2'] + 1])], D4, 'g', GW + [range(18, 26)], fifos=FA)
KF = DRAIN + stream() + CP + body("s.set_source('a', ra, 3, 4)\ns.set_sink_fifo('c', fc, 4)\n" + RUN)
gated('sink_fifo', KF, {'ra': (8, 4)}, lambda M, a: outs([x + 1 for x in rd(M, 'ra', 3, 4)]), {}, 'h', [range(8, 16), range(12, 20), range(16, 24)], fifos=FC, outs=O4, late=LATE, extra=20)
KF2 = DRAIN + stream() + CP + body("s.set_source('a', ra, 3, 2)\ns.set_sink_fifo('c', fc, 2)\n" + RUN + "s.set_source('a', ra, 7, 2)\ns.set_sink_fifo('c', fc, 2)\n" + RUN)
gated('sink_fifo_twice', KF2, {'ra': (8, 4)}, lambda M, a: outs([x + 1 for x in rd(M, 'ra', 3, 2) + rd(M, 'ra', 7, 2)]), {}, 'h', [range(10, 18), range(18, 26)], fifos=FC, outs=O4, late=LATE, extra=20)
FF = FEED % (4, 4) + DRAIN + stream() + CP + body("s.set_source_fifo('a', fa, 4)\ns.set_sink_fifo('c', fc, 4)\n" + RUN)
gated('fifo_fifo', FF, {}, lambda M, a: outs([a['d%d' % i] + 1 for i in range(4)]), D4, 'gh', [range(5, 9), range(9, 13), range(13, 17), range(17, 21)], fifos=dict(FA, **FC), outs=O4, late=LATE, extra=20)
RF = FEED % (3, 3) + stream() + "b = s.source('b')\na = s.read_fifo('f')\ns.sink(a + b, 'c')\n" + body("s.set_source('b', rb, 5, 3)\ns.set_read_fifo('f', fa)\ns.set_sink('c', rc, 2, 3)\n" + RUN)
gated('read_fifo', RF, {'rb': (8, 4), 'rc': (8, 4)}, lambda M, a: wr(M, 'rc', 2, [a['d%d' % i] + x for i, x in enumerate(rd(M, 'rb', 5, 3))]), D4, 'g', GW, fifos=FA)
RFW = FEED % (2, 2) + stream() + "b = s.source('b')\ni = s.Counter()\na = s.read_fifo('f', when=i[0] == 0)\ns.sink(a + b, 'c')\n" + body("s.set_source('b', rb, 5, 4)\ns.set_read_fifo('f', fa)\ns.set_sink('c', rc, 2, 4)\n" + RUN)
gated('read_fifo_when', RFW, {'rb': (8, 4), 'rc': (8, 4)}, lambda M, a: wr(M, 'rc', 2, [a['d%d' % (i // 2)] + x for i, x in enumerate(rd(M, 'rb', 5, 4))]), D4, 'g', GW, fifos=FA)
WF = DRAIN + stream() + "a = s.source('a')\ns.write_fifo('f', a + 1)\n" + body("s.set_source('a', ra, 3, 4)\ns.set_write_fifo('f', fc)\n" + RUN)
gated('write_fifo', WF, {'ra': (8, 4)}, lambda M, a: outs([x + 1 for x in rd(M, 'ra', 3, 4)]), {}, 'h', [range(8, 16), range(12, 20)], fifos=FC, outs=O4, late=LATE, extra=20)
WFW = DRAIN + stream() + "a = s.source('a')\ni = s.Counter()\ns.write_fifo('f', a + 1, when=i[0] == 1)\n" + body("s.set_source('a', ra, 3, 5)\ns.set_write_fifo('f', fc)\n" + RUN)
gated('write_fifo_when', WFW, {'ra': (8, 4)}, lambda M, a: outs([x + 1 for x in rd(M, 'ra', 3, 5)[1::2]]), {}, 'h', [range(8, 16), range(12, 20)], fifos=FC, outs=O4, late=LATE, extra=20)
# early termination, immediate sinks, infinite streams
def tm(n, more=''):
    return (stream() + "a = s.source('a')\ni = s.Counter()\ns.sink(i, 'i')\ns.terminate(a == key)\n" +
            body("s.set_source('a', ra, 3, %d)\ns.set_sink_immediate('i', 0)\n" % n + RUN + "x = s.read_sink('i')\no.value = x\n" + more))


def first(l, key):
    r = const(len(l) - 1, 8)
    for i in reversed(range(len(l))):
        r = ite(l[i].eq(key), const(i, 8), r)
    return r


add('term', tm(4), {'ra': (8, 4)}, lambda M, a: dict(o=first(rd(M, 'ra', 3, 4), a['key'])), {'key': 8}, outs={'o': 8}, autosplit=False, cycles=40)
add('term_twice', tm(3, "s.set_source('a', ra, 8, 3)\n" + RUN + "x = s.read_sink('i')\no2.value = x\n"), {'ra': (8, 4)},
    lambda M, a: dict(o=first(rd(M, 'ra', 3, 3), a['key']), o2=first(rd(M, 'ra', 8, 3), a['key'])), {'key': 8}, outs={'o': 8, 'o2': 8}, autosplit=False, cycles=60)
TS = "a = s.source('a')\ns.sink(a + 1, 'c')\ns.terminate(a == key)\n"


def termr(oa, oc, n):
    def f(M, a):
        live = const(1, 1)
        for i, x in enumerate(rd(M, 'ra', oa, n)):
            M['rc'].wr(K(oc + i), x + 1, live)
            live = t.and_(live, x.ne(a['key']))
    return f


add('term_sink', stream() + TS + body(cfg(3, 2, 4) + RUN), R2, termr(3, 2, 4), {'key': 8}, autosplit=False, cycles=40)
add('term_sink_twice', stream() + TS + body(cfg(3, 2, 3) + RUN + cfg(7, 8, 3) + RUN), R2, lambda M, a: [termr(3, 2, 3)(M, a), termr(7, 8, 3)(M, a)], {'key': 8}, autosplit=False, cycles=60)
INF = ("s = vthread.Stream(m, 's', CLK, RST, datawidth=8, addrwidth=8, infinite=True)\ni = s.Counter()\nn = s.parameter('n')\na = s.read_RAM('x', i + 3)\ns.sink(a + i, 'c')\ns.terminate(i >= n - 1)\n")
add('infinite', INF + body("s.set_parameter('n', 3)\ns.set_read_RAM('x', ra)\ns.set_sink('c', rc, oc, 3)\n" + RUN + "s.set_parameter('n', 2)\ns.set_sink('c', rc, 1, 2)\n" + RUN), R2,
    lambda M, a: [wr(M, 'rc', a['oc'], [x + i for i, x in enumerate(rd(M, 'ra', 3, 3))]), wr(M, 'rc', 1, [x + i for i, x in enumerate(rd(M, 'ra', 3, 2))])], {'oc': 4})
# registers inside the stream, synchronisation
add('reg', stream() + "a = s.source('a')\nr = s.Reg(a, a > 4)\ns.sink(r + 1, 'c')\n" + body(cfg('oa', 'oc', 3) + "r.write(pv)\n" + RUN), R2, lambda M, a: wr(M, 'rc', a['oc'], [x + 1 for x in hold(rd(M, 'ra', a['oa'], 3), a['pv'])]), dict(OO, pv=8))


def hold(l, x):
    r = []
    for v in l:
        x = ite(v.sgt(4), v, x)
        r.append(x)
    return r


add('sync', stream() + "a = s.source('a')\nb = s.source('b')\na = a + 1 - 3\na, b = s.Sync(a, b)\ns.sink(a + (b + 5), 'c')\n" + body("s.set_source('a', ra, oa, 3)\ns.set_source('b', rb, 2, 3)\ns.set_sink('c', rc, oc, 3)\n" + RUN), R3,
    lambda M, a: wr(M, 'rc', a['oc'], [x + 3 + y for x, y in zip(rd(M, 'ra', a['oa'], 3), rd(M, 'rb', 2, 3))]), OO)
PC = ("a = s.source('a')\nc = s.Consumer(initval=0, datawidth=8)\nn = a ^ (c + c)\nn.latency = 0\ns.Producer(c, n)\ns.sink(n, 'c')\n").replace('c + c', 'cc').replace("n = a", "cc = c + 3\ncc.latency = 0\nn = a")


def pcr(l, x=None):
    x = const(0, 8)
    r = []
    for v in l:
        x = v ^ (x + 3)
        r.append(x)
    return r


PC = PC.replace(", datawidth=8", "")
add('prodcons', stream() + PC + body(cfg('oa', 'oc', 3) + RUN + cfg(1, 9, 2) + RUN), R2, lambda M, a: [wr(M, 'rc', o2, pcr(rd(M, 'ra', o1, n))) for o1, o2, n in ((a['oa'], a['oc'], 3), (1, 9, 2))], OO)

# a RAM and a FIFO alternate on the same source / sink
AF = FEED % (2, 2) + stream() + CP + body("s.set_source_fifo('a', fa, 2)\ns.set_sink('c', rc, oc, 2)\n" + RUN + "s.set_source('a', ra, oa, 2)\ns.set_sink('c', rc, 9, 2)\n" + RUN)
add('fifo_then_ram', AF, R2, lambda M, a: [wr(M, 'rc', a['oc'], [a['d%d' % i] + 1 for i in range(2)]), cpr('oa', 9, 2)(M, a)], dict(D4, **OO), gates={'g': ()}, fifos=FA, autosplit=False, cycles=80)
AR = FEED % (2, 2) + stream() + CP + body("s.set_source('a', ra, oa, 2)\ns.set_sink('c', rc, oc, 2)\n" + RUN + "s.set_source_fifo('a', fa, 2)\ns.set_sink('c', rc, 9, 2)\n" + RUN)
add('ram_then_fifo', AR, R2, lambda M, a: [cpr('oa', 'oc', 2)(M, a), wr(M, 'rc', 9, [a['d%d' % i] + 1 for i in range(2)])], dict(D4, **OO), gates={'g': ()}, fifos=FA, autosplit=False, cycles=80)
BF = DRAIN + stream() + CP + body("s.set_source('a', ra, oa, 2)\ns.set_sink('c', rc, 2, 2)\n" + RUN + "s.set_source('a', ra, oa + 1, 3)\ns.set_sink_fifo('c', fc, 3)\n" + RUN)
add('ram_then_fifo_sink', BF, R2, lambda M, a: [cpr('oa', 2, 2)(M, a), outs([x + 1 for x in rd(M, 'ra', K(a['oa']) + K(1), 3)])][1], {'oa': 4}, gates={'h': ()}, fifos=FC, outs=O4, late=LATE, extra=20, autosplit=False, cycles=80)
BR = DRAIN + stream() + CP + body("s.set_source('a', ra, oa, 3)\ns.set_sink_fifo('c', fc, 3)\n" + RUN + "s.set_source('a', ra, oa + 1, 2)\ns.set_sink('c', rc, 2, 2)\n" + RUN)
add('fifo_then_ram_sink', BR, R2, lambda M, a: [wr(M, 'rc', 2, [x + 1 for x in rd(M, 'ra', K(a['oa']) + K(1), 2)]), outs([x + 1 for x in rd(M, 'ra', a['oa'], 3)])][1], {'oa': 4}, gates={'h': ()}, fifos=FC, outs=O4, late=LATE, extra=20, autosplit=False, cycles=80)
KW = DRAIN + stream() + "a = s.source('a')\ni = s.Counter()\ns.sink(a + 1, 'c', when=i[0] == 1, when_name='v')\n" + body("s.set_source('a', ra, oa, 4)\ns.set_sink_fifo('c', fc, 4)\n" + RUN)
add('kf_when_fifo', KW, {'ra': (8, 4)}, lambda M, a: outs([x + 1 for x in rd(M, 'ra', a['oa'], 4)[1::2]]), {'oa': 4}, gates={'h': ()}, fifos=FC, outs=O4, late=LATE, extra=20, autosplit=False, cycles=80)
SJF = DRAIN + stream() + CP + body("s.set_source('a', ra, 3, 2)\ns.set_sink_fifo('c', fc, 2)\ns.source_join_and_run()\ns.set_source('a', ra, 7, 1)\ns.set_sink_fifo('c', fc, 1)\ns.source_join_and_run()\ns.join()\n")
gated('sink_fifo_sjr', SJF, {'ra': (8, 4)}, lambda M, a: outs([x + 1 for x in rd(M, 'ra', 3, 2) + rd(M, 'ra', 7, 1)]), {}, 'h', [range(10, 18), range(18, 26)], fifos=FC, outs=O4, late=LATE, extra=20)
SFJ = FEED % (4, 4) + stream() + CP + body("s.set_source_fifo('a', fa, 2)\ns.set_sink('c', rc, 2, 2)\ns.source_join_and_run()\ns.set_source_fifo('a', fa, 2)\ns.set_sink('c', rc, 9, 2)\ns.source_join_and_run()\ns.join()\n")
gated('src_fifo_sjr', SFJ, R1, lambda M, a: [wr(M, 'rc', 2, [a['d%d' % i] + 1 for i in range(2)]), wr(M, 'rc', 9, [a['d%d' % i] + 1 for i in (2, 3)])], D4, 'g', GW, fifos=FA)
for n in (1, 2, 3):
    gated('src_fifo_async_%d' % n, (FEED % (n, n)) + stream() + CP + body("s.set_source_fifo('a', fa, %d)\ns.set_sink('c', rc, 2, %d)\n" % (n, n) + RUN), R1, lambda M, a, n=n: wr(M, 'rc', 2, [a['d%d' % i] + 1 for i in range(n)]), D4, 'g',
          GW if n == 3 else (), fifos={'fa': (8, 2, dict(sync=False))})
KAS = DRAIN + stream() + CP + body("s.set_source('a', ra, 3, 3)\ns.set_sink_fifo('c', fc, 3)\n" + RUN)
gated('sink_fifo_async', KAS, {'ra': (8, 4)}, lambda M, a: outs([x + 1 for x in rd(M, 'ra', 3, 3)]), {}, 'h', [range(8, 16)], fifos={'fc': (8, 2, dict(sync=False))}, outs=O4, late=LATE, extra=20)
add('dump_all', "s = vthread.Stream(m, 's', CLK, RST, datawidth=8, addrwidth=8, dump=True)\n" + CP + body(cfg('oa', 'oc', 3) + RUN), R2, cpr('oa', 'oc', 3), OO)
add('names_int', stream() + CP + body("s.set_source(0, ra, oa, 3)\ns.set_sink(1, rc, oc, 3)\n" + RUN), R2, cpr('oa', 'oc', 3), OO)
RFA = FEED % (3, 3) + stream() + "b = s.source('b')\na = s.read_fifo('f')\ns.sink(a + b, 'c')\n" + body("s.set_source('b', rb, 5, 3)\ns.set_read_fifo('f', fa)\ns.set_sink('c', rc, 2, 3)\n" + RUN)
gated('read_fifo_async', RFA, {'rb': (8, 4), 'rc': (8, 4)}, lambda M, a: wr(M, 'rc', 2, [a['d%d' % i] + x for i, x in enumerate(rd(M, 'rb', 5, 3))]), D4, 'g', GW[1:2], fifos={'fa': (8, 2, dict(sync=False))})
add('names_param', stream() + "a = s.source('a')\np = s.parameter('p')\ns.sink(a + p, 'c')\n" + body("s.set_source(0, ra, oa, 3)\ns.set_parameter(1, pv)\ns.set_sink(2, rc, oc, 3)\n" + RUN), R2, cpr('oa', 'oc', 3, 'pv'), dict(OO, pv=8))
DW = DRAIN + "s = vthread.Stream(m, 's', CLK, RST, datawidth=8, addrwidth=8, dump=True)\n" + "a = s.source('a')\ns.write_fifo('f', a + 1)\n" + body("s.set_source('a', ra, 3, 3)\ns.set_write_fifo('f', fc)\n" + RUN)
gated('dump_write_fifo', DW, {'ra': (8, 4)}, lambda M, a: outs([x + 1 for x in rd(M, 'ra', 3, 3)]), {}, 'h', (), fifos=FC, outs=O4, late=LATE, extra=20)

# the next run is configured while one is running
NEXT = {'src': "s.set_source('a', ra, 9, 1)\n", 'pat': "s.set_source_pattern('a', ra, 9, ((1, 3), (1, 2)))\n",
        'mp': "s.set_source_multipattern('a', ra, (9, 3), (((1, 3), (1, 2)), ((1, 1), (1, 2))))\n"}
NEXTK = {'src': "s.set_sink('c', rc, 1, 1)\n", 'pat': "s.set_sink_pattern('c', rc, 1, ((1, 3), (1, 2)))\n",
         'mp': "s.set_sink_multipattern('c', rc, (1, 9), (((1, 3), (1, 2)), ((1, 1), (1, 2))))\n"}
SRCS = {'src': ("s.set_source('a', ra, oa, 6)\n", lambda o: [K(o) + K(i) for i in range(6)]),
        'pat': ("s.set_source_pattern('a', ra, oa, ((2, 1), (3, 4)))\n", lambda o: [K(o) + K(i + 4 * j) for j in range(3) for i in range(2)]),
        'mp': ("s.set_source_multipattern('a', ra, (oa, 2), (((2, 1), (2, 4)), ((2, 3),)))\n",
               lambda o: [K(o) + K(i + 4 * j) for j in range(2) for i in range(2)] + [K(2), K(5)])}
SNKS = {'src': ("s.set_sink('c', rc, oc, 6)\n", SRCS['src'][1]), 'pat': ("s.set_sink_pattern('c', rc, oc, ((2, 1), (3, 4)))\n", SRCS['pat'][1]),
        'mp': ("s.set_sink_multipattern('c', rc, (oc, 2), (((2, 1), (2, 4)), ((2, 3),)))\n", SRCS['mp'][1])}
for k in SRCS:
    for k2 in SRCS:
        if k != 'src' and k2 != 'src' and k != k2:
            continue

        def ref(M, a, k=k, k2=k2):
            for x, y in zip(SRCS[k][1](a['oa']), SNKS[k2][1](a['oc'])):
                M['rc'].wr(y, M['ra'].rd(x) + 1)
        add('reconf_%s_%s' % (k, k2), stream() + CP + body(SRCS[k][0] + SNKS[k2][0] + 's.run()\n' + NEXT[k] + 's.join()\n'), R2, ref, OO)
        add('reconfk_%s_%s' % (k, k2), stream() + CP + body(SRCS[k][0] + SNKS[k2][0] + 's.run()\n' + NEXTK[k2] + 's.join()\n'), R2, ref, OO)

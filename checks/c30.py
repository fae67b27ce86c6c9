"""C30: stream runs read and write exactly the configured memory words."""
import itertools
from vlib import term as t
from vlib.term import const, ite
from vlib.harness import Registry
from checks.tstrm import tstrm

R = Registry('C30', 'model_checking', ['thread/stream.py', 'stream/stream.py', 'stream/stypes.py', 'thread/ram.py', 'types/ram.py', 'thread/compiler.py', 'seq/seq.py', 'fsm/fsm.py'],
             assumptions=['sizes are at least 1', 'memories of 16 words, all contents symbolic; sizes up to 8 elements',
                          'stall patterns: every pattern over a window of 8 cycles placed at different phases of the run'],
             explanation='A thread configures, runs and joins a stream over RAMs with symbolic contents and symbolic offsets, strides and parameters; '
                         'when the join returns, and 8 cycles later, every word of every RAM is compared with the words the configuration names.')
COMP = 'def comp():\n%s\nth = vthread.Thread(m, "th", CLK, RST, comp, datawidth=16)\nth.start()\n'


def body(x, pre=''):
    return pre + COMP % '\n'.join('    ' + l for l in x.strip('\n').split('\n'))


def stream(opts='', dw=8):
    return "s = vthread.Stream(m, 's', CLK, RST, datawidth=%d, addrwidth=8%s)\n" % (dw, opts)


ADD = "a = s.source('a')\nb = s.source('b')\ns.sink(a + b, 'c')\n"
CP = "a = s.source('a')\ns.sink(a + 1, 'c')\n"
RUN = 's.run()\ns.join()\n'
R3 = {'ra': (8, 4), 'rb': (8, 4), 'rc': (8, 4)}
R2 = {'ra': (8, 4), 'rc': (8, 4)}


def K(x, w=8):
    return const(x, w) if isinstance(x, int) else t.zresize(x, w)


def lin(off, n, stride=1):
    return [K(off) + K(i) * K(stride) for i in range(n)]


def pat(off, p):
    """addresses of a pattern [(size, stride), ...], first dimension innermost"""
    r = []
    for ix in itertools.product(*[range(n) for n, _ in reversed(p)]):
        x = K(off)
        for i, (n, st) in zip(reversed(ix), p):
            x = x + K(i) * K(st)
        r.append(x)
    return r


def dims(off, shape, order=None):
    order = list(reversed(range(len(shape)))) if order is None else order
    p = []
    for d in order:
        st = 1
        for q in shape[d + 1:]:
            st *= q
        p.append((shape[d], st))
    return pat(off, p)


def add(name, src, rams, ref, args=None, tier='quick', **kw):
    st = kw.pop('stalls', ())
    R.add(name, tstrm(src, rams, ref, args, **kw), tier=tier, bounds='all memory contents and arguments')
    for i, w in enumerate(st):
        R.add('%s_st%d' % (name, i), tstrm(src, rams, ref, args, stall=w, autosplit=False, cycles=kw.get('cycles', 70), **{k: v for k, v in kw.items() if k not in ('cycles',)}), tier=tier,
              bounds='all stall patterns over cycles %d-%d' % (w[0], w[-1]), timeout=600)


def sum4(l):
    x = l[0]
    for y in l[1:]:
        x = x + y
    return x


def addref(sa, sb, sc):
    def ref(M, a):
        xs, ys, zs = sa(a), sb(a), sc(a)
        vals = [M['ra'].rd(x) + M['rb'].rd(y) for x, y in zip(xs, ys)]
        for z, v in zip(zs, vals):
            M['rc'].wr(z, v)
    return ref


def cpref(sa, sc, src='ra', dst='rc', f=lambda v: v + 1):
    def ref(M, a):
        vals = [f(M[src].rd(x)) for x in sa(a)]
        for z, v in zip(sc(a), vals):
            M[dst].wr(z, v)
    return ref


A3 = {'oa': 4, 'ob': 4, 'oc': 4}
W8 = [range(4, 12), range(10, 18), range(16, 24)]
# offset, size
for n in (1, 2, 4, 6):
    add('lin_%d' % n, stream() + ADD + body("s.set_source('a', ra, oa, %d)\ns.set_source('b', rb, ob, %d)\ns.set_sink('c', rc, oc, %d)\n" % (n, n, n) + RUN), R3,
        addref(lambda a, n=n: lin(a['oa'], n), lambda a, n=n: lin(a['ob'], n), lambda a, n=n: lin(a['oc'], n)), A3)
add('lin_stall', stream() + ADD + body("s.set_source('a', ra, 3, 3)\ns.set_source('b', rb, 5, 3)\ns.set_sink('c', rc, 2, 3)\n" + RUN), R3,
    addref(lambda a: lin(3, 3), lambda a: lin(5, 3), lambda a: lin(2, 3)), stalls=W8)
add('size_sym', stream() + ADD + body("s.set_source('a', ra, oa, n)\ns.set_source('b', rb, ob, n)\ns.set_sink('c', rc, oc, n)\n" + RUN), R3,
    lambda M, a: [M['rc'].wr(K(a['oc']) + K(i), v, t.zresize(a['n'], 8).ugt(i)) for i, v in enumerate([M['ra'].rd(K(a['oa']) + K(i)) + M['rb'].rd(K(a['ob']) + K(i)) for i in range(6)])],
    dict(A3, n=3), pre=lambda a: [a['n'].uge(1), a['n'].ule(6)])
add('size_whole', stream() + CP + body("s.set_source('a', ra, oa, 16)\ns.set_sink('c', rc, oc, 16)\n" + RUN), R2, cpref(lambda a: lin(a['oa'], 16), lambda a: lin(a['oc'], 16)), {'oa': 4, 'oc': 4})
# strides
for n, st in ((3, 2), (4, 3), (3, -1), (2, 0), (3, 5)):
    add('stride_%d_%s' % (n, str(st).replace('-', 'm')), stream() + ADD + body("s.set_source('a', ra, oa, %d, stride=%d)\ns.set_source('b', rb, ob, %d)\ns.set_sink('c', rc, oc, %d, stride=%d)\n" % (n, st, n, n, -st if st else 0) + RUN),
        R3, addref(lambda a, n=n, st=st: lin(a['oa'], n, st & 255), lambda a, n=n: lin(a['ob'], n), lambda a, n=n, st=st: lin(a['oc'], n, -st & 255)), A3)
add('stride_sym', stream() + ADD + body("s.set_source('a', ra, oa, 3, sa)\ns.set_source('b', rb, ob, 3, 2)\ns.set_sink('c', rc, oc, 3, sc)\n" + RUN), R3,
    addref(lambda a: lin(a['oa'], 3, a['sa']), lambda a: lin(a['ob'], 3, 2), lambda a: lin(a['oc'], 3, a['sc'])), dict(A3, sa=4, sc=4))
# patterns
PATS = [((4, 1),), ((2, 1), (2, 4)), ((2, 3), (3, 1)), ((2, 1), (2, 2), (2, 4)), ((1, 1), (3, 5)), ((3, 0), (2, 1)), ((2, 8), (1, 3), (3, 1)), ((2, 1), (1, 0), (2, 2), (2, 4)), ((2, 5), (2, 0), (1, 7), (2, 1))]
for i, p in enumerate(PATS):
    n = 1
    for q, _ in p:
        n *= q
    add('pat_src_%d' % i, stream() + ADD + body("s.set_source_pattern('a', ra, oa, %r)\ns.set_source('b', rb, ob, %d)\ns.set_sink('c', rc, oc, %d)\n" % (p, n, n) + RUN), R3,
        addref(lambda a, p=p: pat(a['oa'], p), lambda a, n=n: lin(a['ob'], n), lambda a, n=n: lin(a['oc'], n)), A3)
    add('pat_sink_%d' % i, stream() + CP + body("s.set_source('a', ra, oa, %d)\ns.set_sink_pattern('c', rc, oc, %r)\n" % (n, p) + RUN), R2,
        cpref(lambda a, n=n: lin(a['oa'], n), lambda a, p=p: pat(a['oc'], p)), A3)
    q = PATS[(i + 3) % len(PATS)]
    k = 1
    for x, _ in q:
        k *= x
    if n == k:
        add('pat_both_%d' % i, stream() + CP + body("s.set_source_pattern('a', ra, oa, %r)\ns.set_sink_pattern('c', rc, oc, %r)\n" % (p, q) + RUN), R2,
            cpref(lambda a, p=p: pat(a['oa'], p), lambda a, q=q: pat(a['oc'], q)), A3)
add('pat_flat', stream() + CP + body("s.set_source_pattern('a', ra, oa, (4, 2))\ns.set_sink_pattern('c', rc, oc, (4, 3))\n" + RUN), R2, cpref(lambda a: lin(a['oa'], 4, 2), lambda a: lin(a['oc'], 4, 3)), {'oa': 4, 'oc': 4})
add('pat_strides_sym', stream() + CP + body("s.set_source_pattern('a', ra, oa, ((2, p), (2, q)))\ns.set_sink_pattern('c', rc, oc, ((2, q), (2, p)))\n" + RUN), R2,
    cpref(lambda a: pat(a['oa'], ((2, a['p']), (2, a['q']))), lambda a: pat(a['oc'], ((2, a['q']), (2, a['p'])))), {'oa': 4, 'oc': 4, 'p': 4, 'q': 4})
add('pat_sizes_sym', stream() + CP + body("s.set_source_pattern('a', ra, oa, ((n, 1), (k, 4)))\ns.set_sink_pattern('c', rc, oc, ((n, 4), (k, 1)))\n" + RUN), R2,
    lambda M, a: [M['rc'].wr(K(a['oc']) + K(4 * i + j), v, t.and_(t.zresize(a['n'], 8).ugt(i), t.zresize(a['k'], 8).ugt(j)))
                  for (j, i), v in [((j, i), M['ra'].rd(K(a['oa']) + K(i + 4 * j)) + 1) for j in range(3) for i in range(3)]],
    {'oa': 4, 'oc': 4, 'n': 2, 'k': 2}, pre=lambda a: [a['n'].ne(0), a['k'].ne(0)])
add('pat_stall', stream() + ADD + body("s.set_source_pattern('a', ra, 3, ((2, 1), (2, 4)))\ns.set_source('b', rb, 5, 4)\ns.set_sink_pattern('c', rc, 2, ((2, 3), (2, 1)))\n" + RUN), R3,
    addref(lambda a: pat(3, ((2, 1), (2, 4))), lambda a: lin(5, 4), lambda a: pat(2, ((2, 3), (2, 1)))), stalls=W8)
# multi-dimensional
for i, (sh, od) in enumerate([((2, 3), None), ((2, 3), (0, 1)), ((2, 2, 2), (1, 2, 0)), ((3, 2), (1, 0)), ((4,), None), ((2, 2, 2), (0,)), ((2, 2, 1, 2), (3, 0, 2, 1))]):
    o = '' if od is None else ', order=%r' % (od,)
    n = len(dims(0, sh, od))
    add('dim_src_%d' % i, stream() + CP + body("s.set_source_multidim('a', ra, oa, %r%s)\ns.set_sink('c', rc, oc, %d)\n" % (sh, o, n) + RUN), R2,
        cpref(lambda a, sh=sh, od=od: dims(a['oa'], sh, od), lambda a, n=n: lin(a['oc'], n)), {'oa': 4, 'oc': 4})
    add('dim_sink_%d' % i, stream() + CP + body("s.set_source('a', ra, oa, %d)\ns.set_sink_multidim('c', rc, oc, %r%s)\n" % (n, sh, o) + RUN), R2,
        cpref(lambda a, n=n: lin(a['oa'], n), lambda a, sh=sh, od=od: dims(a['oc'], sh, od)), {'oa': 4, 'oc': 4})
# multi-pattern
MP = [((0, 8), (((2, 1), (2, 2)), ((2, 2), (2, 1)))), ((1, 6), (((2, 1),), ((3, 2),))), ((3, 9), (((3, 2),), ((2, 1), (2, 2)))), ((5,), (((2, 1), (2, 3)),)), ((2, 7), (((2, 1), (3, 2)), ((2, 1),)))]
for i, (off, ps) in enumerate(MP):
    n = sum(len(pat(0, p)) for p in ps)
    add('multi_src_%d' % i, stream() + CP + body("s.set_source_multipattern('a', ra, %r, %r)\ns.set_sink('c', rc, oc, %d)\n" % (off, ps, n) + RUN), R2,
        cpref(lambda a, off=off, ps=ps: sum([pat(o, p) for o, p in zip(off, ps)], []), lambda a, n=n: lin(a['oc'], n)), {'oc': 4})
    add('multi_sink_%d' % i, stream() + CP + body("s.set_source('a', ra, oa, %d)\ns.set_sink_multipattern('c', rc, %r, %r)\n" % (n, off, ps) + RUN), R2,
        cpref(lambda a, n=n: lin(a['oa'], n), lambda a, off=off, ps=ps: sum([pat(o, p) for o, p in zip(off, ps)], [])), {'oa': 4})
add('multi_3', stream(', max_multipattern_length=3') + CP + body("s.set_source_multipattern('a', ra, (oa, ob, 3), (((2, 1),), ((2, 3),), ((2, 1), (1, 1))))\ns.set_sink_multipattern('c', rc, (oc, 2, 9), (((2, 2),), ((2, 1),), ((2, 3),)))\n" + RUN), R2,
    cpref(lambda a: lin(a['oa'], 2) + lin(a['ob'], 2, 3) + lin(3, 2), lambda a: lin(a['oc'], 2, 2) + lin(2, 2) + lin(9, 2, 3)), A3)
add('multi_one_offset', stream() + CP + body("s.set_source_multipattern('a', ra, oa, (((2, 1),), ((2, 3),)))\ns.set_sink('c', rc, oc, 4)\n" + RUN), R2,
    cpref(lambda a: lin(a['oa'], 2) + lin(a['oa'], 2, 3), lambda a: lin(a['oc'], 4)), A3)
# address generators
GEN = '''
def ga(addr, n, o):
    last = (addr == n + o - 1)
    return last, addr + 1
def gb(addr, k, stp):
    return k == 3, addr + stp, k + 1
'''
add('gen_src', stream() + CP + GEN + body("s.set_source_generator('a', ra, func=ga, initvals=(oa,), args=(4, oa))\ns.set_sink('c', rc, oc, 4)\n" + RUN), R2,
    cpref(lambda a: lin(a['oa'], 4), lambda a: lin(a['oc'], 4)), {'oa': 4, 'oc': 4})
add('gen_sink', stream() + CP + GEN + body("s.set_source('a', ra, oa, 4)\ns.set_sink_generator('c', rc, func=ga, initvals=(oc,), args=(4, oc))\n" + RUN), R2,
    cpref(lambda a: lin(a['oa'], 4), lambda a: lin(a['oc'], 4)), {'oa': 4, 'oc': 4})
add('gen_two_vars', stream() + CP + GEN + body("s.set_source_generator('a', ra, func=gb, initvals=(oa, 0), args=(p,))\ns.set_sink_generator('c', rc, gb, (oc, 0), (q,))\n" + RUN), R2,
    cpref(lambda a: lin(a['oa'], 4, a['p']), lambda a: lin(a['oc'], 4, a['q'])), {'oa': 4, 'oc': 4, 'p': 4, 'q': 4})
add('gen_thread_vars', stream() + CP + GEN + body("x = oa + 1\ny = oc + 2\ns.set_source_generator('a', ra, func=gb, initvals=(x, 0), args=(p,))\ns.set_sink_generator('c', rc, gb, (y, 0), (q,))\n" + RUN), R2,
    cpref(lambda a: lin(K(a['oa']) + K(1), 4, a['p']), lambda a: lin(K(a['oc']) + K(2), 4, a['q'])), {'oa': 4, 'oc': 4, 'p': 4, 'q': 4})
add('gen_twice', stream() + CP + GEN + body("for i in range(2):\n    s.set_source_generator('a', ra, gb, (oa + i * 4, 0), (1,))\n    s.set_sink_generator('c', rc, gb, (oc + i * 8, 0), (2,))\n    s.run()\n    s.join()\n"), R2,
    cpref(lambda a: lin(a['oa'], 8), lambda a: lin(a['oc'], 8, 2)), {'oa': 4, 'oc': 4})
add('gen_multi', stream() + CP + GEN + body("s.set_source_generator('a', ra, gb, (oa, 0), (1,))\ns.set_sink_generator('c', rc, gb, (oc, 0), (1,))\n" + RUN
                                            + "s.set_source_generator('a', ra, ga, (oa,), (3, oa))\ns.set_sink_generator('c', rc, ga, (8,), (3, 8))\n" + RUN), R2,
    cpref(lambda a: lin(a['oa'], 4) + lin(a['oa'], 3), lambda a: lin(a['oc'], 4) + lin(8, 3)), {'oa': 4, 'oc': 4})
add('gen_stall', stream() + CP + GEN + body("s.set_source_generator('a', ra, func=gb, initvals=(3, 0), args=(2,))\ns.set_sink_generator('c', rc, gb, (4, 0), (3,))\n" + RUN), R2,
    cpref(lambda a: lin(3, 4, 2), lambda a: lin(4, 4, 3)), stalls=W8)

# the same memory on several ports, several sinks
add('two_sources_one_ram', stream() + ADD + body("s.set_source('a', r, oa, 4, port=0)\ns.set_source('b', r, ob, 4, port=1)\ns.set_sink('c', rc, oc, 4)\n" + RUN), {'r': (8, 4, {'numports': 2}), 'rc': (8, 4)},
    lambda M, a: [M['rc'].wr(K(a['oc']) + K(i), v) for i, v in enumerate([M['r'].rd(K(a['oa']) + K(i)) + M['r'].rd(K(a['ob']) + K(i)) for i in range(4)])], A3)
add('in_place', stream() + CP + body("s.set_source('a', r, oa, 4, port=0)\ns.set_sink('c', r, oa, 4, port=1)\n" + RUN), {'r': (8, 4, {'numports': 2})},
    cpref(lambda a: lin(a['oa'], 4), lambda a: lin(a['oa'], 4), 'r', 'r'), {'oa': 4})
add('three_ports', stream() + ADD + body("s.set_source('a', r, 0, 4, port=0)\ns.set_source('b', r, 4, 4, port=1)\ns.set_sink('c', r, 8, 4, port=2)\n" + RUN), {'r': (8, 4, {'numports': 3})},
    lambda M, a: [M['r'].wr(8 + i, v) for i, v in enumerate([M['r'].rd(i) + M['r'].rd(4 + i) for i in range(4)])])
add('one_port', stream() + CP + body("s.set_source('a', ra, oa, 4)\ns.set_sink('c', rc, oc, 4)\n" + RUN), {'ra': (8, 4, {'numports': 1}), 'rc': (8, 4, {'numports': 1})},
    cpref(lambda a: lin(a['oa'], 4), lambda a: lin(a['oc'], 4)), {'oa': 4, 'oc': 4})
TWO = "a = s.source('a')\nb = s.source('b')\ns.sink(a + b, 'c')\ns.sink(a - b, 'd')\ns.sink(a, 'e')\n"
add('three_sinks', stream() + TWO + body("s.set_source('a', ra, oa, 3)\ns.set_source('b', rb, ob, 3)\ns.set_sink('c', rc, oc, 3)\ns.set_sink('d', rd, ob, 3, 2)\ns.set_sink('e', re, oa, 2)\n" + RUN),
    dict(R3, rd=(8, 4), re=(8, 4)),
    lambda M, a: [(M['rc'].wr(K(a['oc']) + K(i), x + y), M['rd'].wr(K(a['ob']) + K(2 * i), x - y), M['re'].wr(K(a['oa']) + K(i), x) if i < 2 else 0)
                  for i, (x, y) in enumerate([(M['ra'].rd(K(a['oa']) + K(i)), M['rb'].rd(K(a['ob']) + K(i))) for i in range(3)])], A3)
add('alias_sinks', stream() + "a = s.source('a')\nb = a + 1\ns.sink(b, 'c')\ns.sink(b, 'd')\n" + body("s.set_source('a', ra, oa, 3)\ns.set_sink('c', rc, oc, 3)\ns.set_sink('d', rd, oa, 3)\n" + RUN), {'ra': (8, 4), 'rc': (8, 4), 'rd': (8, 4)},
    lambda M, a: [(M['rc'].wr(K(a['oc']) + K(i), x + 1), M['rd'].wr(K(a['oa']) + K(i), x + 1)) for i, x in enumerate([M['ra'].rd(K(a['oa']) + K(i)) for i in range(3)])], {'oa': 4, 'oc': 4})
add('sizes_differ', stream() + TWO + body("s.set_source('a', ra, oa, 4)\ns.set_source('b', rb, ob, 4)\ns.set_sink('c', rc, oc, 2)\ns.set_sink('d', rd, ob, 4)\ns.set_sink('e', re, oa, 1)\n" + RUN), dict(R3, rd=(8, 4), re=(8, 4)),
    lambda M, a: [(M['rc'].wr(K(a['oc']) + K(i), x + y) if i < 2 else 0, M['rd'].wr(K(a['ob']) + K(i), x - y), M['re'].wr(K(a['oa']) + K(i), x) if i < 1 else 0)
                  for i, (x, y) in enumerate([(M['ra'].rd(K(a['oa']) + K(i)), M['rb'].rd(K(a['ob']) + K(i))) for i in range(4)])], A3)
# a reduction needs fewer results than elements
add('sum', stream() + "a = s.source('a')\nx, v = s.ReduceAddValid(a, 4)\ns.sink(x, 'c', when=v, when_name='v')\n" + body("s.set_source('a', ra, oa, 8)\ns.set_sink('c', rc, oc, 2)\n" + RUN), R2,
    lambda M, a: [M['rc'].wr(K(a['oc']) + K(j), v) for j, v in enumerate([sum4([M['ra'].rd(K(a['oa']) + K(4 * j + i)) for i in range(4)]) for j in range(2)])], {'oa': 4, 'oc': 4})
WHEN = "a = s.source('a')\nw = a[0] == 1\ns.sink(a + 1, 'c', when=w, when_name='w')\n"


def whenref(n, adr, lim=99):
    def ref(M, a):
        vals = [M['ra'].rd(K(a['oa']) + K(i)) for i in range(n)]
        k = const(0, 8)
        for v in vals:
            hit = t.extract(v, 0, 0).eq(1)
            if lim < 99:
                hit = t.and_(hit, k.ult(lim))
            M['rc'].wr(adr(a, k), v + 1, hit)
            k = ite(hit, k + 1, k)
    return ref


def psel(off, p):
    ads = pat(off, p)

    def f(a, k):
        return t.select(ads + [ads[0]] * (16 - len(ads)), t.extract(k, 3, 0))
    return f


for n, lim in ((3, 3), (3, 2), (4, 1)):
    add('when_%d_%d' % (n, lim), stream() + WHEN + body("s.set_source('a', ra, oa, %d)\ns.set_sink('c', rc, oc, %d)\n" % (n, lim) + RUN), R2, whenref(n, lambda a, k: K(a['oc']) + k, lim), {'oa': 4, 'oc': 4}, autosplit=False, cycles=40)
add('when_max', stream() + WHEN + body("s.set_source('a', ra, oa, 3)\ns.set_sink('c', rc, oc, 0)\n" + RUN), R2, whenref(3, lambda a, k: K(a['oc']) + k), {'oa': 4, 'oc': 4}, autosplit=False, cycles=40)
add('when_pat', stream() + WHEN + body("s.set_source('a', ra, 2, 4)\ns.set_sink_pattern('c', rc, 1, ((2, 1), (2, 8)))\n" + RUN), R2, lambda M, a: whenref(4, psel(1, ((2, 1), (2, 8))))(M, {'oa': const(2, 4)}), cycles=40, autosplit=False)
add('when_multi', stream() + WHEN + body("s.set_source('a', ra, 2, 4)\ns.set_sink_multipattern('c', rc, (1, 9), (((2, 1),), ((2, 3),)))\n" + RUN), R2,
    lambda M, a: whenref(4, lambda a, k: t.select([K(1), K(2), K(9), K(12)] * 4, t.extract(k, 3, 0)))(M, {'oa': const(2, 4)}), cycles=40, autosplit=False)
add('when_gen', stream() + WHEN + GEN + body("s.set_source('a', ra, 2, 4)\ns.set_sink_generator('c', rc, gb, (1, 0), (3,))\n" + RUN), R2, lambda M, a: whenref(4, lambda a, k: K(1) + k * 3)(M, {'oa': const(2, 4)}), cycles=40, autosplit=False)
# widths and formats
add('wide', stream(dw=16) + ADD + body("s.set_source('a', ra, oa, 3)\ns.set_source('b', rb, ob, 3)\ns.set_sink('c', rc, oc, 3)\n" + RUN), {k: (16, 3) for k in R3}, addref(lambda a: lin(a['oa'], 3), lambda a: lin(a['ob'], 3), lambda a: lin(a['oc'], 3)), A3)
add('aw32', "s = vthread.Stream(m, 's', CLK, RST)\na = s.source('a', datawidth=8)\ns.sink(a + 1, 'c')\n" + body("s.set_source('a', ra, oa, 3)\ns.set_sink('c', rc, oc, 3)\n" + RUN), R2, cpref(lambda a: lin(a['oa'], 3), lambda a: lin(a['oc'], 3)), {'oa': 4, 'oc': 4})
add('unsigned', stream() + "a = s.source('a', signed=False)\nb = s.source('b', signed=False)\ns.sink(s.Mux(a > b, a, b), 'c')\n" + body("s.set_source('a', ra, oa, 3)\ns.set_source('b', rb, ob, 3)\ns.set_sink('c', rc, oc, 3)\n" + RUN), R3,
    lambda M, a: [M['rc'].wr(K(a['oc']) + K(i), ite(x.ugt(y), x, y)) for i, (x, y) in enumerate([(M['ra'].rd(K(a['oa']) + K(i)), M['rb'].rd(K(a['ob']) + K(i))) for i in range(3)])], A3)
add('signed', stream() + "a = s.source('a')\nb = s.source('b')\ns.sink(s.Mux(a > b, a, b), 'c')\n" + body("s.set_source('a', ra, oa, 3)\ns.set_source('b', rb, ob, 3)\ns.set_sink('c', rc, oc, 3)\n" + RUN), R3,
    lambda M, a: [M['rc'].wr(K(a['oc']) + K(i), ite(x.sgt(y), x, y)) for i, (x, y) in enumerate([(M['ra'].rd(K(a['oa']) + K(i)), M['rb'].rd(K(a['ob']) + K(i))) for i in range(3)])], A3)
add('fixed', stream() + "a = s.source('a', point=4)\nb = s.source('b', point=2)\ns.sink(a + b, 'c')\n" + body("s.set_source('a', ra, oa, 3)\ns.set_source('b', rb, ob, 3)\ns.set_sink('c', rc, oc, 3)\n" + RUN), R3,
    lambda M, a: [M['rc'].wr(K(a['oc']) + K(i), x + t.shl(y, const(2, 8))) for i, (x, y) in enumerate([(M['ra'].rd(K(a['oa']) + K(i)), M['rb'].rd(K(a['ob']) + K(i))) for i in range(3)])], A3)
add('as_module', stream(', fsm_as_module=True') + ADD + body("s.set_source_pattern('a', ra, oa, ((2, 1), (2, 4)))\ns.set_source('b', rb, ob, 4)\ns.set_sink('c', rc, oc, 4)\n" + RUN), R3,
    addref(lambda a: pat(a['oa'], ((2, 1), (2, 4))), lambda a: lin(a['ob'], 4), lambda a: lin(a['oc'], 4)), A3)
add('latency', stream() + "a = s.source('a')\nb = s.source('b')\nc = a * b\nc.latency = 7\nd = a + b\nd.latency = 3\ns.sink(c - d, 'c')\n" + body("s.set_source('a', ra, 3, 3)\ns.set_source('b', rb, 5, 3)\ns.set_sink('c', rc, 2, 3)\n" + RUN), R3,
    lambda M, a: [M['rc'].wr(K(2) + K(i), x * y - (x + y)) for i, (x, y) in enumerate([(M['ra'].rd(K(3) + K(i)), M['rb'].rd(K(5) + K(i))) for i in range(3)])])
# parameters and constants
add('param', stream() + "a = s.source('a')\np = s.parameter('p')\nk = s.Int(5)\ns.sink(a * p + k, 'c')\n" + body("s.set_source('a', ra, oa, 3)\ns.set_parameter('p', pv)\ns.set_sink('c', rc, oc, 3)\n" + RUN), R2,
    lambda M, a: [M['rc'].wr(K(a['oc']) + K(i), v) for i, v in enumerate([M['ra'].rd(K(a['oa']) + K(i)) * a['pv'] + 5 for i in range(3)])], {'oa': 4, 'oc': 4, 'pv': 8})
add('empty_source', stream() + ADD + body("s.set_source('a', ra, oa, 3)\ns.set_source_empty('b', pv)\ns.set_sink('c', rc, oc, 3)\n" + RUN), R3,
    lambda M, a: [M['rc'].wr(K(a['oc']) + K(i), v) for i, v in enumerate([M['ra'].rd(K(a['oa']) + K(i)) + a['pv'] for i in range(3)])], {'oa': 4, 'oc': 4, 'pv': 8})
add('empty_default', stream() + ADD + body("s.set_source('a', ra, oa, 3)\ns.set_source_empty('b')\ns.set_sink('c', rc, oc, 3)\n" + RUN), R3,
    lambda M, a: [M['rc'].wr(K(a['oc']) + K(i), v) for i, v in enumerate([M['ra'].rd(K(a['oa']) + K(i)) for i in range(3)])], {'oa': 4, 'oc': 4})
add('empty_sink', stream() + TWO + body("s.set_source('a', ra, oa, 3)\ns.set_source('b', rb, ob, 3)\ns.set_sink('c', rc, oc, 3)\ns.set_sink_empty('d')\ns.set_sink_empty('e')\n" + RUN), dict(R3, rd=(8, 4)),
    addref(lambda a: lin(a['oa'], 3), lambda a: lin(a['ob'], 3), lambda a: lin(a['oc'], 3)), A3)
# copies
for nm, sp, dp, n in (('copy', '1, 1', None, 4), ('copy_stride', '2, 3', None, 3)):
    x, y = [int(q) for q in sp.split(',')]
    add(nm, COMP.replace('%s', "    vthread.copy(ra, rc, oa, oc, %d, %s)" % (n, sp)) + 's = None\n', R2, cpref(lambda a, n=n, x=x: lin(a['oa'], n, x), lambda a, n=n, y=y: lin(a['oc'], n, y), f=lambda v: v), {'oa': 4, 'oc': 4})
add('copy_other', body("vthread.copy(rc, ra, oa, oc, n)\nvthread.copy(ra, rc, oc, 8, 2)\n"), R2,
    lambda M, a: [cpref(lambda a: lin(a['oa'], 3), lambda a: lin(a['oc'], 3), 'rc', 'ra', lambda v: v)(M, a), cpref(lambda a: lin(a['oc'], 2), lambda a: lin(8, 2), f=lambda v: v)(M, a)],
    {'oa': 4, 'oc': 4, 'n': 4}, pre=lambda a: [a['n'].eq(3)])
add('copy_pattern', body("vthread.copy_pattern(ra, rc, oa, oc, ((2, 1), (2, 4)), ((4, -1),))\n"), R2, cpref(lambda a: pat(a['oa'], ((2, 1), (2, 4))), lambda a: lin(a['oc'], 4, 255), f=lambda v: v), {'oa': 4, 'oc': 4})
add('copy_both', body("vthread.copy(ra, rc, oa, 0, 2)\nvthread.copy_pattern(ra, rc, oa, 4, ((2, 1), (2, 4)), ((4, 1),))\n"), R2,
    cpref(lambda a: lin(a['oa'], 2) + pat(a['oa'], ((2, 1), (2, 4))), lambda a: lin(0, 2) + lin(4, 4), f=lambda v: v), {'oa': 4})
add('copy_two_designs', "def d():\n    m = vg.Module('other')\n    clk, rst = m.Input('CLK'), m.Input('RST')\n    ra = vthread.RAM(m, 'ra', clk, rst, 8, 4)\n    rc = vthread.RAM(m, 'rc', clk, rst, 8, 4)\n"
    "    def cp():\n        vthread.copy(ra, rc, 1, 2, 3)\n    vthread.Thread(m, 'th', clk, rst, cp).start()\n    return m\nd().to_verilog()\n" + body("vthread.copy(ra, rc, oa, oc, 3)\n"), R2,
    cpref(lambda a: lin(a['oa'], 3), lambda a: lin(a['oc'], 3), f=lambda v: v), {'oa': 4, 'oc': 4})
add('copy_wide', body("vthread.copy(ra, rc, oa, oc, 3)\n"), {'ra': (40, 3), 'rc': (40, 3)}, cpref(lambda a: lin(a['oa'], 3), lambda a: lin(a['oc'], 3), f=lambda v: v), {'oa': 3, 'oc': 3})

"""C35: AXI stream interfaces."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from checks.axi import Lst, Chan, acc, K, CW, build, taxi
from checks.tstrm import Mem

R = Registry('C35', 'symbolic execution of the generated stream interface hardware with symbolic words, last flags, sizes and ready/valid timing; z3 decides every cycle',
             ['veriloggen/thread/axistreamin.py', 'veriloggen/thread/axistreamout.py', 'veriloggen/thread/axim_for_axistream.py', 'veriloggen/types/axi.py',
              'veriloggen/types/fifo.py', 'veriloggen/thread/fifo.py', 'veriloggen/thread/ram.py', 'veriloggen/types/ram.py', 'veriloggen/seq/seq.py', 'veriloggen/fsm/fsm.py'],
             assumptions=['the other side of a stream keeps valid, data and last until ready', 'transfers of at least one word'],
             explanation='up to 8 words per run; ready and valid symbolic in windows of up to 16 cycles; words, last flags, sizes, addresses and strides symbolic')


class Source(object):
    """sends the words R with the side information S while the design accepts them"""

    def __init__(self, c, h, p, win, n=6, dw=8):
        self.c, self.h, self.p, self.win = c, h, p, win
        self.dw = dw
        self.R = [c.fresh('%s_word%d' % (p, i), dw) for i in range(n)]
        self.side = [x for x in ('tlast', 'tuser', 'tid', 'tdest', 'tstrb') if h.has('%s_%s' % (p, x))]
        self.S = dict((x, [c.fresh('%s_%s%d' % (p, x, i), h.width('%s_%s' % (p, x))) for i in range(n)]) for x in self.side)
        self.cnt = K(0)
        self.hold = t.false()
        self.s = 0
        self.bad = {}

    def idle(self):
        for x in ['tdata', 'tvalid'] + self.side:
            self.h.set('%s_%s' % (self.p, x), 0)

    def drive(self):
        h, p = self.h, self.p
        sym = self.c.fresh('%s_valid%d' % (p, self.s), 1) if self.s in self.win else t.true()
        self.v = t.and_(self.cnt.ult(len(self.R)), t.or_(self.hold, sym))
        h.set(p + '_tvalid', self.v)
        h.set(p + '_tdata', t.select(self.R, self.cnt, const(0, self.dw)))
        for x in self.side:
            h.set('%s_%s' % (p, x), t.select(self.S[x], self.cnt, const(0, self.S[x][0].w)))

    def look(self):
        r = self.h.get(self.p + '_tready')
        self.hold = t.and_(self.v, t.not_(r))
        self.cnt = ite(t.and_(self.v, r), self.cnt + 1, self.cnt)
        self.s += 1


class Sink(object):
    """collects the words the design sends"""

    def __init__(self, c, h, p, win, n=8, dw=8):
        self.c, self.h, self.p, self.win = c, h, p, win
        self.side = [x for x in ('tlast', 'tuser', 'tid', 'tdest', 'tstrb') if h.has('%s_%s' % (p, x))]
        self.W = Lst(n, dw)
        self.S = dict((x, Lst(n, h.width('%s_%s' % (p, x)))) for x in self.side)
        self.ch = Chan(p + '_tvalid', p + '_tready', ['%s_%s' % (p, x) for x in ['tdata'] + self.side])
        self.s = 0
        self.bad = {}

    def idle(self):
        self.h.set(self.p + '_tready', 0)

    def drive(self):
        self.h.set(self.p + '_tready', self.c.fresh('%s_ready%d' % (self.p, self.s), 1) if self.s in self.win else t.true())

    def look(self):
        f, p = self.ch.look(self.h, self.bad, self.p)
        self.W.push(p[0], f)
        for x, v in zip(self.side, p[1:]):
            self.S[x].push(v, f)
        self.s += 1


def tst(src, rams=None, ref=None, args=None, outs=None, cycles=60, ins=None, sos=None, pre=None, extra=6, nocount=(), done=True, busy=0):
    """ins: {name: (window, words, datawidth)}, sos: {name: (window, slots, datawidth)};
    ref(M, a, e): M[ram] updated; returns {out: term, input name: number of accepted words, output name: ([(word, {side: value})], count)}"""
    def sc(c):
        info = c.built('info', dict)
        h = c.hw(c.verilog('d', lambda: build(src, rams, args, outs, info)), 'dut')
        a = {}
        for n, w in (args or {}).items():
            w = w[0] if isinstance(w, tuple) else w
            a[n] = c.fresh(n, w)
            h.set(n, a[n])
        for q in (pre(a) if pre else ()):
            c.assume(q)
        e = {}
        for n, (win, k, dw) in (ins or {}).items():
            e[n] = Source(c, h, n, win, k, dw)
        for n, (win, k, dw) in (sos or {}).items():
            e[n] = Sink(c, h, n, win, k, dw)
        for b in e.values():
            b.idle()
        h.reset()
        names = [(n, 'inst_%s.mem' % n, r) for n, r in (rams or {}).items()]
        M = {}
        for n, path, r in names:
            M[n] = Mem([h.get(path, i) for i in range(2 ** r[1])], r[1])
        exp = ref(M, a, e)
        th = info.get('th')
        end = max([0] + [max(x[0]) + 1 for x in list((ins or {}).values()) + list((sos or {}).values()) if len(x[0])])

        def look():
            for b in e.values():
                b.drive()
            for b in e.values():
                b.look()
        s = 0
        while s < cycles:
            st = h.get(th[0])
            if st.op == 'const' and t.sval(st) == th[1] and s >= end:
                break
            look()
            h.step()
            s += 1
        c.check('the thread finishes', h.get(th[0]).eq(th[1]), 'state after %d cycles' % cycles)
        for s in range(extra):
            look()
            h.step()
        for n, path, r in names:
            for i in range(2 ** r[1]):
                c.check('%s[%d]' % (n, i), h.get(path, i).eq(M[n].w[i]))
        for n, b in e.items():
            for k, q in sorted(b.bad.items()):
                c.check(k, t.not_(q))
            if isinstance(b, Source):
                if n not in nocount:
                    v = exp.pop(n)
                    c.check('%s: words accepted' % n, b.cnt.eq(t.zresize(v, CW) if isinstance(v, t.T) else v))
                else:
                    exp.pop(n, None)
            else:
                words, cnt = exp.pop(n)
                cnt = t.zresize(cnt, CW) if isinstance(cnt, t.T) else K(cnt)
                c.check('%s: words sent' % n, b.W.n.eq(cnt))
                for j, (v, side) in enumerate(words):
                    live = cnt.ugt(j)
                    c.check('%s: word %d' % (n, j), t.implies(live, b.W.v[j].eq(v)))
                    for x, q in side.items():
                        c.check('%s: %s of word %d' % (n, x, j), t.implies(live, b.S[x].v[j].eq(q)))
        for o, v in exp.items():
            g = h.get(o)
            c.check(o, g.eq(t.sresize(v, g.w) if isinstance(v, t.T) else v))
    return sc


def th(body, pre=''):
    return pre + 'def f():\n' + ''.join('    %s\n' % l for l in body.strip('\n').split('\n')) + "th = vthread.Thread(m, 'th', CLK, RST, f)\nth.start()\n"


SI = "si = vthread.AXIStreamIn(m, 'si', CLK, RST, %d%s)\n"
SO = "so = vthread.AXIStreamOut(m, 'so', CLK, RST, %d%s)\n"
r = range


def out(words, cnt, last=None):
    """last: index (term or int) of the word that carries the flag"""
    return ([(w, {} if last is None else {'tlast': (t.b2bv(last.eq(i)) if hasattr(t, 'b2bv') else ite(last.eq(i), const(1, 1), const(0, 1))) if isinstance(last, t.T) else const(int(i == last), 1)})
             for i, w in enumerate(words)], cnt)


# ---- single words ---------------------------------------------------------------------------------------------------
def rd1(M, a, e):
    s = e['si']
    return {'si': 3, 'o0': s.R[0], 'o1': s.R[1], 'o2': s.R[2], 'l0': s.S['tlast'][0], 'l1': s.S['tlast'][1], 'l2': s.S['tlast'][2]}


O3 = {'o0': 8, 'o1': 8, 'o2': 8, 'l0': (1, False), 'l1': (1, False), 'l2': (1, False)}
R.add('read', tst(th('''v, l = si.read()
o0.value = v
l0.value = l
v, l = si.read()
o1.value = v
l1.value = l
v, l = si.read()
o2.value = v
l2.value = l''', SI % (8, '')), None, rd1, outs=O3, ins={'si': (r(0, 20), 5, 8)}, cycles=60))
R.add('read_loop_until_last', tst(th('''s = 0
n = 0
l = 0
while not l and n < 4:
    v, l = si.read()
    s = s + v
    n = n + 1
o0.value = s
o1.value = n''', SI % (8, '')), None, lambda M, a, e: (lambda cs: {'si': cs[-1][0], 'o0': cs[-1][1], 'o1': cs[-1][0]})(functools_reduce(e['si'])), outs={'o0': 16, 'o1': 8},
    ins={'si': (r(0, 14), 5, 8)}, cycles=80))


def functools_reduce(s):
    n, acc_, fin = const(0, 8), const(0, 16), t.false()
    for i in range(4):
        acc_ = ite(fin, acc_, acc_ + s.R[i].sx(16))
        n = ite(fin, n, n + 1)
        fin = t.or_(fin, s.S['tlast'][i].nz())
    return [(n, acc_)]


R.add('read_nolast', tst(th('''v, l = si.read()
o0.value = v
v, l = si.read()
o1.value = v''', SI % (8, ', with_last=False')), None, lambda M, a, e: {'si': 2, 'o0': e['si'].R[0], 'o1': e['si'].R[1]}, outs={'o0': 8, 'o1': 8}, ins={'si': (r(0, 14), 4, 8)}))
R.add('write', tst(th('''so.write(x)
so.write(y, last=1)
so.write(x + y)
so.write(z, last=k)''', SO % (8, '')), None, lambda M, a, e: {'so': ([(a['x'], {'tlast': const(0, 1)}), (a['y'], {'tlast': const(1, 1)}), (a['x'] + a['y'], {'tlast': const(0, 1)}),
                                                                      (a['z'], {'tlast': a['k']})], 4)},
    args={'x': 8, 'y': 8, 'z': 8, 'k': 1}, sos={'so': (r(0, 22), 6, 8)}, cycles=60))
R.add('write_nolast', tst(th('so.write(x)\nso.write(y)', SO % (8, ', with_last=False')), None, lambda M, a, e: {'so': out([a['x'], a['y']], 2)}, args={'x': 8, 'y': 8}, sos={'so': (r(0, 14), 4, 8)}))
R.add('loopback', tst(th('''for i in range(4):
    v, l = si.read()
    so.write(v + 1, last=l)''', SI % (8, '') + SO % (8, '')), None, lambda M, a, e: {'si': 4, 'so': ([(v + 1, {'tlast': l}) for v, l in zip(e['si'].R, e['si'].S['tlast'])][:4], 4)},
    ins={'si': (r(0, 14), 5, 8)}, sos={'so': (r(4, 20), 6, 8)}, cycles=90))


# ---- transfers between a stream and a RAM -------------------------------------------------------------------------------
def dma_in(words_per=1, sdw=8, rdw=8, calls=(('a', 's', 'st'),), n=4):
    """expected effect of dma_read calls (addr, size, stride arguments): RAM words from the stream words"""
    def ref(M, a, e):
        s = e['si']
        V = lambda k, w: const(k, w) if isinstance(k, int) else t.zresize(a[k], w)
        base = K(0)
        for ad, sz, st in calls:
            size = V(sz, CW)
            for j in range(n):
                live = size.ugt(j)
                if sdw == rdw:
                    v = t.select(s.R, base + j, const(0, sdw))
                elif sdw < rdw:
                    k = rdw // sdw
                    v = t.select(s.R, base + j * k, const(0, sdw))
                    for i in range(1, k):
                        v = t.concat(t.select(s.R, base + j * k + i, const(0, sdw)), v)
                else:
                    k = sdw // rdw
                    w = t.select(s.R, base + j // k, const(0, sdw))
                    v = t.extract(w, rdw * (j % k) + rdw - 1, rdw * (j % k))
                M['mem'].wr(V(ad, M['mem'].aw) + V(st, M['mem'].aw) * j, v, live)
            if sdw == rdw:
                base = base + size
            elif sdw < rdw:
                base = base + size * (rdw // sdw)
            else:
                k = sdw // rdw
                base = base + t.lshr(size + (k - 1), K(k.bit_length() - 1))
        return {'si': base, 'n0': 1}
    return ref


def szs(lo, hi, *names):
    return lambda a: [q for n in names for q in (a[n].uge(lo), a[n].ule(hi))]


MEM = {'mem': (8, 3, {'numports': 2})}
N0 = {'n0': 8}
R.add('dma_read', tst(th('si.dma_read(mem, a, s)\nn0.value = 1', SI % (8, ', addrwidth=8')), MEM, dma_in(calls=(('a', 's', 1),)), {'a': 3, 's': 3}, N0, 50,
                      {'si': (r(0, 14), 6, 8)}, pre=szs(1, 4, 's')))
R.add('dma_read_stride', tst(th('si.dma_read(mem, a, s, local_stride=st)\nn0.value = 1', SI % (8, ', addrwidth=8')), MEM, dma_in(), {'a': 3, 's': 3, 'st': 2}, N0, 50,
                             {'si': (r(3, 11), 6, 8)}, pre=szs(1, 3, 's')))
R.add('dma_read_twice', tst(th('si.dma_read(mem, a, s)\nsi.dma_read(mem, b, q)\nn0.value = 1', SI % (8, ', addrwidth=8')), MEM, dma_in(calls=(('a', 's', 1), ('b', 'q', 1)), n=3),
                            {'a': 3, 's': 2, 'b': 3, 'q': 2}, N0, 60, {'si': (r(3, 13), 8, 8)}, pre=szs(1, 3, 's', 'q')))
R.add('dma_read_async', tst(th('si.dma_read_async(mem, a, s)\nsi.dma_read_async(mem, b, q)\nsi.dma_wait_read()\nn0.value = 1', SI % (8, ', addrwidth=8')), MEM,
                            dma_in(calls=(('a', 's', 1), ('b', 'q', 1)), n=3), {'a': 3, 's': 2, 'b': 3, 'q': 2}, N0, 60, {'si': (r(3, 13), 8, 8)}, pre=szs(1, 3, 's', 'q')))
R.add('dma_read_port1', tst(th('si.dma_read(mem, a, s, port=1)\nn0.value = 1', SI % (8, ', addrwidth=8')), MEM, dma_in(calls=(('a', 's', 1),)), {'a': 3, 's': 3}, N0, 50,
                            {'si': (r(3, 12), 6, 8)}, pre=szs(1, 4, 's')))
R.add('dma_read_then_words', tst(th('si.dma_read(mem, a, s)\nv, l = si.read()\nn0.value = 1\no1.value = v\no2.value = mem.read(a)', SI % (8, ', addrwidth=8')), MEM,
                                 lambda M, a, e: (lambda d: dict(d, si=d['si'] + 1, o1=t.select(e['si'].R, d['si'], const(0, 8)), o2=M['mem'].rd(a['a'])))(dma_in(calls=(('a', 's', 1),))(M, a, e)),
                                 {'a': 3, 's': 2}, {'n0': 8, 'o1': 8, 'o2': 8}, 60, {'si': (r(3, 13), 6, 8)}, pre=szs(1, 3, 's')))
for k, (sdw, rdw, lo, hi) in enumerate(((8, 16, 1, 3), (8, 32, 1, 2), (16, 8, 1, 4), (32, 8, 1, 6), (16, 8, 5, 6))):
    kind = 'narrow' if sdw < rdw else 'wide'
    one = {'mem': (rdw, 3, {'numports': 2})}
    R.add('dma_read_%s%d' % (kind, k), tst(th('si.dma_read(mem, a, s)\nn0.value = 1', SI % (sdw, ', addrwidth=8')), one, dma_in(1, sdw, rdw, (('a', 's', 1),), hi), {'a': 3, 's': 3}, N0, 60,
                                           {'si': (r(3, 12), 8, sdw)}, pre=szs(lo, hi, 's')))
    R.add('dma_read_%s%d_twice' % (kind, k), tst(th('si.dma_read(mem, a, s)\nsi.dma_read(mem, b, q, local_stride=2)\nn0.value = 1', SI % (sdw, ', addrwidth=8')), one,
                                                 dma_in(1, sdw, rdw, (('a', 's', 1), ('b', 'q', 2)), 2), {'a': 3, 's': 3, 'b': 3, 'q': 3}, N0, 80,
                                                 {'si': (r(3, 7), 16, sdw) if rdw == 32 else (r(3, 10), 8, sdw)}, pre=szs(1, 2, 's', 'q')))


def dma_out(sdw=8, rdw=8, calls=(('a', 's', 'st'),), n=4, slots=8):
    def ref(M, a, e):
        V = lambda k, w: const(k, w) if isinstance(k, int) else t.zresize(a[k], w)
        words = [const(0, sdw)] * slots
        lasts = [t.false()] * slots
        base = K(0)

        def put(idx, v, live, last):
            for i in range(slots):
                hit = t.and_(live, idx.eq(i))
                words[i] = ite(hit, v, words[i])
                lasts[i] = ite(hit, last, lasts[i])
        for ad, sz, st in calls:
            size = V(sz, CW)
            el = [M['mem'].rd(V(ad, M['mem'].aw) + V(st, M['mem'].aw) * j) for j in range(n)]
            if sdw == rdw:
                for j in range(n):
                    put(base + j, el[j], size.ugt(j), size.eq(j + 1))
                base = base + size
            elif sdw < rdw:
                k = rdw // sdw
                for j in range(n):
                    for i in range(k):
                        put(base + (j * k + i), t.extract(el[j], sdw * i + sdw - 1, sdw * i), size.ugt(j), t.and_(size.eq(j + 1), t.true() if i == k - 1 else t.false()))
                base = base + size * k
            else:
                k = sdw // rdw
                for j in range(n // k):
                    v = el[j * k]
                    for i in range(1, k):
                        v = t.concat(el[j * k + i], v)
                    put(base + j, v, size.ugt(j * k), size.ule((j + 1) * k))
                base = base + t.lshr(size + (k - 1), K(k.bit_length() - 1))
        return {'so': ([(w, {'tlast': ite(l, const(1, 1), const(0, 1))}) for w, l in zip(words, lasts)], base), 'n0': 1}
    return ref


R.add('dma_write', tst(th('so.dma_write(mem, a, s)\nn0.value = 1', SO % (8, ', addrwidth=8')), MEM, dma_out(calls=(('a', 's', 1),)), {'a': 3, 's': 3}, N0, 60,
                       sos={'so': (r(0, 16), 8, 8)}, pre=szs(1, 4, 's'), extra=10))
R.add('dma_write_stride', tst(th('so.dma_write(mem, a, s, local_stride=st)\nn0.value = 1', SO % (8, ', addrwidth=8')), MEM, dma_out(), {'a': 3, 's': 3, 'st': 2}, N0, 60,
                              sos={'so': (r(4, 14), 8, 8)}, pre=szs(1, 4, 's'), extra=10))
R.add('dma_write_twice', tst(th('so.dma_write(mem, a, s)\nso.dma_write(mem, b, q)\nn0.value = 1', SO % (8, ', addrwidth=8')), MEM, dma_out(calls=(('a', 's', 1), ('b', 'q', 1)), n=3),
                             {'a': 3, 's': 2, 'b': 3, 'q': 2}, N0, 70, sos={'so': (r(4, 14), 8, 8)}, pre=szs(1, 3, 's', 'q'), extra=10))
R.add('dma_write_async', tst(th('so.dma_write_async(mem, a, s)\nso.dma_write_async(mem, b, q)\nso.dma_wait_write()\nn0.value = 1', SO % (8, ', addrwidth=8')), MEM,
                             dma_out(calls=(('a', 's', 1), ('b', 'q', 1)), n=3), {'a': 3, 's': 2, 'b': 3, 'q': 2}, N0, 70, sos={'so': (r(4, 14), 8, 8)}, pre=szs(1, 3, 's', 'q'), extra=10))
R.add('dma_write_port1', tst(th('so.dma_write(mem, a, s, port=1)\nn0.value = 1', SO % (8, ', addrwidth=8')), MEM, dma_out(calls=(('a', 's', 1),)), {'a': 3, 's': 3}, N0, 60,
                             sos={'so': (r(4, 14), 8, 8)}, pre=szs(1, 4, 's'), extra=10))
R.add('dma_write_word', tst(th('so.dma_write(mem, a, s)\nso.write(x, last=1)\nn0.value = 1', SO % (8, ', addrwidth=8')), MEM,
                            lambda M, a, e: (lambda d: {'n0': 1, 'so': ([(ite(d['so'][1].eq(i), a['x'], w), {'tlast': ite(d['so'][1].eq(i), const(1, 1), s['tlast'])})
                                                                         for i, (w, s) in enumerate(d['so'][0])], d['so'][1] + 1)})(dma_out(calls=(('a', 's', 1),), n=3)(M, a, e)),
                            {'a': 3, 's': 2, 'x': 8}, N0, 70, sos={'so': (r(4, 14), 8, 8)}, pre=szs(1, 3, 's'), extra=10))
for k, (sdw, rdw, lo, hi) in enumerate(((8, 16, 1, 3), (8, 32, 1, 2), (16, 8, 1, 4), (32, 8, 1, 8))):
    kind = 'narrow' if sdw < rdw else 'wide'
    one = {'mem': (rdw, 3, {'numports': 2})}
    al = (lambda m: (lambda a: [(a['s'] & const(m, a['s'].w)).eq(0)]))(sdw // rdw - 1) if kind == 'wide' else (lambda a: [])
    pr = (lambda al, f: (lambda a: al(a) + f(a)))(al, szs(lo, hi, 's'))
    R.add('dma_write_%s%d' % (kind, k), tst(th('so.dma_write(mem, a, s)\nn0.value = 1', SO % (sdw, ', addrwidth=8')), one, dma_out(sdw, rdw, (('a', 's', 1),), hi), {'a': 3, 's': 4}, N0, 60,
                                            sos={'so': (r(4, 14), 8, sdw)}, pre=pr, extra=10))
    if sdw == 32:
        continue
    pr2 = (lambda m: (lambda a: [(a[x] & const(m, 3)).eq(0) for x in 'sq'] + szs(1, 1 if rdw == 32 else 2, 's', 'q')(a)))(sdw // rdw - 1 if kind == 'wide' else 0)
    R.add('dma_write_%s%d_twice' % (kind, k), tst(th('so.dma_write(mem, a, s)\nso.dma_write(mem, b, q)\nn0.value = 1', SO % (sdw, ', addrwidth=8')), one,
                                                  dma_out(sdw, rdw, (('a', 's', 1), ('b', 'q', 1)), 2), {'a': 3, 's': 3, 'b': 3, 'q': 3}, N0, 80,
                                                  sos={'so': (r(4, 6) if rdw > sdw else r(4, 9), 8, sdw)}, pre=pr2, extra=10), tier='thorough' if rdw > sdw else 'quick')


# ---- transfers between a stream and a FIFO ------------------------------------------------------------------------------
def chain(indw, outdw, fdw, n, slots, last=True):
    """size words of width fdw from the input stream through a FIFO to the output stream"""
    def ref(M, a, e):
        size = t.zresize(a['s'], CW)
        bits = []
        s = e['si']
        if indw <= fdw:
            k = fdw // indw
            el = []
            for j in range(n):
                v = s.R[j * k]
                for i in range(1, k):
                    v = t.concat(s.R[j * k + i], v)
                el.append(v)
            cin = size * k
        else:
            k = indw // fdw
            el = [t.extract(s.R[j // k], fdw * (j % k) + fdw - 1, fdw * (j % k)) for j in range(n)]
            cin = t.lshr(size + (k - 1), K(k.bit_length() - 1))
        one = lambda q: ite(q, const(1, 1), const(0, 1))
        if outdw <= fdw:
            k = fdw // outdw
            w = [(t.extract(el[j], outdw * i + outdw - 1, outdw * i), {'tlast': one(t.and_(size.eq(j + 1), t.true() if i == k - 1 else t.false()))}) for j in range(n) for i in range(k)]
            cout = size * k
        else:
            k = outdw // fdw
            w = []
            for j in range(n // k):
                v = el[j * k]
                for i in range(1, k):
                    v = t.concat(el[j * k + i], v)
                w.append((v, {'tlast': one(size.eq((j + 1) * k))}))
            cout = t.lshr(size, K(k.bit_length() - 1))
        return {'si': cin, 'so': (w, cout), 'n0': 1}
    return ref


FI = "si = vthread.AXIStreamInFifo(m, 'si', CLK, RST, %d, addrwidth=8)\nso = vthread.AXIStreamOutFifo(m, 'so', CLK, RST, %d, addrwidth=8)\nf0 = vthread.FIFO(m, 'f0', CLK, RST, %d, 2)\n"
for indw, outdw, fdw, n, mod in ((8, 8, 8, 6, 1), (8, 8, 16, 3, 1), (8, 16, 16, 3, 1), (16, 8, 16, 3, 1), (16, 8, 8, 6, 2), (8, 16, 8, 6, 2), (32, 8, 8, 6, 4), (8, 32, 8, 8, 4)):
    for wn, (wi, wo) in (('in', (r(4, 7) if fdw == 16 else r(4, 9), ())), ('out', ((), r(4, 8) if fdw == 16 else r(4, 10)))):
        R.add('fifo_%d_%d_%d_%s' % (indw, fdw, outdw, wn), tst(th('si.dma_read_async(f0, s)\nso.dma_write_async(f0, s)\nsi.dma_wait_read()\nso.dma_wait_write()\nn0.value = 1',
                                                                  FI % (indw, outdw, fdw)), None, chain(indw, outdw, fdw, n, 12), {'s': 4}, N0, 70,
            {'si': (wi, 12, indw)}, {'so': (wo, 12, outdw)}, pre=(lambda n, mod: (lambda a: szs(1, n, 's')(a) + [(a['s'] & const(mod - 1, 4)).eq(0)]))(n, mod), extra=10))
R.add('fifo_words', tst(th('''si.dma_read_async(f0, s)
p = 0
for i in range(s):
    p = (p << 1) ^ (f0.deq() & 255)
n0.value = 1
o1.value = p''', "si = vthread.AXIStreamInFifo(m, 'si', CLK, RST, 8, addrwidth=8)\nf0 = vthread.FIFO(m, 'f0', CLK, RST, 8, 2)\n"), None,
                        lambda M, a, e: {'si': a['s'], 'n0': 1, 'o1': xorsum(e['si'].R, a['s'], 6)}, {'s': 3}, {'n0': 8, 'o1': 32}, 90, {'si': (r(4, 14), 8, 8)}, pre=szs(1, 6, 's')))


def xorsum(v, s, n):
    p = const(0, 32)
    for i in range(n):
        p = ite(s.ugt(i), t.shl(p, const(1, 32)) ^ v[i].zx(32), p)
    return p


# ---- stream interfaces fed from and drained to an AXI master -------------------------------------------------------------
def master(side, small):
    cls = 'vthread.AXIM_for_AXIStream' + side
    pre = 'class A(%s):\n    burst_size_width = 1\n    boundary_size = 16\n' % cls if small else ''
    st = 's%s' % side[0].lower()
    return (pre + "%s = vthread.AXIStream%s%%s(m, '%s', CLK, RST, %%d, addrwidth=16, noio=True)\n" % (st, side, st) + "ax = %s(%s, 'ax')\n" % ('A' if small else cls, st))


def got(n, stride=1):
    def ref(M, a, b):
        for i in range(n):
            M['mem'].wr(a['a'] + i * stride, b.R[i])
        return {'n0': 1}
    return ref


def rmore(n):
    def f(c, h, a, b, M):
        b.covers('AR', b.ar, b.arlen, a['g'], n)
        c.check('as many words are accepted as requested', b.rcnt.eq(n))
    return f


def wmore(n, words):
    def f(c, h, a, b, M):
        b.covers('AW', b.aw, b.awlen, a['g'], n)
        c.check('as many beats are written as requested', b.W.n.eq(n))
        for i, v in enumerate(words(a, b, M)):
            c.check('beat %d' % i, b.W.v[i].eq(v))
        c.check('every request is answered', b.bcnt.eq(b.aw.n))
    return f


for nm, small, n, win in (('', False, 3, {'ar': r(2, 6), 'r': r(4, 14)}), ('_split', True, 4, {'ar': r(4, 8), 'r': r(6, 11)}), ('_one', False, 1, {'ar': r(2, 10), 'r': r(4, 14)})):
    kw = dict(boundary=16, limit=2) if small else {}
    R.add('master_in' + nm, taxi(master('In', small) % ('', 8) + th('ax.dma_read_async(g, %d)\nsi.dma_read(mem, a, %d)\nn0.value = 1' % (n, n)), MEM, got(n), {'g': 16, 'a': 3}, N0, 70, win,
                                 bus={'wr': False, 'nbeat': 6, 'nreq': 5}, more=rmore(n), pre=lambda a: [a['g'].ule(60000)], **kw))
    R.add('master_in_wait' + nm, taxi(master('In', small) % ('', 8) + th('si.dma_read_async(mem, a, %d)\nax.dma_read_async(g, %d)\nsi.dma_wait_read()\nn0.value = 1' % (n, n)), MEM, got(n), {'g': 16, 'a': 3}, N0, 70, win,
                                 bus={'wr': False, 'nbeat': 6, 'nreq': 5}, more=rmore(n), pre=lambda a: [a['g'].ule(60000)], **kw))
    win = dict((k.replace('ar', 'aw').replace('r', 'w') if k == 'r' else 'aw', v) for k, v in win.items())
    wds = lambda n: (lambda a, b, M: [M['mem'].rd(a['a'] + i) for i in range(n)])
    R.add('master_out' + nm, taxi(master('Out', small) % ('', 8) + th('ax.dma_write_async(g, %d)\nso.dma_write(mem, a, %d)\nax.dma_wait()\nn0.value = 1' % (n, n)), MEM, None, {'g': 16, 'a': 3}, N0, 70,
                                  dict(win, b=r(8, 12)), bus={'rd': False, 'nbeat': 6, 'nreq': 5}, more=wmore(n, wds(n)), pre=lambda a: [a['g'].ule(60000)],
                                  at=[("n0", lambda h, b, n=n: t.conj([b.W.n.uge(n), b.wsum.uge(n), b.bcnt.eq(b.aw.n)]))], **kw),
          tier='thorough' if small else 'quick')
R.add('master_in_words', taxi(master('In', False) % ('', 8) + th('ax.dma_read_async(g, 2)\nv, l = si.read()\no0.value = v\nl0.value = l\nv, l = si.read()\no1.value = v\nl1.value = l'), None,
                              lambda M, a, b: {'o0': b.R[0], 'o1': b.R[1], 'l0': const(0, 1), 'l1': const(1, 1)}, {'g': 16}, {'o0': 8, 'o1': 8, 'l0': (1, False), 'l1': (1, False)}, 60,
                              {'r': r(4, 12)}, bus={'wr': False, 'nbeat': 4, 'nreq': 4}, more=rmore(2), pre=lambda a: [a['g'].ule(60000)]))
R.add('master_in_twice', taxi(master('In', False) % ('', 8) + th('ax.dma_read_async(g, 2)\nax.dma_read_async(g + 2, 2)\nsi.dma_read(mem, a, 4)\nn0.value = 1'), MEM,
                              got(4), {'g': 16, 'a': 3}, N0, 60, {'r': r(4, 12)}, bus={'wr': False, 'nbeat': 6, 'nreq': 4}, more=rmore(4), pre=lambda a: [a['g'].ule(60000), (a['g'] & 1).eq(0)]))
R.add('master_out_words', taxi(master('Out', False) % ('', 8) + th('ax.dma_write_async(g, 2)\nso.write(x)\nso.write(y, last=1)\nax.dma_wait()\nn0.value = 1'), None, None,
                               {'g': 16, 'x': 8, 'y': 8}, N0, 60, {'aw': r(3, 8), 'w': r(4, 12)}, bus={'rd': False, 'nbeat': 4, 'nreq': 4}, more=wmore(2, lambda a, b, M: [a['x'], a['y']]),
                               pre=lambda a: [a['g'].ule(60000)]))
R.add('master_fifo', taxi(master('In', False) % ('Fifo', 8) + "f0 = vthread.FIFO(m, 'f0', CLK, RST, 8, 2)\n" + th('ax.dma_read_async(g, 4)\nsi.dma_read_async(f0, 4)\np = 0\nfor i in range(4):\n    p = (p << 1) ^ (f0.deq() & 255)\nn0.value = 1\no1.value = p'), None,
                          lambda M, a, b: {'n0': 1, 'o1': xorsum(b.R, const(4, 3), 4)}, {'g': 16}, {'n0': 8, 'o1': 32}, 70, {'r': r(4, 14)}, bus={'wr': False, 'nbeat': 6, 'nreq': 4}, more=rmore(4),
                          pre=lambda a: [a['g'].ule(60000)]))


# ---- interfaces used without a thread, side information, connections inside a design ---------------------------------------
IDLE = th('for i in range(16):\n    pass\nn0.value = 1')
PASS = '''ok = vg.Ors(so.tdata.tready, vg.Not(so.tdata.tvalid))
d, l, i, u, q, v = si.read_data(cond=ok)
so.write_data(d + 1, l, i, u, q, cond=v)
'''
SIDE = ', id_width=2, user_width=3, dest_width=2'


def passref(k=1, side=(), free=4):
    def ref(M, a, e):
        s = e['si']
        return {'n0': 1, 'si': free, 'so': ([(s.R[i] + k, dict((x, s.S[x][i]) for x in side)) for i in range(free)], free)}
    return ref


for nm, opt, side in (('', '', ('tlast',)), ('_side', SIDE, ('tlast', 'tid', 'tuser', 'tdest')), ('_nolast', ', with_last=False', ())):
    R.add('rtl' + nm, tst("si = axi.AxiStreamIn(m, 'si', CLK, RST, 8%s)\nso = axi.AxiStreamOut(m, 'so', CLK, RST, 8%s)\n" % (opt, opt) + PASS + IDLE, None, passref(1, side), outs=N0,
                          ins={'si': (r(0, 12), 4, 8)}, sos={'so': (r(0, 12), 6, 8)}, extra=14))
    R.add('connected' + nm, tst('''si = axi.AxiStreamIn(m, 'si', CLK, RST, 8%s)
xo = axi.AxiStreamOut(m, 'xo', CLK, RST, 8%s, noio=True)
xi = axi.AxiStreamIn(m, 'xi', CLK, RST, 8%s, noio=True)
so = axi.AxiStreamOut(m, 'so', CLK, RST, 8%s)
xi.connect_stream(xo)
''' % (opt, opt, opt, opt) + PASS.replace('so.', 'xo.') + PASS.replace('si.', 'xi.') + IDLE, None, passref(2, side), outs=N0,
                               ins={'si': (r(0, 8), 4, 8)}, sos={'so': (r(2, 12), 6, 8)}, extra=16))
    if side:
        ports = ['tdata', 'tvalid', 'tready'] + list(side)
        W = {'tdata': 8, 'tid': 2, 'tuser': 3, 'tdest': 2}
        decl = lambda p, ins: 'P%s = {}\n' % p + ''.join("P%s['%s_%s'] = m.%s('%s_%s', %s)\n" % (p, p, x, 'Input' if (x != 'tready') == ins else 'Output', p, x, W.get(x)) for x in ports)
        R.add('ports' + nm, tst(decl('si', True) + decl('so', False) + "si = axi.AxiStreamIn(m, 'yi', CLK, RST, 8%s, noio=True)\nso = axi.AxiStreamOut(m, 'yo', CLK, RST, 8%s, noio=True)\n"
                                "si.connect(Psi, 'si')\nso.connect(Pso, 'so')\n" % (opt, opt) + PASS + IDLE, None, passref(1, side), outs=N0,
                                ins={'si': (r(0, 8), 4, 8)}, sos={'so': (r(2, 12), 6, 8)}, extra=16))
R.add('strb', tst(th('so.write(x)\nso.write(y, last=1)', SO % (16, ', with_strb=True, id_width=2, user_width=1, dest_width=3')), None,
                  lambda M, a, e: {'so': ([(a['x'], {'tlast': const(0, 1), 'tstrb': const(3, 2), 'tid': const(0, 2), 'tuser': const(0, 1), 'tdest': const(0, 3)}),
                                           (a['y'], {'tlast': const(1, 1), 'tstrb': const(3, 2), 'tid': const(0, 2), 'tuser': const(0, 1), 'tdest': const(0, 3)})], 2)},
                  args={'x': 16, 'y': 16}, sos={'so': (r(0, 14), 4, 16)}))

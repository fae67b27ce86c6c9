"""C32: AXI master transfers move exactly the requested words."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from checks.axi import taxi, K

R = Registry('C32', 'model_checking', ['thread/axim.py', 'types/axi.py', 'types/skidbuffer.py', 'thread/ram.py', 'thread/fifo.py', 'types/ram.py', 'types/fifo.py', 'thread/compiler.py', 'seq/seq.py', 'fsm/fsm.py'],
             assumptions=['8-bit to 32-bit buses and RAMs of 8 or 16 words with 4 to 16-bit words, all contents, bus words and addresses symbolic; transfers of 1 to 8 words, up to 4 requests in flight',
                          'handshakes: every pattern of ready/valid over a window of 4 to 10 cycles of each channel, prompt outside of the window',
                          'the slave answers in order, with data words unrelated to the address: which address a word belongs to is decided by the order of the requests',
                          'some scenarios lower the class attributes burst_size_width and boundary_size so that splitting happens within few words'],
             explanation='A thread runs transfers of an AXI master connected to a symbolic slave; RAM contents, thread registers, the requested bursts and the written beats are compared '
                         'with the request, and flags set by the thread after a transfer may only be high when the transfer is complete.')
AX = "%sax = vthread.AXIM(m, 'ax', CLK, RST, %d, %d%s)\n"
SMALL = "class A(vthread.AXIM):\n    burst_size_width = 1\n    boundary_size = 16\n"


def prog(body, dw=8, aw=16, opt='', cls='AXIM', top='', small=False):
    if small:
        top = SMALL + top
        cls = 'A'
    s = "def f():\n" + ''.join('    %s\n' % x for x in body.split('; ')) + "th = vthread.Thread(m, 'th', CLK, RST, f)\nth.start()\n"
    return (AX.replace('vthread.AXIM', 'A' if cls == 'A' else 'vthread.' + cls)) % (top, dw, aw, opt) + s


RA = {'ra': (8, 3)}
DONE = {'done': 1}


def at_r(n, flag='done'):
    return (flag, lambda h, b: b.rcnt.uge(n))


def at_w(n, flag='done'):
    """accepted data and a response for every accepted request"""
    return (flag, lambda h, b: t.conj([b.W.n.uge(n), b.bcnt.eq(b.aw.n), b.wsum.uge(n)]))


def dr(M, b, ram, la, n, stride=1, off=0):
    for i in range(n):
        M[ram].wr(la + i * stride, b.R[off + i])


def wbeats(c, b, l, off=0, what='beat'):
    for i, v in enumerate(l):
        c.check('%s %d is written' % (what, i), b.W.v[off + i].eq(v))


def more(rs=None, ws=None, rbeats=None, wbeat=None):
    """rs/ws: [(start(a), words)] requested; wbeat(a, M): words expected on the write channel"""
    def f(c, h, a, b, M):
        # M still holds the final RAM contents, equal to the initial ones for writes
        if rs is not None:
            if len(rs) == 1:
                b.covers('AR', b.ar, b.arlen, rs[0][0](a), rs[0][1])
            c.check('as many words are accepted as requested', b.rcnt.eq(sum(n for _, n in rs)))
        if ws is not None:
            if len(ws) == 1:
                b.covers('AW', b.aw, b.awlen, ws[0][0](a), ws[0][1])
            n = sum(n for _, n in ws)
            c.check('as many beats are written as requested', b.W.n.eq(n))
            wbeats(c, b, wbeat(a, M))
            c.check('every request is answered', b.bcnt.eq(b.aw.n))
    return f


def seqcover(which, l):
    """several requests of one burst each: (addr, len)"""
    def f(c, h, a, b, M):
        q, n = (b.ar, b.arlen) if which == 'AR' else (b.aw, b.awlen)
        e = l(a)
        c.check('%s: number of requests' % which, q.n.eq(len(e)))
        for i, (ad, ln) in enumerate(e):
            c.check('%s %d address' % (which, i), q.v[i].eq(ad))
            c.check('%s %d length' % (which, i), n.v[i].eq(ln))
    return f


def both(*l):
    def f(*a):
        for g in l:
            g(*a)
    return f


GA = lambda a: a['ga']
WR = {'ar': range(3, 9), 'r': range(8, 16)}
WIN_R = {'a': {'ar': range(5, 11)}, 'r': {'r': range(9, 17)}, 'ar': {'ar': range(6, 9), 'r': range(10, 15)}}
WIN_W = {'a': {'aw': range(6, 12)}, 'w': {'w': range(10, 18)}, 'b': {'b': range(12, 20)}, 'awb': {'aw': range(8, 11), 'w': range(11, 15), 'b': range(15, 18)}, 'aw': {'aw': range(7, 12), 'w': range(9, 14)}}


def rtest(name, body, n, ref, args=None, rams=None, dw=8, aw=16, wins='ar', outs=None, at=None, opt='', tot=None, small=False, nreq=4, cls='AXIM', top='', pre=None, boundary=None, limit=None, mr=None, tier='quick', **kw):
    """read test, under every window in wins"""
    args = {'la': 3, 'ga': aw} if args is None else args
    for w in wins.split():
        R.add('%s_%s' % (name, w), taxi(prog(body, dw, aw, opt, cls, top, small), RA if rams is None else rams, ref, args, DONE if outs is None else outs, win=WIN_R.get(w, {}),
                                        bus=dict(wr=False, nbeat=max(n, 1), nreq=nreq), dw=dw, at=[at_r(n)] if at is None else at, pre=pre,
                                        more=mr if mr is not None else more(rs=[(GA, n if tot is None else tot)]), boundary=boundary or (16 if small else 4096), limit=limit or (2 if small else 256), tie=dict({'ax_awready': 0, 'ax_wready': 0, 'ax_bvalid': 0}), **kw),
              tier=tier, bounds='all addresses, words and handshakes in the window', timeout=700)


def wtest(name, body, n, beats, args=None, rams=None, dw=8, aw=16, wins='aw', outs=None, at=None, opt='', small=False, nreq=4, cls='AXIM', top='', pre=None, boundary=None, limit=None, mr=None, ref=None, tier='quick', slow='', **kw):
    args = {'la': 3, 'ga': aw} if args is None else args
    for w in wins.split():
        R.add('%s_%s' % (name, w), taxi(prog(body, dw, aw, opt, cls, top, small), RA if rams is None else rams, ref, args, DONE if outs is None else outs, win=WIN_W.get(w, {}),
                                        bus=dict(rd=False, nbeat=max(n, 1), nreq=nreq), dw=dw, at=[at_w(n)] if at is None else at, pre=pre,
                                        more=mr if mr is not None else more(ws=[(GA, n)], wbeat=beats), boundary=boundary or (16 if small else 4096), limit=limit or (2 if small else 256), tie={'ax_arready': 0, 'ax_rvalid': 0, 'ax_rdata': 0, 'ax_rlast': 0}, **kw),
              tier='thorough' if w in slow else tier, bounds='all addresses, words and handshakes in the window', timeout=700)


rd = lambda M, ram, la, n, stride=1: [M[ram].rd(la + i * stride) for i in range(n)]

# same width
rtest('dma_read', 'ax.dma_read(ra, la, ga, 3); done.value = 1', 3, lambda M, a, b: dr(M, b, 'ra', a['la'], 3), wins='a r ar -')
wtest('dma_write', 'ax.dma_write(ra, la, ga, 3); done.value = 1', 3, lambda a, M: rd(M, 'ra', a['la'], 3), wins='a w b awb aw -')
rtest('dma_read1', 'ax.dma_read(ra, la, ga, 1); done.value = 1', 1, lambda M, a, b: dr(M, b, 'ra', a['la'], 1), wins='ar')
wtest('dma_write1', 'ax.dma_write(ra, la, ga, 1); done.value = 1', 1, lambda a, M: rd(M, 'ra', a['la'], 1), wins='awb')
rtest('dma_read_stride', 'ax.dma_read(ra, la, ga, 3, 2); done.value = 1', 3, lambda M, a, b: dr(M, b, 'ra', a['la'], 3, 2), wins='r')
wtest('dma_write_stride', 'ax.dma_write(ra, la, ga, 3, 3); done.value = 1', 3, lambda a, M: rd(M, 'ra', a['la'], 3, 3), wins='w')
rtest('dma_read_vstride', 'ax.dma_read(ra, la, ga, 2, st); done.value = 1', 2, lambda M, a, b: [M['ra'].wr(a['la'] + a['st'].zx(3) * i, b.R[i]) for i in range(2)], {'la': 3, 'ga': 16, 'st': 2}, wins='-')
wtest('dma_write_vstride', 'ax.dma_write(ra, la, ga, 3, st); done.value = 1', 3, lambda a, M: [M['ra'].rd(a['la'] + a['st'].zx(3) * i) for i in range(3)], {'la': 3, 'ga': 16, 'st': 2}, wins='-')

# fixed addresses, more words and all channels stalled
FG = {'la': 3}
rtest('dma_read5', 'ax.dma_read(ra, la, 256, 5); done.value = 1', 5, lambda M, a, b: dr(M, b, 'ra', a['la'], 5), FG, wins='ar', mr=seqcover('AR', lambda a: [(256, 5)]))
wtest('dma_write5', 'ax.dma_write(ra, la, 256, 5); done.value = 1', 5, None, FG, wins='awb', mr=both(lambda c, h, a, b, M: wbeats(c, b, rd(M, 'ra', a['la'], 5)), seqcover('AW', lambda a: [(256, 5)])))

# a bus narrower and wider than the memory
RN = {'ra': (16, 3)}
RW = {'ra': (8, 3)}
cat = lambda *l: t.concat(*reversed(l))
rtest('dma_read_narrow', 'ax.dma_read(ra, la, ga, 2); done.value = 1', 4, lambda M, a, b: [M['ra'].wr(a['la'] + i, cat(b.R[2 * i], b.R[2 * i + 1])) for i in range(2)], rams=RN, wins='r -')
wtest('dma_write_narrow', 'ax.dma_write(ra, la, ga, 2); done.value = 1', 4, lambda a, M: [t.extract(w, 8 * k + 7, 8 * k) for i in range(2) for w in [M['ra'].rd(a['la'] + i)] for k in range(2)], rams=RN, wins='w -')
RN4 = {'ra': (32, 2)}
rtest('dma_read_narrow4', 'ax.dma_read(ra, la, ga, 2); done.value = 1', 8, lambda M, a, b: [M['ra'].wr(a['la'] + i, cat(*b.R[4 * i:4 * i + 4])) for i in range(2)], {'la': 2, 'ga': 16}, rams=RN4, wins='-')
wtest('dma_write_narrow4', 'ax.dma_write(ra, la, ga, 2); done.value = 1', 8, lambda a, M: [t.extract(w, 8 * k + 7, 8 * k) for i in range(2) for w in [M['ra'].rd(a['la'] + i)] for k in range(4)], {'la': 2, 'ga': 16}, rams=RN4, wins='-')
rtest('dma_read_wide', 'ax.dma_read(ra, la, ga, 4); done.value = 1', 2, lambda M, a, b: [M['ra'].wr(a['la'] + i, t.extract(b.R[i // 2], 8 * (i % 2) + 7, 8 * (i % 2))) for i in range(4)], dw=16, wins='r -')
wtest('dma_write_wide', 'ax.dma_write(ra, la, ga, 4); done.value = 1', 2, lambda a, M: [cat(M['ra'].rd(a['la'] + 2 * i), M['ra'].rd(a['la'] + 2 * i + 1)) for i in range(2)], dw=16, wins='w -')
rtest('dma_read_wide_odd', 'ax.dma_read(ra, la, ga, 3); done.value = 1', 2, lambda M, a, b: [M['ra'].wr(a['la'] + i, t.extract(b.R[i // 2], 8 * (i % 2) + 7, 8 * (i % 2))) for i in range(3)], dw=16, wins='r')
rtest('dma_read_wide4', 'ax.dma_read(ra, la, ga, 8); done.value = 1', 2, lambda M, a, b: [M['ra'].wr(a['la'] + i, t.extract(b.R[i // 4], 8 * (i % 4) + 7, 8 * (i % 4))) for i in range(8)], dw=32, rams={'ra': (8, 4)}, args={'la': 4, 'ga': 16}, wins='r')
wtest('dma_write_wide4', 'ax.dma_write(ra, la, ga, 8); done.value = 1', 2, lambda a, M: [cat(*[M['ra'].rd(a['la'] + 4 * i + k) for k in range(4)]) for i in range(2)], dw=32, rams={'ra': (8, 4)}, args={'la': 4, 'ga': 16}, wins='w')
rtest('dma_read_wide_stride', 'ax.dma_read(ra, la, ga, 4, 2); done.value = 1', 2, lambda M, a, b: [M['ra'].wr(a['la'] + 2 * i, t.extract(b.R[i // 2], 8 * (i % 2) + 7, 8 * (i % 2))) for i in range(4)], dw=16, rams={'ra': (8, 4)}, args={'la': 4, 'ga': 16}, wins='-')
wtest('dma_write_narrow_stride', 'ax.dma_write(ra, la, ga, 2, 3); done.value = 1', 4, lambda a, M: [t.extract(w, 8 * k + 7, 8 * k) for i in range(2) for w in [M['ra'].rd(a['la'] + 3 * i)] for k in range(2)], rams=RN, wins='-')

# bursts of at most two beats inside 16-byte blocks
rtest('split_read', 'ax.dma_read(ra, la, ga, 5); done.value = 1', 5, lambda M, a, b: dr(M, b, 'ra', a['la'], 5), small=True, wins='a r', nreq=6, cycles=90)
wtest('split_write', 'ax.dma_write(ra, la, ga, 5); done.value = 1', 5, lambda a, M: rd(M, 'ra', a['la'], 5), small=True, wins='a w b', slow='a w', nreq=6, cycles=90)
rtest('split_read_n', 'ax.dma_read(ra, la, ga, n); done.value = 1', 5, lambda M, a, b: [M['ra'].wr(a['la'] + i, b.R[i], a['n'].ugt(i)) for i in range(5)], {'la': 3, 'ga': 16, 'n': 3}, small=True, wins='-', nreq=6, cycles=90,
      pre=lambda a: [a['n'].ne(0), a['n'].ule(5)], at=[('done', lambda h, b: b.rcnt.eq(b.rsum))], mr=lambda c, h, a, b, M: (b.covers('AR', b.ar, b.arlen, a['ga'], a['n']), c.check('count', b.rcnt.eq(t.zresize(a['n'], 6)))))
wtest('split_write_n', 'ax.dma_write(ra, la, ga, n); done.value = 1', 5, None, {'la': 3, 'ga': 16, 'n': 3}, small=True, wins='-', slow='-', nreq=6, cycles=90,
      pre=lambda a: [a['n'].ne(0), a['n'].ule(5)], at=[('done', lambda h, b: t.conj([b.W.n.eq(b.wsum), b.bcnt.eq(b.aw.n), b.aw.n.ne(0)]))],
      mr=lambda c, h, a, b, M: (b.covers('AW', b.aw, b.awlen, a['ga'], a['n']), c.check('count', b.W.n.eq(t.zresize(a['n'], 6))), [c.check('beat %d' % i, t.implies(a['n'].ugt(i), b.W.v[i].eq(M['ra'].rd(a['la'] + i)))) for i in range(5)]))
wtest('split_write_narrow', 'ax.dma_write(ra, la, ga, 2); done.value = 1', 4, lambda a, M: [t.extract(w, 8 * k + 7, 8 * k) for i in range(2) for w in [M['ra'].rd(a['la'] + i)] for k in range(2)], rams=RN, small=True, wins='w a', slow='w', nreq=6, cycles=80)
wtest('split_write_wide', 'ax.dma_write(ra, la, ga, 6); done.value = 1', 3, lambda a, M: [cat(M['ra'].rd(a['la'] + 2 * i), M['ra'].rd(a['la'] + 2 * i + 1)) for i in range(3)], dw=16, small=True, wins='w a', slow='w', nreq=6, cycles=80)
rtest('split_read_narrow', 'ax.dma_read(ra, la, ga, 2); done.value = 1', 4, lambda M, a, b: [M['ra'].wr(a['la'] + i, cat(b.R[2 * i], b.R[2 * i + 1])) for i in range(2)], rams=RN, small=True, wins='r', nreq=6, cycles=80)
rtest('split_read_wide', 'ax.dma_read(ra, la, ga, 6); done.value = 1', 3, lambda M, a, b: [M['ra'].wr(a['la'] + i, t.extract(b.R[i // 2], 8 * (i % 2) + 7, 8 * (i % 2))) for i in range(6)], dw=16, small=True, wins='r', nreq=6, cycles=80)

# single words
rtest('read', 'o0.value = ax.read(ga); done.value = 1; o1.value = ax.read(ga + 4)', 2, lambda M, a, b: {'o0': b.R[0], 'o1': b.R[1]}, {'ga': 16}, {}, outs={'done': 1, 'o0': 8, 'o1': 8}, wins='a r ar', at=[at_r(1)],
      mr=seqcover('AR', lambda a: [(a['ga'], 1), (a['ga'] + 4, 1)]))
wtest('write', 'ax.write(ga, x); ax.write(ga + 4, y); done.value = 1', 2, None, {'ga': 16, 'x': 8, 'y': 8}, {}, wins='a w b awb', at=[],
      mr=both(seqcover('AW', lambda a: [(a['ga'], 1), (a['ga'] + 4, 1)]), lambda c, h, a, b, M: wbeats(c, b, [a['x'], a['y']])))
wtest('write_fence', 'ax.write_fence(ga, x); done.value = 1; ax.write_fence(ga + 2, y); done.value = 0; ax.write(5, x); ax.dma_wait_write(); done.value = 1', 3, None, {'ga': 16, 'x': 8, 'y': 8}, {}, wins='a w b awb', at=[('done', lambda h, b: t.conj([b.W.n.uge(1), b.bcnt.uge(1)]))],
      mr=both(seqcover('AW', lambda a: [(a['ga'], 1), (a['ga'] + 2, 1), (const(5, 16), 1)]), lambda c, h, a, b, M: (wbeats(c, b, [a['x'], a['y'], a['x']]), c.check('answered', b.bcnt.eq(3)))))
wtest('write_wait', 'ax.write(ga, x); ax.dma_wait_write(); done.value = 1; ax.write(ga, y); ax.dma_wait_write_response(); d2.value = 1', 2, None, {'ga': 16, 'x': 8, 'y': 8}, {}, outs={'done': 1, 'd2': 1}, wins='a w b awb', at=[at_w(1), at_w(2, 'd2')][1:] + [('done', lambda h, b: t.conj([b.W.n.uge(1), b.bcnt.uge(1)]))],
      mr=both(seqcover('AW', lambda a: [(a['ga'], 1), (a['ga'], 1)]), lambda c, h, a, b, M: wbeats(c, b, [a['x'], a['y']])))

# asynchronous requests
R2 = {'ra': (8, 3), 'rb': (8, 3)}
rtest('read_async', 'ax.dma_read_async(ra, 0, 64, 2); ax.dma_read_async(rb, 3, 32, 2); ax.dma_read_async(ra, 4, 16, 1); ax.dma_wait_read(); done.value = 1', 5,
      lambda M, a, b: (dr(M, b, 'ra', 0, 2), dr(M, b, 'rb', 3, 2, 1, 2), dr(M, b, 'ra', 4, 1, 1, 4), None)[3], {}, R2, wins='a r ar', mr=seqcover('AR', lambda a: [(64, 2), (32, 2), (16, 1)]))
wtest('write_async', 'ax.dma_write_async(ra, 0, 64, 2); ax.dma_write_async(rb, 3, 32, 2); ax.dma_write_async(ra, 4, 16, 1); ax.dma_wait_write(); done.value = 1', 5, None, {}, R2, wins='a w b awb',
      mr=both(seqcover('AW', lambda a: [(64, 2), (32, 2), (16, 1)]), lambda c, h, a, b, M: wbeats(c, b, [M['ra'].rd(0), M['ra'].rd(1), M['rb'].rd(3), M['rb'].rd(4), M['ra'].rd(4)])))
wtest('write_async_wait', 'ax.dma_write_async(ra, 0, 64, 2); ax.dma_wait_write_idle(); ax.dma_wait_write_response(); done.value = 1', 2, None, {}, wins='a w b', mr=both(seqcover('AW', lambda a: [(64, 2)]), lambda c, h, a, b, M: wbeats(c, b, rd(M, 'ra', 0, 2))))


# several banks
MB = {'ra': (8, 2, dict(cls='MultibankRAM', numbanks=2))}
MB4 = {'ra': (8, 2, dict(cls='MultibankRAM', numbanks=4))}
A2 = {'la': 3, 'ga': 16}


def mwr(M, nb, a, v, when=None):
    """word a of a multi-bank memory: bank in the low bits"""
    sh = nb.bit_length() - 1
    for k in range(nb):
        if isinstance(a, int):
            if a % nb == k:
                M['ra_%d' % k].wr(a >> sh, v, when)
        else:
            q = t.extract(a, sh - 1, 0).eq(k)
            M['ra_%d' % k].wr(t.extract(a, a.w - 1, sh), v, q if when is None else t.and_(q, when))


def mrd(M, nb, a):
    sh = nb.bit_length() - 1
    if isinstance(a, int):
        return M['ra_%d' % (a % nb)].rd(a >> sh)
    r = M['ra_0'].rd(t.extract(a, a.w - 1, sh))
    for k in range(1, nb):
        r = ite(t.extract(a, sh - 1, 0).eq(k), M['ra_%d' % k].rd(t.extract(a, a.w - 1, sh)), r)
    return r


rtest('mb_read', 'ax.dma_read(ra, la, ga, 3); done.value = 1', 3, lambda M, a, b: [mwr(M, 2, a['la'] + i, b.R[i]) for i in range(3)], A2, MB, wins='r')
wtest('mb_write', 'ax.dma_write(ra, la, ga, 3); done.value = 1', 3, lambda a, M: [mrd(M, 2, a['la'] + i) for i in range(3)], A2, MB, wins='w')
rtest('mb_bank_read', 'ax.dma_read_bank(ra, k, la, ga, 2); done.value = 1', 2, lambda M, a, b: [M['ra_%d' % k].wr(a['la'] + i, b.R[i], a['k'].eq(k)) for i in range(2) for k in range(2)], {'la': 2, 'ga': 16, 'k': 1}, MB, wins='r')
wtest('mb_bank_write', 'ax.dma_write_bank(ra, k, la, ga, 2); done.value = 1', 2, lambda a, M: [ite(a['k'].eq(0), M['ra_0'].rd(a['la'] + i), M['ra_1'].rd(a['la'] + i)) for i in range(2)], {'la': 2, 'ga': 16, 'k': 1}, MB, wins='w')
rtest('mb_bank_read_stride', 'ax.dma_read_bank(ra, k, la, ga, 2, 3); done.value = 1', 2, lambda M, a, b: [M['ra_%d' % k].wr(a['la'] + 3 * i, b.R[i], a['k'].eq(k)) for i in range(2) for k in range(4)], {'la': 2, 'ga': 16, 'k': 2}, MB4, wins='-')
wtest('mb_bank_async', 'ax.dma_write_bank_async(ra, 1, 0, 64, 2); ax.dma_write_bank_async(ra, 0, 1, 32, 1); ax.dma_wait_write(); done.value = 1', 3, None, {}, MB, wins='w b', mr=both(seqcover('AW', lambda a: [(64, 2), (32, 1)]), lambda c, h, a, b, M: wbeats(c, b, [M['ra_1'].rd(0), M['ra_1'].rd(1), M['ra_0'].rd(1)])))
rtest('mb_bank_rasync', 'ax.dma_read_bank_async(ra, 1, 0, 64, 2); ax.dma_read_bank_async(ra, 0, 1, 32, 1); ax.dma_wait(); done.value = 1', 3, lambda M, a, b: (dr(M, b, 'ra_1', 0, 2), dr(M, b, 'ra_0', 1, 1, 1, 2), None)[2], {}, MB, wins='r ar', mr=seqcover('AR', lambda a: [(64, 2), (32, 1)]))
byte = lambda w, k: t.extract(w, 8 * k + 7, 8 * k)
# packed: one bus word holds one word of every bank
rtest('packed_read', 'ax.dma_read_packed(ra, la, ga, 4); done.value = 1', 2, lambda M, a, b: [mwr(M, 2, (a['la'] & 6) + i, byte(b.R[i // 2], i % 2)) for i in range(4)], A2, MB, dw=16, wins='r')
wtest('packed_write', 'ax.dma_write_packed(ra, la, ga, 4); done.value = 1', 2, lambda a, M: [cat(mrd(M, 2, (a['la'] & 6) + 2 * i), mrd(M, 2, (a['la'] & 6) + 2 * i + 1)) for i in range(2)], A2, MB, dw=16, wins='w')
rtest('packed_read_narrow', 'ax.dma_read_packed(ra, la, ga, 4); done.value = 1', 4, lambda M, a, b: [mwr(M, 2, (a['la'] & 6) + i, b.R[i]) for i in range(4)], A2, MB, wins='r')
wtest('packed_write_narrow', 'ax.dma_write_packed(ra, 2, 64, 4); done.value = 1', 4, None, {}, MB, wins='w', mr=both(seqcover('AW', lambda a: [(64, 4)]), lambda c, h, a, b, M: wbeats(c, b, [mrd(M, 2, 2 + i) for i in range(4)])))
rtest('packed_read_async', 'ax.dma_read_packed_async(ra, 2, 64, 4); ax.dma_read_packed_async(ra, 6, 32, 2); ax.dma_wait_read(); done.value = 1', 3, lambda M, a, b: [mwr(M, 2, (2 + i if i < 4 else 2 + i), byte(b.R[i // 2], i % 2)) for i in range(6)], {}, MB, dw=16, wins='r', mr=seqcover('AR', lambda a: [(64, 2), (32, 1)]))
wtest('packed_write_async', 'ax.dma_write_packed_async(ra, 2, 64, 4); ax.dma_write_packed_async(ra, 0, 32, 2); ax.dma_wait_write(); done.value = 1', 3, None, {}, MB, dw=16, wins='w', mr=both(seqcover('AW', lambda a: [(64, 2), (32, 1)]), lambda c, h, a, b, M: wbeats(c, b, [cat(mrd(M, 2, i), mrd(M, 2, i + 1)) for i in (2, 4, 0)])))
rtest('packed_read4', 'ax.dma_read_packed(ra, la, ga, 8); done.value = 1', 2, lambda M, a, b: [mwr(M, 4, (a['la'] & 12) + i, byte(b.R[i // 4], i % 4)) for i in range(8)], {'la': 4, 'ga': 16}, MB4, dw=32, wins='-')
rtest('packed_read_odd', 'ax.dma_read_packed(ra, 0, ga, 3); done.value = 1', 2, lambda M, a, b: [mwr(M, 2, i, byte(b.R[i // 2], i % 2)) for i in range(4)], {'ga': 16}, MB, dw=16, wins='-')
rtest('packed_ram', 'ax.dma_read_packed(ra, la, ga, 3); done.value = 1', 3, lambda M, a, b: dr(M, b, 'ra', a['la'], 3), wins='-')
wtest('packed_wram', 'ax.dma_write_packed(ra, la, ga, 3); done.value = 1', 3, lambda a, M: rd(M, 'ra', a['la'], 3), wins='-')
# a tuple of memories is a multi-bank memory
RT = {'ra': (8, 3), 'rb': (8, 3)}


def twr(M, a, v):
    for k, n in enumerate(('ra', 'rb')):
        M[n].wr(t.extract(a, 3, 1), v, t.extract(a, 0, 0).eq(k))


rtest('tuple_packed_read', 'ax.dma_read_packed((ra, rb), la, ga, 4); done.value = 1', 2, lambda M, a, b: [twr(M, (a['la'] & 14) + i, byte(b.R[i // 2], i % 2)) for i in range(4)], {'la': 4, 'ga': 16}, RT, dw=16, wins='-')
rtest('tuple_bank_read', 'ax.dma_read_bank((ra, rb), 1, la, ga, 3); done.value = 1', 3, lambda M, a, b: dr(M, b, 'rb', a['la'], 3), {'la': 3, 'ga': 16}, RT, wins='-')
rtest('tuple_read', 'ax.dma_read((ra, rb), la, ga, 3); done.value = 1', 3, lambda M, a, b: [twr(M, a['la'] + i, b.R[i]) for i in range(3)], {'la': 4, 'ga': 16}, RT, wins='-')
# block: blocksize words to each bank in turn
rtest('block_read', 'ax.dma_read_block(ra, la, ga, 6, 2); done.value = 1', 6, lambda M, a, b: [M['ra_%d' % (i // 2 % 2)].wr(a['la'] + (i // 4 * 2 + i % 2), b.R[i]) for i in range(6)], {'la': 2, 'ga': 16}, MB, wins='r')
wtest('block_write', 'ax.dma_write_block(ra, 1, 64, 6, 2); done.value = 1', 6, None, {}, MB, wins='w', mr=both(seqcover('AW', lambda a: [(64, 6)]), lambda c, h, a, b, M: wbeats(c, b, [M['ra_%d' % (i // 2 % 2)].rd(1 + (i // 4 * 2 + i % 2) & 3) for i in range(6)])))
wtest('block_write', 'ax.dma_write_block(ra, la, ga, 3, 2); done.value = 1', 3, lambda a, M: [M['ra_%d' % (i // 2 % 2)].rd(a['la'] + (i // 4 * 2 + i % 2)) for i in range(3)], {'la': 2, 'ga': 16}, MB, wins='-')
rtest('block_read1', 'ax.dma_read_block(ra, la, ga, 4); done.value = 1', 4, lambda M, a, b: [M['ra_%d' % (i % 2)].wr(a['la'] + i // 2, b.R[i]) for i in range(4)], {'la': 2, 'ga': 16}, MB, wins='r')
wtest('block_write1', 'ax.dma_write_block(ra, 2, 64, 4, 1); done.value = 1', 4, None, {}, MB, wins='w', mr=both(seqcover('AW', lambda a: [(64, 4)]), lambda c, h, a, b, M: wbeats(c, b, [M['ra_%d' % (i % 2)].rd(2 + i // 2) for i in range(4)])))
rtest('block_read_stride', 'ax.dma_read_block(ra, la, ga, 4, 2, 3); done.value = 1', 4, lambda M, a, b: [M['ra_%d' % (i // 2)].wr(a['la'] + 3 * (i % 2), b.R[i]) for i in range(4)], {'la': 2, 'ga': 16}, MB, wins='-')
wtest('block_write_stride', 'ax.dma_write_block(ra, la, ga, 4, 2, 3); done.value = 1', 4, lambda a, M: [M['ra_%d' % (i // 2)].rd(a['la'] + 3 * (i % 2)) for i in range(4)], {'la': 2, 'ga': 16}, MB, wins='-')
rtest('block_read4', 'ax.dma_read_block(ra, 1, ga, 8, 2); done.value = 1', 8, lambda M, a, b: [M['ra_%d' % (i // 2)].wr(1 + i % 2, b.R[i]) for i in range(8)], {'ga': 16}, MB4, wins='-')
rtest('block_read_async', 'ax.dma_read_block_async(ra, 1, 64, 4, 2); ax.dma_read_block_async(ra, 0, 32, 1, 2); ax.dma_wait_read(); done.value = 1', 5, lambda M, a, b: ([M['ra_%d' % (i // 2)].wr(1 + i % 2, b.R[i]) for i in range(4)], M['ra_0'].wr(0, b.R[4]), None)[2], {}, MB, wins='r', mr=seqcover('AR', lambda a: [(64, 4), (32, 1)]))
wtest('block_write_async', 'ax.dma_write_block_async(ra, 1, 64, 4, 2); ax.dma_write_block_async(ra, 0, 32, 1, 2); ax.dma_wait_write(); done.value = 1', 5, None, {}, MB, wins='w', mr=both(seqcover('AW', lambda a: [(64, 4), (32, 1)]), lambda c, h, a, b, M: wbeats(c, b, [M['ra_0'].rd(1), M['ra_0'].rd(2), M['ra_1'].rd(1), M['ra_1'].rd(2), M['ra_0'].rd(0)])))
rtest('block_read_narrow', 'ax.dma_read_block(ra, la, ga, 4, 2); done.value = 1', 2, lambda M, a, b: [M['ra_%d' % (i // 2)].wr(a['la'] + i % 2, byte(b.R[i // 2], i % 2)) for i in range(4)], {'la': 2, 'ga': 16}, MB, dw=16, wins='-')
rtest('bcast', 'ax.dma_read_bcast(ra, la, ga, 3); done.value = 1', 3, lambda M, a, b: [M['ra_%d' % k].wr(a['la'] + i, b.R[i]) for i in range(3) for k in range(2)], {'la': 2, 'ga': 16}, MB, wins='r')
rtest('bcast_stride', 'ax.dma_read_bcast(ra, la, ga, 2, 3); done.value = 1', 2, lambda M, a, b: [M['ra_%d' % k].wr(a['la'] + 3 * i, b.R[i]) for i in range(2) for k in range(4)], {'la': 2, 'ga': 16}, MB4, wins='-')
rtest('bcast_async', 'ax.dma_read_bcast_async(ra, 1, 64, 2); ax.dma_read_bcast_async(ra, 0, 32, 1); ax.dma_wait_read(); done.value = 1', 3, lambda M, a, b: [M['ra_%d' % k].wr((1, 2, 0)[i], b.R[i]) for i in range(3) for k in range(2)], {}, MB, wins='r', mr=seqcover('AR', lambda a: [(64, 2), (32, 1)]))

# options
rtest('base_read', 'ax.set_global_base_addr(gb); ax.dma_read(ra, la, ga, 2); done.value = 1', 2, lambda M, a, b: dr(M, b, 'ra', a['la'], 2), {'la': 3, 'ga': 16, 'gb': 16}, opt=', use_global_base_addr=True', wins='-', mr=lambda c, h, a, b, M: b.covers('AR', b.ar, b.arlen, a['ga'] + a['gb'], 2))
wtest('base_write', 'ax.set_global_base_addr(gb); ax.dma_write(ra, la, ga, 2); done.value = 1', 2, None, {'la': 3, 'ga': 16, 'gb': 16}, opt=', use_global_base_addr=True', wins='-', mr=lambda c, h, a, b, M: (b.covers('AW', b.aw, b.awlen, a['ga'] + a['gb'], 2), wbeats(c, b, rd(M, 'ra', a['la'], 2))))
rtest('base_word', 'ax.set_global_base_addr(gb); o0.value = ax.read(ga); ax.set_global_base_addr(3); o1.value = ax.read(ga)', 2, lambda M, a, b: {'o0': b.R[0], 'o1': b.R[1]}, {'ga': 16, 'gb': 16}, {}, opt=', use_global_base_addr=True', outs={'o0': 8, 'o1': 8}, wins='r', at=[], mr=seqcover('AR', lambda a: [(a['ga'] + a['gb'], 1), (a['ga'] + 3, 1)]))
wtest('base_wword', 'ax.set_global_base_addr(gb); ax.write(ga, x); ax.set_global_base_addr(ga); ax.write_fence(gb, ga)', 2, None, {'ga': 16, 'gb': 16, 'x': 8}, {}, opt=', use_global_base_addr=True', outs={}, wins='w', at=[], mr=both(seqcover('AW', lambda a: [(a['ga'] + a['gb'], 1)] * 2), lambda c, h, a, b, M: wbeats(c, b, [a['x'], a['ga'].zx(8)])))
for k, o in (('sb3', ', sb_depth=3'), ('fifo2', ', req_fifo_addrwidth=2'), ('mod', ', fsm_as_module=True')):
    rtest('opt_%s_read' % k, 'ax.dma_read(ra, 3, 64, 3); ax.dma_read(ra, 0, 32, 2); done.value = 1', 5, lambda M, a, b: (dr(M, b, 'ra', 3, 3), dr(M, b, 'ra', 0, 2, 1, 3), None)[2], {}, opt=o, wins='r', mr=seqcover('AR', lambda a: [(64, 3), (32, 2)]))
    wtest('opt_%s_write' % k, 'ax.dma_write(ra, 3, 64, 3); ax.dma_write(ra, 0, 32, 2); done.value = 1', 5, None, {}, opt=o, wins='w awb', mr=both(seqcover('AW', lambda a: [(64, 3), (32, 2)]), lambda c, h, a, b, M: wbeats(c, b, rd(M, 'ra', 3, 3) + rd(M, 'ra', 0, 2))))
RP = {'ra': (8, 3, dict(numports=2))}
rtest('port1_read', 'ax.dma_read(ra, la, ga, 3, port=1); done.value = 1', 3, lambda M, a, b: dr(M, b, 'ra', a['la'], 3), rams=RP, wins='-')
wtest('port1_write', 'ax.dma_write(ra, la, ga, 3, port=1); done.value = 1', 3, lambda a, M: rd(M, 'ra', a['la'], 3), rams=RP, wins='-')
rtest('ports_read', 'ax.dma_read_async(ra, 0, 64, 2, port=1); ax.dma_read_async(ra, 4, 32, 2, port=0); ax.dma_wait_read(); done.value = 1', 4, lambda M, a, b: (dr(M, b, 'ra', 0, 2), dr(M, b, 'ra', 4, 2, 1, 2), None)[2], {}, rams=RP, wins='r', mr=seqcover('AR', lambda a: [(64, 2), (32, 2)]))
# memories of different widths on one master
RM = {'ra': (8, 3), 'rb': (16, 2), 'rc': (4, 3)}
rtest('mixed_read', 'ax.dma_read_async(rb, 1, 64, 1); ax.dma_read_async(ra, 2, 32, 2); ax.dma_read_async(rc, 3, 16, 4); ax.dma_read_async(rb, 2, 0, 1); ax.dma_wait_read(); done.value = 1', 8,
      lambda M, a, b: (M['rb'].wr(1, cat(b.R[0], b.R[1])), dr(M, b, 'ra', 2, 2, 1, 2), [M['rc'].wr(3 + i, t.extract(b.R[4 + i // 2], 4 * (i % 2) + 3, 4 * (i % 2))) for i in range(4)], M['rb'].wr(2, cat(b.R[6], b.R[7])), None)[4], {}, RM, wins='r', mr=seqcover('AR', lambda a: [(64, 2), (32, 2), (16, 2), (0, 2)]))
wtest('mixed_write', 'ax.dma_write_async(rb, 1, 64, 1); ax.dma_write_async(ra, 2, 32, 2); ax.dma_write_async(rc, 3, 16, 4); ax.dma_write_async(rb, 2, 0, 1); ax.dma_wait_write(); done.value = 1', 8, None, {}, RM, wins='w awb',
      mr=both(seqcover('AW', lambda a: [(64, 2), (32, 2), (16, 2), (0, 2)]), lambda c, h, a, b, M: wbeats(c, b, [byte(M['rb'].rd(1), 0), byte(M['rb'].rd(1), 1), M['ra'].rd(2), M['ra'].rd(3), cat(M['rc'].rd(3), M['rc'].rd(4)), cat(M['rc'].rd(5), M['rc'].rd(6)), byte(M['rb'].rd(2), 0), byte(M['rb'].rd(2), 1)])))


# both directions
def rw(name, body, nr, nw, ref, mr, rams=RA, args=None, win=None, at=(), opt='', outs=None, cls='AXIM', dw=8, top='', lite=False, tie=None, cycles=64, aw=16, tier='quick'):
    R.add(name, taxi(prog(body, dw, aw, opt, cls, top), rams, ref, args, DONE if outs is None else outs, win=win or {}, bus=dict(nbeat=max(nr, nw, 1), nreq=4), dw=dw, at=at, more=mr, tie=tie, lite=lite, cycles=cycles),
          tier=tier, bounds='all addresses, words and handshakes in the window', timeout=700)


rw('copy', 'ax.dma_read(ra, 0, 64, 3); ax.dma_write(ra, 1, 32, 3); done.value = 1', 3, 3, lambda M, a, b: dr(M, b, 'ra', 0, 3),
   both(seqcover('AR', lambda a: [(64, 3)]), seqcover('AW', lambda a: [(32, 3)]), lambda c, h, a, b, M: wbeats(c, b, rd(M, 'ra', 1, 3))), win={'r': range(9, 13), 'w': range(21, 25)}, at=[at_w(3), at_r(3)])
rw('both_async', 'ax.dma_read_async(ra, 0, 64, 3); ax.dma_write_async(rb, 1, 32, 3); ax.dma_wait(); done.value = 1', 3, 3, lambda M, a, b: dr(M, b, 'ra', 0, 3),
   both(seqcover('AR', lambda a: [(64, 3)]), seqcover('AW', lambda a: [(32, 3)]), lambda c, h, a, b, M: wbeats(c, b, rd(M, 'rb', 1, 3))), rams=R2, win={'r': range(9, 14), 'w': range(10, 15), 'b': range(15, 18)}, at=[at_w(3), at_r(3)])
rw('word_mix', 'ax.write(64, x); o0.value = ax.read(65); ax.dma_write_async(ra, 0, 32, 2); o1.value = ax.read(ga); ax.write(66, o1); ax.dma_wait_write(); done.value = 1', 2, 4, lambda M, a, b: {'o0': b.R[0], 'o1': b.R[1]},
   both(seqcover('AR', lambda a: [(const(65, 16), 1), (a['ga'], 1)]), seqcover('AW', lambda a: [(64, 1), (32, 2), (66, 1)]), lambda c, h, a, b, M: wbeats(c, b, [a['x'], M['ra'].rd(0), M['ra'].rd(1), b.R[1]])),
   args={'ga': 16, 'x': 8}, outs={'done': 1, 'o0': 8, 'o1': 8}, win={'r': range(8, 12), 'w': range(5, 9), 'b': range(15, 18)}, at=[at_w(4)])
for k, (op, sub) in enumerate((('read_delayed(ga, 2)', 'r'), ('read_delayed(ga, 0)', 'r'))):
    rtest('verify_read%d' % k, 'o0.value = ax.%s; done.value = 1' % op, 1, lambda M, a, b: {'o0': b.R[0]}, {'ga': 16}, wins='r', mr=seqcover('AR', lambda a: [(a['ga'], 1)]), outs={'done': 1, 'o0': 8}, cls='AXIMVerify')
    rw('verify_write%d' % k, 'ax.write_delayed(ga, x, %d); ax.dma_wait_write(); done.value = 1' % (2 - 2 * k), 0, 1, None, both(seqcover('AW', lambda a: [(a['ga'], 1)]), lambda c, h, a, b, M: wbeats(c, b, [a['x']])), {}, {'ga': 16, 'x': 8}, {'w': range(6, 12)}, [at_w(1)], cls='AXIMVerify')

# lite
LW = {'a': {'aw': range(3, 10), 'ar': range(3, 10)}, 'd': {'w': range(4, 12), 'r': range(4, 12)}, 'b': {'b': range(5, 13)}, 'x': {'aw': range(4, 7), 'w': range(6, 10), 'b': range(9, 13), 'ar': range(3, 6), 'r': range(5, 9)}}
for w in LW:
    for o, opt in (('', ''), ('_sb2', ', sb_depth=2')):
        if opt and w != 'd':
            continue
        rw('lite_write%s_%s' % (o, w), 'ax.write(ga, x); done.value = 1; ax.write(ga + 4, y); d2.value = 1; ax.write_fence(ga, ga); d3.value = 1', 0, 3, None,
           both(seqcover('AW', lambda a: [(a['ga'], 1), (a['ga'] + 4, 1), (a['ga'], 1)]), lambda c, h, a, b, M: (wbeats(c, b, [a['x'], a['y'], a['ga'].zx(8)]), c.check('answered', b.bcnt.eq(3)))), {}, {'ga': 16, 'x': 8, 'y': 8}, LW[w],
           [('done', lambda h, b: t.and_(b.W.n.uge(1), b.bcnt.uge(1))), ('d2', lambda h, b: t.and_(b.W.n.uge(2), b.bcnt.uge(2))), at_w(3, 'd3')], cls='AXIMLite', outs={'done': 1, 'd2': 1, 'd3': 1}, lite=True, opt=opt)
        rw('lite_read%s_%s' % (o, w), 'o0.value = ax.read(ga); done.value = 1; o1.value = ax.read(ga + 4)', 2, 0, lambda M, a, b: {'o0': b.R[0], 'o1': b.R[1]},
           seqcover('AR', lambda a: [(a['ga'], 1), (a['ga'] + 4, 1)]), {}, {'ga': 16}, LW[w], [at_r(1)], cls='AXIMLite', outs={'done': 1, 'o0': 8, 'o1': 8}, lite=True, opt=opt)
    rw('lite_both_%s' % w, 'o0.value = ax.read(ga); ax.write(ga, o0 + 1); o1.value = ax.read(8); done.value = 1', 2, 1, lambda M, a, b: {'o0': b.R[0], 'o1': b.R[1]},
       both(seqcover('AR', lambda a: [(a['ga'], 1), (const(8, 16), 1)]), seqcover('AW', lambda a: [(a['ga'], 1)]), lambda c, h, a, b, M: wbeats(c, b, [b.R[0] + 1])), {}, {'ga': 16}, LW[w], [at_w(1), at_r(2)], cls='AXIMLite', outs={'done': 1, 'o0': 8, 'o1': 8}, lite=True)
rw('lite_base', 'ax.set_global_base_addr(gb); o0.value = ax.read(ga); ax.write(ga, x); done.value = 1', 1, 1, lambda M, a, b: {'o0': b.R[0]}, both(seqcover('AR', lambda a: [(a['ga'] + a['gb'], 1)]), seqcover('AW', lambda a: [(a['ga'] + a['gb'], 1)]), lambda c, h, a, b, M: wbeats(c, b, [a['x']])),
   {}, {'ga': 16, 'gb': 16, 'x': 8}, {'ar': range(4, 8)}, [at_r(1), at_w(1)], cls='AXIMLite', outs={'done': 1, 'o0': 8}, lite=True, opt=', use_global_base_addr=True')
rw('lite_vread', 'o0.value = ax.read_delayed(ga, 2); done.value = 1', 1, 0, lambda M, a, b: {'o0': b.R[0]}, seqcover('AR', lambda a: [(a['ga'], 1)]), {}, {'ga': 16}, {'r': range(5, 11)}, [at_r(1)], outs={'done': 1, 'o0': 8}, cls='AXIMLiteVerify', lite=True)
rw('lite_vwrite', 'ax.write_delayed(ga, x, 2); done.value = 1', 0, 1, None, both(seqcover('AW', lambda a: [(a['ga'], 1)]), lambda c, h, a, b, M: wbeats(c, b, [a['x']])), {}, {'ga': 16, 'x': 8}, {'w': range(5, 11)}, [at_w(1)], cls='AXIMLiteVerify', lite=True)

# a master used for reading only leaves its write data channel unknown
rw('kf_read_only', 'o0.value = ax.read(8); done.value = 1', 1, 0, lambda M, a, b: {'o0': b.R[0]}, seqcover('AR', lambda a: [(const(8, 16), 1)]), {}, {}, {}, [at_r(1)], outs={'done': 1, 'o0': 8})

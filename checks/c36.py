"""C36: simulated AXI memories and memory images."""
import os
import tempfile
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from checks.thlib import load
from checks.slv import Bus, pick, K

R = Registry('C36', 'symbolic execution of the generated memory hardware with symbolic contents, requests, data, strobes and handshake timing; z3 decides every cycle',
             ['veriloggen/types/axi.py', 'veriloggen/types/fifo.py', 'veriloggen/types/ram.py', 'veriloggen/seq/seq.py', 'veriloggen/fsm/fsm.py'],
             assumptions=['incrementing bursts of full bus words at aligned addresses inside the memory', 'memories of 16 or 32 bytes, request and response delays of 0 to 2 cycles'],
             explanation='two or three bursts of one to three words per direction; handshakes symbolic in windows of up to 12 cycles; contents, addresses, data and strobes symbolic')

MI = ['awaddr', 'awlen', 'awsize', 'awburst', 'awlock', 'awcache', 'awprot', 'awqos', 'awuser', 'awvalid', 'wdata', 'wstrb', 'wlast', 'wvalid', 'bready',
      'araddr', 'arlen', 'arsize', 'arburst', 'arlock', 'arcache', 'arprot', 'arqos', 'aruser', 'arvalid', 'rready', 'awid', 'arid']
MO = ['awready', 'wready', 'bresp', 'bvalid', 'arready', 'rdata', 'rresp', 'rlast', 'rvalid', 'bid', 'rid']


def widths(dw, aw, ids):
    w = {'awaddr': aw, 'araddr': aw, 'awlen': 8, 'arlen': 8, 'wdata': dw, 'rdata': dw, 'wstrb': dw // 8, 'bresp': 2, 'rresp': 2}
    for ch in ('aw', 'ar'):
        w.update({ch + 'size': 3, ch + 'burst': 2, ch + 'cache': 4, ch + 'prot': 3, ch + 'qos': 4, ch + 'user': 2, ch + 'id': ids})
    w['bid'] = w['rid'] = ids
    return w


def scratch(lines, body):
    """a memory image file that is gone afterwards: its content is arbitrary for the checks"""
    d = tempfile.mkdtemp(prefix='c36_')
    p = os.path.join(d, 'img')
    cwd = os.getcwd()
    try:
        os.chdir(d)
        with open(p, 'w') as f:
            f.write('00\n' * lines)
        return body(p)
    finally:
        os.chdir(cwd)
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


def build(cls, dw, maw, aw, ids, nports, opts, src, args=None, outs=None, memdw=None):
    import veriloggen as vg
    import veriloggen.thread as vthread
    import veriloggen.types.axi as axi

    def body(path):
        m = vg.Module('dut')
        clk, rst = m.Input('CLK'), m.Input('RST')
        e = {'m': m, 'CLK': clk, 'RST': rst, 'vthread': vthread, 'vg': vg, 'axi': axi}
        for n, w in (args or {}).items():
            e[n] = m.Input(n, w)
        for n, w in (outs or {}).items():
            w, s = w if isinstance(w, tuple) else (w, False)
            e[n] = m.OutputReg(n, w, initval=0, signed=s)
        W = widths(dw, aw, ids)
        o = dict(opts)
        if ids:
            o.update(waddr_id_width=ids, wresp_id_width=ids, raddr_id_width=ids, rdata_id_width=ids)
        if nports > 1:
            o['numports'] = nports
        mem = getattr(axi, cls)(m, 'mem', clk, rst, dw, aw, mem_datawidth=memdw or dw, mem_addrwidth=maw, memimg=path, **o)
        for i in range(nports):
            p = 'ax%d' % i if nports > 1 else 'ax'
            ports = {}
            for q in MI + MO:
                if q in ('awid', 'arid', 'bid', 'rid') and not ids:
                    continue
                ports['%s_%s' % (p, q)] = (m.Input if q in MI else m.Output)('%s_%s' % (p, q), W.get(q, 1))
            if nports > 1:
                mem.connect(i, ports, p)
            else:
                mem.connect(ports, p)
        e['mem'] = mem
        load(src, e)
        return m
    return scratch(2 ** maw, body)


def model(cls='AxiMemoryModel', dw=16, maw=4, aw=8, ids=0, nports=1, opts=None, src='', buses=None, cycles=40, args=None, outs=None, memdw=None, final=None,
          each=None, content=True, pre=None, extra=4, busy=0):
    """buses: list of (writes(c, a), reads(c, a), win)"""
    o = dict(dict(write_delay=1, read_delay=1, sleep_interval=0, keep_sleep=0), **(opts or {}))

    def sc(c):
        h = c.hw(c.verilog('d', lambda: build(cls, dw, maw, aw, ids, nports, o, src, args, outs, memdw)), 'dut')
        a = {}
        for k, w in (args or {}).items():
            a[k] = c.fresh(k, w)
            h.set(k, a[k])
        for q in (pre(a) if pre else ()):
            c.assume(q)
        B = []
        for i, (w, r, win) in enumerate(buses):
            B.append(Bus(c, h, 'ax%d' % i if nports > 1 else 'ax', w(c, a), r(c, a), win, dw=dw, ids=ids))
            B[-1].idle()
        h.reset()
        NB = dw // 8
        n = 2 ** maw
        memv = lambda: [h.get('_mem_mem', k) for k in range(n)]
        M = memv()
        H = []
        st = {}
        end = max([0] + [max(x) + 1 for b in B for x in b.win.values() if len(x)])
        for s in range(cycles):
            for b in B:
                b.drive()
            if each is not None:
                each(c, h, B, a, st, s)
            evs = [b.look() for b in B]
            H = [memv()] + H[:3]
            for j, (b, ev) in enumerate(zip(B, evs)):
                if not b.reads:
                    continue
                rv = t.and_(h.get(b.n('rvalid')).nz(), t.not_(st.get(('hold', j), t.false())))
                st['hold', j] = t.and_(h.get(b.n('rvalid')).nz(), t.not_(h.get(b.n('rready')).nz()))
                r, rb = ev['state'][5:]
                base = pick([t.extract(q['addr'], maw - 1, 0) for q in b.reads], r, maw) + t.extract(t.zresize(rb, 8), maw - 1, 0) * NB
                d = h.get(b.n('rdata'))
                if H[1:]:
                    c.check('port %d: word offered in cycle %d is the content' % (j, s),
                            t.implies(rv, t.disj([t.conj([t.select(x, base + k, const(0, 8)).eq(t.extract(d, 8 * k + 7, 8 * k)) for k in range(NB)]) for x in H[1:]])))
            dn = t.conj([b.done() for b in B])
            h.step()
            if dn.op == 'const' and dn.val and s >= end and not busy:
                break
        for s in range(extra):
            for b in B:
                b.drive()
                b.look()
            h.step()
        for b in B:
            b.verdict()
        if content:
            E = list(M)
            for b in B:
                for q in b.writes:
                    for i, d in enumerate(q['data']):
                        for k in range(NB):
                            ad = t.extract(q['addr'], maw - 1, 0) + (i * NB + k)
                            sb = t.extract(q['strb'][i], k, k).nz()
                            v = t.extract(d, 8 * k + 7, 8 * k)
                            E = [ite(t.and_(sb, ad.eq(x)), v, E[x]) for x in range(n)]
            for x, v in enumerate(memv()):
                c.check('content of byte %d' % x, v.eq(E[x]))
        if final is not None:
            final(c, h, B, a, M, memv())
    return sc


def addr(c, name, words, dw, maw, aw):
    NB = dw // 8
    sh = NB.bit_length() - 1
    i = c.fresh(name, maw - sh)
    c.assume(i.ule(2 ** (maw - sh) - words))
    return t.shl(t.zresize(i, aw), const(sh, aw))


def W(lens, dw=16, maw=4, aw=8, ids=0, pfx='', **kw):
    return lambda c, a: [dict({'addr': addr(c, '%swa%d' % (pfx, i), l, dw, maw, aw), 'data': [c.fresh('%sw%d_%d' % (pfx, i, k), dw) for k in range(l)],
                               'strb': [c.fresh('%sm%d_%d' % (pfx, i, k), dw // 8) for k in range(l)], 'id': c.fresh('%swi%d' % (pfx, i), ids) if ids else None},
                              **{k: v[i] for k, v in kw.items() if v[i]}) for i, l in enumerate(lens)]


def Rd(lens, dw=16, maw=4, aw=8, ids=0, pfx='', **kw):
    return lambda c, a: [dict({'addr': addr(c, '%sra%d' % (pfx, i), l, dw, maw, aw), 'n': l, 'id': c.fresh('%sri%d' % (pfx, i), ids) if ids else None},
                              **{k: v[i] for k, v in kw.items() if v[i]}) for i, l in enumerate(lens)]


def after(nb=0, nr=0):
    return lambda b: t.and_(b.b.uge(nb), b.r.uge(nr))


def win(lo, hi, chs='aw w b ar r'):
    return dict((ch, range(lo, hi)) for ch in chs.split())


NONE = lambda c, a: []
D8 = dict(dw=8, maw=3)
for cls, P in (('AxiMemoryModel', ''), ('AxiSerialMemoryModel', 'serial_')):
    m8 = dict(cls=cls, dw=8, maw=3)
    # AxiMemoryModel withdraws an unaccepted write response (recorded finding, kf_write_b): elsewhere its responses are accepted at once
    AL = 'aw w b ar r' if P else 'aw w ar r'
    AW = 'aw w b' if P else 'aw w'
    F = {} if P else {'req_fifo_addrwidth': 2, 'data_fifo_addrwidth': 2}
    for sl, o in (('', {}), ('_sleep', {'sleep_interval': 3, 'keep_sleep': 2}), ('_sleep0', {'sleep_interval': 2, 'keep_sleep': 0, 'write_delay': 0, 'read_delay': 0}),
                  ('_delay', {'write_delay': 2, 'read_delay': 2})):
        o = dict(F, **o)
        R.add(P + 'read' + sl, model(cls, buses=[(NONE, Rd([1, 3, 2]), win(0, 12, 'ar r'))], cycles=60, opts=o))
        R.add(P + 'write' + sl, model(buses=[(W([1, 2], **D8), NONE, win(0, 8, AW))], cycles=50, opts=o, **m8))
        if P or not sl:
            R.add((P + 'write_b' if P else 'kf_write_b') + sl, model(buses=[(W([1, 2, 1], **D8), NONE, win(4, 14, 'b'))], cycles=50, opts=o, **m8))
        R.add(P + 'rw' + sl, model(buses=[(W([2, 1], **D8), Rd([1, 2], **D8), win(2, 7, AL))], cycles=60, opts=o, **m8))
    R.add(P + 'wr_after', model(buses=[(W([2, 1], after=[None, after(1)], **D8), Rd([2], after=[after(2)], **D8), dict(win(0, 5, AW), **win(14, 20, 'ar r')))], cycles=60, opts=F, **m8))
    R.add(P + 'wrwr', model(buses=[(W([1, 1], after=[None, after(1, 1)], **D8), Rd([2, 2], after=[after(1), after(2, 1)], **D8), win(0, 6, AL))], cycles=70, opts=F, **m8))
    R.add(P + 'dw32', model(cls, 32, 3, buses=[(W([2], 32, 3), NONE, win(0, 4, AL))], cycles=50, opts=F))
    R.add(P + 'dw16_rw', model(cls, 16, 3, buses=[(W([2], 16, 3), Rd([2], 16, 3, after=[after(1)]), win(0, 4, AL))], cycles=50, opts=F))
    R.add(P + 'long', model(buses=[(W([6], **D8), Rd([6], after=[after(1)], **D8), dict(win(2, 8, 'w'), **win(18, 24, 'r')))], cycles=60, opts=F, **m8))
    R.add(P + 'id', model(ids=2, buses=[(W([1, 2], ids=2, **D8), Rd([2, 1], ids=2, **D8), win(0, 6, AL))], cycles=60, opts=F, **m8))
    cls = cls.replace('Memory', 'MultiportMemory')
    m8 = dict(cls=cls, dw=8, maw=3, nports=2, opts=F)
    R.add(P + 'multi', model(buses=[(W([1, 2], pfx='p', **D8), NONE, win(0, 6)), (NONE, Rd([2, 1], pfx='q', **D8), win(0, 8))], cycles=50, **m8))
    R.add(P + 'multi_swap', model(buses=[(NONE, Rd([2, 1], pfx='q', **D8), win(0, 8)), (W([1, 2], pfx='p', **D8), NONE, win(0, 6))], cycles=50, **m8))
    R.add(P + 'multi_rr', model(buses=[(NONE, Rd([1, 3], pfx='p', **D8), win(0, 8)), (NONE, Rd([2, 1], pfx='q', **D8), win(0, 8))], cycles=50, **m8))
    R.add(P + 'multi_id', model(ids=2, buses=[(NONE, Rd([1, 2], ids=2, pfx='p', **D8), win(0, 7)), (W([2, 1], ids=2, pfx='q', **D8), NONE, win(0, 5))], cycles=50, **m8))


# ---- threads accessing the memory ------------------------------------------------------------------------------------
def th(body):
    return 'def f():\n' + ''.join('    %s\n' % l for l in body.strip('\n').split('\n')) + "th = vthread.Thread(m, 'th', CLK, RST, f)\nth.start()\n"


def at(M, a, i=0):
    return t.select(M, a + i, const(0, 8))


def word(M, a, n):
    r = at(M, a)
    for i in range(1, n):
        r = t.concat(at(M, a, i), r)
    return r


def put(M, a, v):
    return [ite(a.eq(x), v, o) for x, o in enumerate(M)]


def threads(cls, P):
    def add(name, body, ref, args, outs=None, dw=16, maw=4, pre=None, memdw=None):
        def fin(c, h, B, a, M, E):
            exp = ref(a, list(M))
            for k, v in exp.items():
                if k == 'mem':
                    for x in range(len(M)):
                        c.check('content of byte %d' % x, E[x].eq(v[x]))
                else:
                    g = h.get(k)
                    c.check(k, g.eq(t.sresize(v, g.w)))
        R.add(P + name, model(cls, dw, maw, src=th(body), buses=[(NONE, NONE, {})], cycles=30, busy=1, args=args, outs=outs or {'n0': (32, True)}, content=False, final=fin, pre=pre,
                              memdw=memdw))

    def wr(n):
        def ref(a, M):
            for i in range(n):
                M = put(M, a['p'] + i, t.extract(a['v'], 8 * i + 7, 8 * i))
            return {'mem': M}
        return ref
    for dw in (8, 16, 32):
        add('read%d' % dw, 'n0.value = mem.read(p)', lambda a, M, dw=dw: {'n0': word(M, a['p'], dw // 8), 'mem': M}, {'p': 4}, pre=lambda a, dw=dw: [a['p'].ule(16 - dw // 8)], memdw=dw)
        add('write%d' % dw, 'mem.write(p, v)\nn0.value = 1', wr(dw // 8), {'p': 4, 'v': dw}, pre=lambda a, dw=dw: [a['p'].ule(16 - dw // 8)], memdw=dw)
    add('write_read', 'mem.write(p, v)\nmem.write(q, v + 1)\nn0.value = mem.read(p)', lambda a, M: (lambda N: {'n0': at(N, a['p']), 'mem': N})(
        put(put(M, a['p'], a['v']), a['q'], a['v'] + 1)), {'p': 4, 'q': 4, 'v': 8}, memdw=8)
    for bits in (4, 8, 12, 16, 2, 10):
        def rref(a, M, bits=bits):
            # word i occupies the bits [i * bits, (i + 1) * bits) of the little endian bit string behind the offset
            allb = word(M, const(0, 4), 16)
            sh = t.zresize(a['o'], 128) * 8 + t.zresize(a['i'], 128) * bits
            return {'n0': t.extract(t.lshr(allb, sh), bits - 1, 0), 'mem': M}

        def wref(a, M, bits=bits):
            allb = word(M, const(0, 4), 16)
            sh = t.zresize(a['o'], 128) * 8 + t.zresize(a['i'], 128) * bits
            m = t.shl(const((1 << bits) - 1, 128), sh)
            r = (allb & ~m) | (t.shl(t.zresize(a['v'], 128), sh) & m)
            return {'mem': [t.extract(r, 8 * k + 7, 8 * k) for k in range(16)]}
        lim = lambda a: [a['o'].ule(2)]
        add('read_word%d' % bits, 'n0.value = mem.read_word(i, o, %d)' % bits, rref, {'i': 3, 'o': 4}, pre=lim if bits < 16 else lambda a: [a['o'].ule(0)])
        add('write_word%d' % bits, 'mem.write_word(i, o, v, %d)' % bits, wref, {'i': 3, 'o': 4, 'v': bits}, pre=lim if bits < 16 else lambda a: [a['o'].ule(0)])


threads('AxiMemoryModel', '')
threads('AxiSerialMemoryModel', 'serial_')
